// Runs the TypeScript library in node, with stand-ins for the packages it imports, against a direct computation of what each function
// is specified to return. Usage: node run.js GROUP SEED SECONDS [ROOT]. Prints one JSON object.
"use strict";
const path = require("path"), fs = require("fs"), Module = require("module"), crypto = require("crypto");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const [group, seed, seconds, root0] = process.argv.slice(2);
const ROOT = path.resolve(root0 || "/repo/packages/lib/src");
const P = 2n ** 256n - 2n ** 32n - 977n, N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141n;
const G = [0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798n, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8n];
const mod = (a, m) => ((a % m) + m) % m;
function inv(a, m) { let [r0, r1, s0, s1] = [mod(a, m), m, 1n, 0n]; while (r1) { const q = r0 / r1; [r0, r1] = [r1, r0 - q * r1]; [s0, s1] = [s1, s0 - q * s1]; } return mod(s0, m); }
function pow(b, e, m) { let r = 1n; b = mod(b, m); while (e) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; } return r; }
function add(a, b) { if (!a) return b; if (!b) return a; if (a[0] === b[0]) { if (mod(a[1] + b[1], P) === 0n) return null; }
  const l = a[0] === b[0] ? 3n * a[0] * a[0] * inv(2n * a[1], P) : (b[1] - a[1]) * inv(b[0] - a[0], P), x = mod(l * l - a[0] - b[0], P); return [x, mod(l * (a[0] - x) - a[1], P)]; }
function mul(k, p) { // Jacobian double and add
  if (!p || !k) return null; const m = x => { x %= P; return x < 0n ? x + P : x; }; let X = 0n, Y = 1n, Z = 0n;
  for (const b of k.toString(2)) {
    if (Z) { const A = m(X * X), B = m(Y * Y), C = m(B * B), D = m(2n * ((X + B) ** 2n - A - C)), E = 3n * A, X3 = m(E * E - 2n * D); Z = m(2n * Y * Z); Y = m(E * (D - X3) - 8n * C); X = X3; }
    if (b === "1") {
      if (!Z) { [X, Y, Z] = [p[0], p[1], 1n]; continue; }
      const ZZ = m(Z * Z), U = m(p[0] * ZZ), S = m(p[1] * ZZ * Z), H = m(U - X), R = m(S - Y);
      if (!H) { if (R) { X = 0n; Y = 1n; Z = 0n; continue; } const z = inv(Z, P), q = add([m(X * z * z), m(Y * z * z * z)], p); [X, Y, Z] = [q[0], q[1], 1n]; continue; }
      const HH = m(H * H), HHH = m(H * HH), V = m(X * HH), X3 = m(R * R - HHH - 2n * V); Y = m(R * (V - X3) - Y * HHH); X = X3; Z = m(Z * H);
    }
  }
  if (!Z) return null; const z = inv(Z, P), z2 = m(z * z); return [m(X * z2), m(Y * z2 * z)];
}
function lift(x, odd) { x = mod(x, P); const y2 = mod(x * x * x + 7n, P), y = pow(y2, (P + 1n) / 4n, P); if (y * y % P !== y2) return undefined; return [x, (y % 2n === 1n) === odd ? y : mod(-y, P)]; }
// ---------------- stand-ins
const calls = []; let state = {};
class BN {
  constructor(v = 0, base = 10, endian = "be") {
    if (v instanceof BN) return v;
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (base === "hex") base = 16;
    if (typeof v === "bigint" && base === 10) { this.v = v; return; }
    if (typeof v === "number") { if (!Number.isInteger(v) || Math.abs(v) >= 2 ** 53) throw new Error("Assertion failed"); this.v = BigInt(v); return; }
    if (v && typeof v === "object" && typeof v.length === "number") { let r = 0n; const a = Array.from(v); if (endian === "le") a.reverse(); for (const x of a) r = r * 256n + BigInt(x); this.v = r; return; }
    let s = String(v).replace(/\s+/g, ""), neg = false; if (s[0] === "-") { neg = true; s = s.slice(1); }
    let r = 0n; for (const c of s) { const d = parseInt(c, 36); if (!(d < base)) throw new Error("Invalid character"); r = r * BigInt(base) + BigInt(d); }
    this.v = neg ? -r : r;
  }
  static of(v) { const b = new BN(0); b.v = v; return b; }
  static isBN(v) { return v instanceof BN; }
  get negative() { return this.v < 0n ? 1 : 0; }
  mul(o) { return BN.of(this.v * o.v); } add(o) { return BN.of(this.v + o.v); } sub(o) { return BN.of(this.v - o.v); } neg() { return BN.of(-this.v); } clone() { return BN.of(this.v); }
  umod(o) { return BN.of(mod(this.v, o.v)); } mod(o) { return BN.of(this.v % o.v); } div(o) { return BN.of(this.v / o.v); } invm(o) { return BN.of(inv(this.v, o.v)); } isZero() { return this.v === 0n; } isOdd() { return mod(this.v, 2n) === 1n; } isEven() { return !this.isOdd(); } isNeg() { return this.v < 0n; }
  eq(o) { return this.v === o.v; } cmp(o) { return this.v < o.v ? -1 : this.v > o.v ? 1 : 0; } lt(o) { return this.v < o.v; } gt(o) { return this.v > o.v; } lte(o) { return this.v <= o.v; } gte(o) { return this.v >= o.v; } abs() { return BN.of(this.v < 0n ? -this.v : this.v); }
  shln(n) { return BN.of(this.v << BigInt(n)); } shrn(n) { return BN.of(this.v >> BigInt(n)); } bitLength() { return this.v.toString(2).length; } byteLength() { return Math.ceil(this.bitLength() / 8); } toNumber() { return Number(this.v); }
  toString(base = 10, pad = 0) { if (base === "hex") base = 16; let s = this.v.toString(base); if (pad) while (s.length % pad) s = "0" + s; return s; }
  toJSON() { return this.toString(16); }
  toArray(endian = "be", len) { const n = len || Math.max(1, Math.ceil(this.v.toString(16).length / 2)); const a = []; let v = this.v; for (let i = 0; i < n; i++) { a.push(Number(v & 255n)); v >>= 8n; } if (v) throw new Error("byte array longer than desired length"); return endian === "le" ? a : a.reverse(); }
  toArrayLike(T, e, n) { return T === Array ? this.toArray(e, n) : T.from(this.toArray(e, n)); } toBuffer(e, n) { return Buffer.from(this.toArray(e, n)); }
}
BN.BN = BN; BN.default = BN;
class Point {
  constructor(p) { this.p = p; }
  mul(k) { k = new BN(k, 16); if (k.v < 0n) throw new Error("stand-in: negative scalar"); return new Point(mul(k.v, this.p)); }
  add(o) { return new Point(add(this.p, o.p)); } neg() { return new Point(this.p && [this.p[0], mod(-this.p[1], P)]); } dbl() { return this.add(this); } isInfinity() { return !this.p; } inf() { return !this.p; } validate() { return true; }
  getX() { return BN.of(this.p[0]); } getY() { return BN.of(this.p[1]); } get x() { return this.p && this.getX(); } get y() { return this.p && this.getY(); } eq(o) { return String(this.p) === String(o.p); }
  encode(enc, compact) { const h = x => x.toString(16).padStart(64, "0"); const s = compact ? (this.p[1] & 1n ? "03" : "02") + h(this.p[0]) : "04" + h(this.p[0]) + h(this.p[1]); return enc === "hex" ? s : Array.from(Buffer.from(s, "hex")); }
  encodeCompressed(enc) { return this.encode(enc, true); }
}
function onCurve(p) { return p && mod(p[1] * p[1] - p[0] ** 3n - 7n, P) === 0n; }
const curve = { g: new Point(G), n: BN.of(N), p: BN.of(P),
  pointFromX(x, odd) { const p = lift(new BN(x, 16).v, !!odd); if (!p) throw new Error("invalid point"); return new Point(p); },
  point(x, y) { return new Point([new BN(x, 16).v, new BN(y, 16).v]); },
  decodePoint(b, enc) { const s = typeof b === "string" ? b : Buffer.from(b).toString("hex"); if (s.length === 130) { const p = [BigInt("0x" + s.slice(2, 66)), BigInt("0x" + s.slice(66))]; return new Point(p); } return this.pointFromX(new BN(s.slice(2), 16), s.slice(0, 2) === "03"); } };
class Key { constructor(p) { this.p = p; } getPublic(a, b) { return typeof a === "string" ? this.p.encode(a) : typeof b === "string" ? this.p.encode(b, a) : this.p; } validate() { return { result: !!onCurve(this.p.p) }; } }
class EC { constructor(n) { if (n !== "secp256k1") throw new Error("Unknown curve " + n); this.curve = curve; this.n = curve.n; this.g = curve.g; }
  keyFromPublic(p, enc) { if (p instanceof Key) return p; if (p instanceof Point) return new Key(p); if (p && p.x && p.y) return new Key(curve.point(p.x, p.y)); return new Key(curve.decodePoint(p, enc)); } }
// a Merkle tree with the interface of the package
class IncrementalMerkleTree {
  constructor(hash, depth, zero, arity = 2, leaves = []) { this.hash = hash; this.depth = depth; this.arity = arity; this.zero = zero; this.zeroes = []; this.nodes = []; let z = zero; for (let i = 0; i < depth; i++) { this.zeroes.push(z); this.nodes.push([]); z = hash(Array(arity).fill(z)); } this.nodes.push([]); this.rootv = z; for (const l of leaves) this.insert(l); }
  get root() { return this.rootv; } get leaves() { return this.nodes[0].slice(); }
  set_(i, leaf) { this.nodes[0][i] = leaf; let node = leaf; for (let l = 0; l < this.depth; l++) { this.nodes[l][i] = node; const s = i - i % this.arity, ch = []; for (let k = 0; k < this.arity; k++) ch.push(this.nodes[l][s + k] ?? this.zeroes[l]); node = this.hash(ch); i = Math.floor(i / this.arity); } this.rootv = node; }
  insert(leaf) { if (this.nodes[0].length >= this.arity ** this.depth) throw new Error("The tree is full"); this.set_(this.nodes[0].length, leaf); }
  update(i, leaf) { if (i < 0 || i >= this.nodes[0].length) throw new Error("The leaf does not exist in this tree"); this.set_(i, leaf); }
  delete(i) { this.update(i, this.zero); }
  indexOf(leaf) { return this.nodes[0].indexOf(leaf); }
  createProof(i) { if (i < 0 || i >= this.nodes[0].length) throw new Error("The leaf does not exist in this tree"); const siblings = [], pathIndices = [], leafIndex = i; for (let l = 0; l < this.depth; l++) { const pos = i % this.arity, s = i - pos; pathIndices[l] = pos; siblings[l] = []; for (let k = s; k < s + this.arity; k++) if (k !== i) siblings[l].push(this.nodes[l][k] ?? this.zeroes[l]); i = Math.floor(i / this.arity); } return { root: this.rootv, leaf: this.nodes[0][leafIndex], siblings, pathIndices, leafIndex }; }
  verifyProof(p) { let node = p.leaf; for (let i = 0; i < p.siblings.length; i++) { const ch = p.siblings[i].slice(); ch.splice(p.pathIndices[i], 0, node); node = this.hash(ch); } return node === p.root; }
}
const h32 = (...a) => { const h = crypto.createHash("sha256"); for (const x of a) { h.update(Buffer.from([x.length & 255, x.length >> 8])); h.update(x); } return new Uint8Array(h.digest()); };
const posB = b => h32(Buffer.from("poseidon"), b), leNum = b => Array.from(b).reduceRight((a, x) => a * 256n + BigInt(x), 0n), le32 = n => { const o = new Uint8Array(32); for (let i = 0; i < 32; i++) { o[i] = Number(n & 255n); n >>= 8n; } return o; };
const be = (n, k = 32) => Uint8Array.from(Array.from({ length: k }, (_, i) => Number((n >> BigInt(8 * (k - 1 - i))) & 255n)));
const posN = l => leNum(posB(Buffer.concat(l.map(x => le32(x)))));
const copy = b => { if (!(b instanceof Uint8Array)) throw new Error("not a byte array"); return Buffer.from(b); };
const wasmStub = { __esModule: true, poseidon(b) { calls.push(["poseidon", copy(b)]); return posB(b); },
  prove(c, w, p) { calls.push(["prove", copy(c), copy(w), copy(p)]); if (state.proveFails) throw new Error("unreachable"); return h32(c, w, p); },
  verify(c, pr, p) { calls.push(["verify", copy(c), copy(pr), copy(p)]); if (state.verify === "throw") throw new Error("unreachable"); if (state.verify === "throwValue") throw "invalid proof"; return state.verify && state.verify(c, pr, p); },
  initSync(b) { calls.push(["initSync", b]); }, init_panic_hook() { calls.push(["init_panic_hook"]); }, default() { calls.push(["initDefault"]); } };
const stubs = {
  "elliptic": { ec: EC }, "bn.js": BN, "@zk-kit/incremental-merkle-tree": { IncrementalMerkleTree },
  "@ethereumjs/util": { fromRpcSig(sig) { const b = Buffer.from(sig.slice(2), "hex"); let r, s, v; if (b.length >= 65) { r = b.slice(0, 32); s = b.slice(32, 64); v = BigInt("0x" + b.slice(64).toString("hex")); } else if (b.length === 64) { r = b.slice(0, 32); s = b.slice(32, 64); v = BigInt(b[32] >> 7); s[0] &= 0x7f; } else throw new Error("Invalid signature length"); if (v < 27n) v += 27n; return { v, r, s }; } },
  "snarkjs": { wtns: { async calculate(input, wasm, out) { calls.push(["witness", { ...input }, wasm]); await null; if (state.witnessFails) throw new Error("Assert Failed"); out.data = Uint8Array.from([1, 2, 3, calls.length]); state.witness = Buffer.from(out.data); } } },
};
const fileOf = p => new Uint8Array(Buffer.from("file contents of " + p)), urlOf = p => new Uint8Array(Buffer.from("url contents of " + p));
const rd = p => { calls.push(["readFile", String(p)]); if (state.ioFails) throw new Error("ENOENT"); const whole = Buffer.concat([Buffer.from("pool bytes before"), fileOf(p)]); return whole.subarray(17); };
stubs["fs"] = { ...fs, readFileSync: rd, promises: { ...fs.promises, readFile: async p => rd(p) } }; stubs["node:fs"] = stubs["fs"]; stubs["fs/promises"] = stubs["node:fs/promises"] = stubs["fs"].promises;
globalThis.fetch = async u => { calls.push(["fetch", String(u)]); if (state.ioFails) throw new Error("fetch failed"); const b = urlOf(u); return { ok: true, status: 200, arrayBuffer: async () => b.buffer }; };
const codeBytes = Uint8Array.from([0, 97, 115, 109]);
const cache = {};
function load(f) {
  if (cache[f]) return cache[f].exports;
  const m = cache[f] = { exports: {} };
  const js = ts.transpileModule(fs.readFileSync(f, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true, useDefineForClassFields: false }, fileName: f }).outputText;
  new Function("require", "module", "exports", "__filename", "__dirname", js)(s => req(s, f), m, m.exports, f, path.dirname(f));
  return m.exports;
}
function req(s, from) {
  if (s in stubs) return stubs[s];
  if (s === "default") return {};
  let p = s.startsWith("@src/") ? path.join(ROOT, s.slice(5)) : s.startsWith(".") ? path.resolve(path.dirname(from), s) : null;
  if (p === null) return require(s);
  const rel = path.relative(ROOT, p);
  if (rel === "wasm/wasm" || rel === "wasm/wasm.js") return wasmStub;
  if (rel === "wasm/wasmBytes") return { wasmBytes: codeBytes };
  for (const c of [p + ".ts", p + "/index.ts", p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return load(c);
  throw new Error("no module " + s);
}
const lib = f => load(path.join(ROOT, f));
console.time = console.timeEnd = console.warn = console.log = console.error = console.info = () => {};
// ---------------- random inputs
let ctr = 0; const rnd = n => { const out = []; while (out.length < n) out.push(...h32(Buffer.from(`${seed}:${group}:${ctr++}`))); return Uint8Array.from(out.slice(0, n)); };
const num = b => b.reduce((a, x) => a * 256n + BigInt(x), 0n), rint = n => Number(num(rnd(6)) % BigInt(n));
const EDGE = [0n, 1n, 15n, 16n, 255n, 256n, P - 1n, 1n << 255n, (1n << 248n) - 1n, 1n << 240n, (1n << 252n) - 1n, (1n << 128n) + 1n, 0x80n, N, N - 1n];
const field = () => rint(3) ? num(rnd(32)) % P >> BigInt([0, 0, 0, 4, 8, 12, 100, 200][rint(8)]) : EDGE[rint(EDGE.length)];
const hashes = () => { const k = rint(8); if (k === 0) return Buffer.from(be(N + 1n + num(rnd(15)))); if (k === 1) return Buffer.concat([Buffer.alloc(1 + rint(3)), Buffer.from(rnd(31))]).subarray(0, 32); if (k === 2) return Buffer.from(be(1n + num(rnd(1)))); if (k === 4) return Buffer.from(rnd([20, 33, 48, 64, 31, 1][rint(6)])); if (k === 3) return Buffer.from(be((1n << 256n) - 1n - num(rnd(4)))); return Buffer.from(rnd(32)); };
const badHash = m => num(m) % N === 0n;
function rpoint() { for (;;) { const x = rint(4) ? num(rnd(32)) % N : [1n, 2n, 3n, 4n, 6n, 8n, num(rnd(30)), num(rnd(31)), num(rnd(16))][rint(9)]; if (x && lift(x, true)) return x; } }
const js = v => typeof v === "bigint" ? "0x" + v.toString(16) : v instanceof Uint8Array ? Buffer.from(v).toString("hex") : v instanceof Error ? "throws " + v.message : Array.isArray(v) ? v.map(js) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, js(x)])) : v;
class Fail extends Error { constructor(what, input, got, want) { super(what); Object.assign(this, { what, input, got, want }); } }
const same = (a, b) => JSON.stringify(js(a)) === JSON.stringify(js(b));
function check(what, input, got, want) { if (!same(got, want)) throw new Fail(what, js(input), js(got), js(want)); }
const attempt = async f => { try { return await f(); } catch (e) { if (e instanceof Fail) throw e; return e instanceof Error ? e : new Error(String(e)); } };
const FIELDS = ["merkleRoot", "Tx", "Ty", "Ux", "Uy"];
const view = (b, kind) => { const w = kind === "buffer" ? Buffer.concat([Buffer.from([9, 9, 9]), Buffer.from(b), Buffer.from([7])]) : Uint8Array.from([9, 9, 9, ...b, 7]); return w.subarray(3, 3 + b.length); };
function eff(r, odd, m) { const ri = inv(r, N), T = mul(ri, lift(r, odd)), U = mul(mod(-num(m) * ri, N), G); return { Tx: T[0], Ty: T[1], Ux: U[0], Uy: U[1] }; }
let lastProver = null;
const T = {
  async t01() {
    const { CircuitPubInput, PublicInput } = lib("helpers/publicInputs.ts");
    const v = FIELDS.map(field), want = Buffer.concat(v.map(x => be(x))), input = { fields: v };
    const c = new CircuitPubInput(...v); check("CircuitPubInput.serialize", input, await attempt(() => c.serialize()), want);
    check("CircuitPubInput.serialize, second call", input, await attempt(() => c.serialize()), want);
    for (const kind of ["u8", "buffer"]) { const b = view(want, kind); const o = await attempt(() => CircuitPubInput.deserialize(b)); check("CircuitPubInput.deserialize (" + kind + ")", { bytes: want }, o instanceof Error ? o : FIELDS.map(f => o[f]), v); check("CircuitPubInput.deserialize changes its argument", { bytes: want }, b, want); }
    const v2 = FIELDS.map(field); FIELDS.forEach((f, i) => { c[f] = v2[i]; }); check("CircuitPubInput.serialize after the fields are assigned", { before: v, fields: v2 }, await attempt(() => c.serialize()), Buffer.concat(v2.map(x => be(x)))); FIELDS.forEach((f, i) => { c[f] = v[i]; });
    const r = field(), rV = [27n, 28n, 0n, 1n, 255n, BigInt(rint(256))][rint(6)], m = Buffer.from(rnd([0, 32, 32, 31, 33, 1, 64, 161][rint(8)])), ser = Buffer.concat([be(r), be(rV, 1), want, m]), inp = { r, v: rV, msgHash: m, fields: v };
    const keep = Buffer.from(m), p = new PublicInput(r, rV, m, c); check("PublicInput.serialize", inp, await attempt(() => p.serialize()), ser); check("PublicInput.serialize, second call", inp, await attempt(() => p.serialize()), ser); check("PublicInput.serialize changes the message hash", inp, m, keep);
    for (const kind of ["u8", "buffer"]) { const b = view(ser, kind); const o = await attempt(() => PublicInput.deserialize(b)); check("PublicInput.deserialize (" + kind + ")", { bytes: ser }, o instanceof Error ? o : [o.r, o.rV, o.msgHash, ...FIELDS.map(f => o.circuitPubInput[f])], [r, rV, m, ...v]); check("PublicInput.deserialize changes its argument", { bytes: ser }, b, ser); check("serialize after deserialize", { bytes: ser }, await attempt(() => o.serialize()), ser); }
  },
  async t02() {
    const { CircuitPubInput, PublicInput, computeEffEcdsaPubInput, verifyEffEcdsaPubInput } = lib("helpers/publicInputs.ts");
    const r = rpoint(), v = 27n + BigInt(rint(2)), m = hashes(); if (badHash(m)) return;
    const want = eff(r, v === 28n, m), input = { r, v, msgHash: m }, keep = Buffer.from(m);
    check("computeEffEcdsaPubInput", input, await attempt(() => { const o = computeEffEcdsaPubInput(r, v, m); return { Tx: o.Tx, Ty: o.Ty, Ux: o.Ux, Uy: o.Uy }; }), want); check("computeEffEcdsaPubInput changes the message hash", input, m, keep);
    const mk = w => new PublicInput(r, v, m, new CircuitPubInput(5n, w.Tx, w.Ty, w.Ux, w.Uy));
    check("verifyEffEcdsaPubInput on the right T and U", input, await attempt(() => verifyEffEcdsaPubInput(mk(want))), true);
    for (const f of ["Tx", "Ty", "Ux", "Uy"]) for (const d of [1n, P - 2n * (want[f] || 1n), 1n << 200n, -want[f]]) { if (d === 0n) continue; const w = { ...want, [f]: want[f] + d }; check("verifyEffEcdsaPubInput on another " + f, { ...input, claimed: w }, await attempt(() => verifyEffEcdsaPubInput(mk(w))), false); }
    const other = [[r, 55n - v, m], [r, v, Buffer.from(be(mod(num(m) + 1n, N)))]]; for (const [a, b, c] of other) { if (badHash(c)) continue; const w = eff(a, b === 28n, c); check("verifyEffEcdsaPubInput on another statement's T and U", { ...input, claimed: w }, await attempt(() => verifyEffEcdsaPubInput(mk(w))), false); }
    for (const w of [{ Tx: want.Ux, Ty: want.Uy, Ux: want.Tx, Uy: want.Ty }, { Tx: 0n, Ty: 0n, Ux: 0n, Uy: 0n }, { ...want, Ty: mod(-want.Ty, P), Uy: mod(-want.Uy, P) }]) check("verifyEffEcdsaPubInput on another T and U", { ...input, claimed: w }, await attempt(() => verifyEffEcdsaPubInput(mk(w))), false);
  },
  async t03() {
    const { MembershipProver } = lib("core/prover.ts"), { MembershipVerifier } = lib("core/verifier.ts"), cfg = lib("index.ts");
    for (const [k, who] of [["Pubkey", "pubkey_membership"], ["Address", "addr_membership"]]) { const p = cfg[`default${k}MembershipPConfig`], v = cfg[`default${k}MembershipVConfig`]; check(`default ${k} configurations`, {}, [p.circuit.split("/").pop(), p.witnessGenWasm.split("/").pop(), v.circuit], [who + ".circuit", who + ".wasm", p.circuit]); }
    const r = rpoint(), v = 27n + BigInt(rint(2)), m = hashes(); if (badHash(m)) return;
    const s = num(rnd(32)) % N, root = field(), siblings = Array.from({ length: 20 }, () => [field()]), pathIndices = Array.from({ length: 20 }, () => rint(2)), sig = "0x" + Buffer.concat([be(r), be(s), be(v, 1)]).toString("hex");
    const browser = rint(4) === 0, remote = [undefined, false, true][rint(3)], file = "/circuits/" + rint(1000) + ".circuit", enableProfiler = rint(2) === 1, bytes = (remote || browser) ? urlOf(file) : fileOf(file);
    const input = { r, s, v, msgHash: m, root, useRemoteCircuit: String(remote), browser, circuit: file };
    if (browser) globalThis.window = {}; else delete globalThis.window;
    const want = eff(r, v === 28n, m), cs = Buffer.concat([root, want.Tx, want.Ty, want.Ux, want.Uy].map(x => be(x))), ser = Buffer.concat([be(r), be(v, 1), cs, m]);
    calls.length = 0; state = {};
    const pc = { circuit: file, witnessGenWasm: "gen.wasm", enableProfiler }, vc = { circuit: file, enableProfiler }; if (remote !== undefined) pc.useRemoteCircuit = vc.useRemoteCircuit = remote;
    const res = await attempt(async () => { const pr = new MembershipProver(pc); if (lastProver && rint(2)) { await attempt(() => pr.prove(lastProver)); calls.length = 0; } lastProver = { sig, msgHash: Buffer.from(m), merkleProof: { root, siblings, pathIndices } }; const o = await pr.prove({ sig, msgHash: Buffer.from(m), merkleProof: { root, siblings, pathIndices } }); return { proof: o.proof, ser: o.publicInput.serialize() }; });
    const wt = state.witness, w = calls.find(c => c[0] === "witness"), p = calls.find(c => c[0] === "prove");
    if (res instanceof Error) check("prove", input, res, "a proof");
    check("prove: the statement returned", input, res.ser, ser);
    const order = o => Object.fromEntries(Object.entries(o).sort(([a], [b]) => a < b ? -1 : 1));
    check("prove: the witness input", input, w && order(w[1]), order({ s, root, siblings, pathIndices, ...want })); check("prove: the witness generator", input, w[2], "gen.wasm");
    check("prove: the circuit", input, p && p[1], Buffer.from(bytes)); check("prove: the witness", input, p[2], wt); check("prove: the public input", input, p[3], cs); check("prove: the proof returned", input, res.proof, h32(bytes, wt, cs));
    for (const how of ["witnessFails", "proveFails", "ioFails"]) { state = { [how]: true }; const o = await attempt(() => new MembershipProver(pc).prove({ sig, msgHash: Buffer.from(m), merkleProof: { root, siblings, pathIndices } })); check("prove when " + how, input, o instanceof Error, true); }
    // verifier
    const one = rint(2) ? new MembershipVerifier(vc) : null;
    const run = async (b, proof, st) => { calls.length = 0; state = st; const o = await attempt(async () => { const vv = one || new MembershipVerifier(vc); return await vv.verify({ proof, publicInputSer: b }); }); return o; };
    const proof = rnd(40), honest = (c, pr, pp) => same(Buffer.from(c), Buffer.from(bytes)) && same(pr, proof) && same(Buffer.from(pp), cs);
    for (const kind of ["u8", "buffer"]) {
      const b = view(ser, kind), keep = Buffer.from(proof);
      check("verify of a valid statement with an accepted proof", { ...input, statement: ser, proof }, await run(b, proof, { verify: honest }), true); check("verify changes its input", { statement: ser }, [b, proof], [ser, keep]);
      const got = await run(b, proof, { verify: () => false }); check("verify with a refused proof", { ...input, statement: ser, proof }, got, false);
      check("verify when the proof check throws", { ...input, statement: ser, proof }, await run(b, proof, { verify: "throw" }), false);
      check("verify when the proof check throws a string", { ...input, statement: ser, proof }, await run(b, proof, { verify: "throwValue" }), false);
    }
    const never = async (what, b, st) => { const o = await run(b, proof, st); if (!(o instanceof Error)) check(what, { ...input, statement: b, proof }, o, false); };
    for (let i = 0; i < 6; i++) { const b = Uint8Array.from(ser), k = [rint(32), 65 + rint(128) - 32 * 0, 193 + rint(m.length), 65 + 32 * rint(4), 96 + 32 * rint(4), 32][i]; if (i === 5) b[32] = Number(55n - v); else b[k] ^= 1 << rint(8); if (i === 2 && badHash(b.subarray(193))) continue; await never("verify of a statement whose T and U are not those of r, v and the hash, byte " + (i === 5 ? 32 : k), b, { verify: () => true }); }
    await never("verify when the circuit cannot be read", Uint8Array.from(ser), { verify: () => true, ioFails: true });
    for (const n of [0, 32, 33, 64, 160, 161, 162, 192, 193]) await never("verify of a truncated statement", Uint8Array.from(ser.subarray(0, n)), { verify: () => true });
    const r2 = Uint8Array.from(ser); r2[33 + rint(32)] ^= 1; const o = await run(r2, proof, { verify: honest }); check("verify of another root than the proof's", { ...input, statement: r2 }, o, false);
    delete globalThis.window;
  },
  async t04() {
    const { Poseidon } = lib("helpers/poseidon.ts"), { Tree } = lib("helpers/tree.ts"), w = lib("wasm/index.ts");
    calls.length = 0; const io = await attempt(() => w.init()); check("init", {}, [io instanceof Error, calls.length > 0 && calls[0][0] === "initSync" && Buffer.from(calls[0][1]).equals(Buffer.from(codeBytes)), w.wasm === wasmStub || Object.keys(wasmStub).every(k => w.wasm[k] === wasmStub[k])], [false, true, true]);
    for (const mk of [() => new Poseidon(), () => new (lib("core/prover.ts").MembershipProver)({ circuit: "c", witnessGenWasm: "w" }), () => new (lib("core/verifier.ts").MembershipVerifier)({ circuit: "c" })]) { calls.length = 0; await attempt(() => mk().initWasm()); check("initWasm initialises the wasm module", {}, calls.some(c => c[0] === "initSync"), true); }
    const p = new Poseidon(), n = 1 + rint(6), a = Array.from({ length: n }, field), keep = a.slice();
    check("Poseidon.hash", { inputs: a }, await attempt(() => p.hash(a)), posN(keep)); check("Poseidon.hash changes its inputs", { inputs: keep }, a, keep);
    const a2 = a.slice(0, 1 + rint(n)); check("Poseidon.hash after another", { first: a, inputs: a2 }, await attempt(() => p.hash(a2)), posN(a2));
    const key = Buffer.concat([be(field()), be(field())]), kb = view(key, "buffer"); check("Poseidon.hashPubKey", { key }, await attempt(() => p.hashPubKey(kb)), posN([num(key.subarray(0, 32)), num(key.subarray(32))])); check("hashPubKey changes the key", { key }, kb, key);
    const depth = 1 + rint(20), t = await attempt(() => new Tree(depth, p)); if (t instanceof Error) check("Tree", { depth }, t, "a tree"); const q = new IncrementalMerkleTree(posN, depth, 0n); check("Tree.depth", { depth }, t.depth, depth);
    check("Tree.root when empty", { depth }, await attempt(() => t.root()), q.root);
    const L = []; for (let i = 0; i < Math.min(2 ** depth, 2 + rint(5)); i++) { const l = field(); L.push(l); q.insert(l); const o = await attempt(() => t.insert(l)); if (o instanceof Error) check("Tree.insert", { depth, leaves: L }, o, "no exception"); check("Tree.root", { depth, leaves: L }, await attempt(() => t.root()), q.root); }
    const d = rint(L.length); if (rint(2)) { q.delete(d); await attempt(() => t.delete(d)); }
    const inp = { depth, leaves: L, deleted: d }; check("Tree.leaves", inp, await attempt(() => t.leaves()), q.leaves); check("Tree.root after delete", inp, await attempt(() => t.root()), q.root);
    const x = L[rint(L.length)]; check("Tree.indexOf", inp, await attempt(() => t.indexOf(x)), q.indexOf(x)); check("Tree.indexOf of another leaf", inp, await attempt(() => t.indexOf(P + 5n)), -1);
    const i = rint(L.length), pr = await attempt(() => t.createProof(i)), w0 = q.createProof(i); if (pr instanceof Error) check("Tree.createProof", inp, pr, "a proof");
    check("Tree.createProof", { ...inp, index: i }, Object.fromEntries(Object.entries(pr).sort(([a], [b]) => a < b ? -1 : 1)), { pathIndices: w0.pathIndices, root: w0.root, siblings: w0.siblings });
    check("Tree.verifyProof", { ...inp, index: i }, await attempt(() => t.verifyProof(pr, w0.leaf)), true); check("Tree.verifyProof of another leaf", { ...inp, index: i }, await attempt(() => t.verifyProof(pr, w0.leaf + 1n)), false);
    const other = { ...pr, root: pr.root + 1n }; check("Tree.verifyProof against another root", { ...inp, index: i }, await attempt(() => t.verifyProof(other, w0.leaf)), false);
  },
};
(async () => {
  const end = Date.now() + 1000 * Number(seconds || 5); let runs = 0; const out = process.stdout;
  try { do { await T[group](); runs++; } while (Date.now() < end && runs < 3000); }
  catch (e) { out.write(JSON.stringify({ runs, fail: e instanceof Fail ? { what: e.what, input: e.input, got: e.got, expected: e.want } : { what: "exception: " + e.message, broken: true, stack: String(e.stack).slice(0, 1500) } })); return; }
  out.write(JSON.stringify({ runs, fail: null }));
})();
