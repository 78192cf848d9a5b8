"""What the TypeScript code calls: the language's own objects (strings, arrays, byte arrays, BigInt) executed by their definition, and the
packages it depends on (elliptic, bn.js, snarkjs, @ethereumjs/util, @zk-kit/incremental-merkle-tree, fs, the wasm module) by contract."""
from .js import *

N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
PF = 2**256 - 2**32 - 977

# ---------- polynomials in atoms: {sorted tuple of atoms: coefficient}
def padd(a, b):
    o = dict(a)
    for k, v in b.items(): o[k] = o.get(k, 0) + v
    return {k: v for k, v in o.items() if v}
def pmul(a, b):
    o = {}
    for k, v in a.items():
        for l, w in b.items():
            m = list(k)
            for x in l:
                y = ("inv", x) if x[0] != "inv" else x[1]
                if y in m: m.remove(y)
                else: m.append(x)
            m = tuple(sorted(m, key=str)); o[m] = o.get(m, 0) + v * w
    return {k: v for k, v in o.items() if v}
def pmod(a): return {k: v % N for k, v in a.items() if v % N}
def pkey(a): return tuple(sorted(((k, v) for k, v in a.items()), key=str))

class BN:
    """bn.js number. mode: exact (the integer is the polynomial), red (the integer is its residue in 0..N-1), cong (only congruent mod N).
    big: the Big it equals, when known (no inverses involved)"""
    def __init__(self, p, mode="exact", nonneg=True, big=None): self.p, self.mode, self.nonneg, self.big = p, mode, nonneg, big
    def key(self): return ("bn", pkey(pmod(self.p)) if self.mode != "exact" else pkey(self.p), self.mode)
def bnof(b):
    """of a Big"""
    if isinstance(b.v, int): return BN({(): b.v} if b.v else {}, "exact", b.v >= 0, b)
    return BN({(("int", key(b)),): 1}, "exact", True, b)
class Pt:
    """sum of scalar * base point; scalars are polynomials mod N"""
    def __init__(self, c): self.c = {k: pmod(v) for k, v in c.items() if pmod(v)}
    def key(self): return ("pt", tuple(sorted(((k, pkey(v)) for k, v in self.c.items()), key=str)))
    def neg(self): return Pt({k: {m: -x for m, x in v.items()} for k, v in self.c.items()})
class Key_:
    def __init__(self, p): self.pt = p
class Enc:
    def __init__(self, p, how): self.pt, self.how = p, how
G = Pt({("G",): {(): 1}})
PT_NAMES = {}
def coord(pt, which):
    k = pt.key()
    if which == "x": k = min((k, pt.neg().key()), key=str)
    n = PT_NAMES.setdefault((k, which), "%s%d" % (which, len(PT_NAMES)))
    return Big(tuple("%s[%d]" % (n, i) for i in range(32)))
def atoms(name, n=32): return [("%s[%d]" % (name, i)) for i in range(n)]       # big-endian byte names
def bigbe(bs): return Big(tuple(reversed(bs)))

def isbytes(v): return isinstance(v, Bytes)
def hexparse(I, s):
    """Big from a string of hexadecimal digits (concrete, nibbles, HexNat)"""
    if isinstance(s, HexNat) and s.pre.strip("0") == "": return s.b
    c = chars(s)
    if c is None: raise Unsupported("hexadecimal of %r" % (s,))
    if not c: return None
    dig = []; i = len(c)
    while i > 0:
        lo, hi = c[i - 1], c[i - 2] if i > 1 else "0"
        d = byteof(hi, lo)
        if d is None: return None
        dig.append(d); i -= 2
    return Big(tuple(dig))
def byteof(hi, lo):
    if isinstance(hi, str) and isinstance(lo, str):
        try: return int(hi + lo, 16) if (hi + lo).isalnum() else None
        except ValueError: return None
    if isinstance(hi, tuple) and isinstance(lo, tuple) and hi[1] == lo[1] and (hi[2], lo[2]) == (0, 1): return hi[1]
    raise Unsupported("half a byte")
def nibbles(items):
    out = []
    for x in items:
        if isinstance(x, int): out += list("%02x" % x)
        elif isinstance(x, Tail): raise Unsupported("hexadecimal of bytes of unknown number")
        else: out += [("n", x, 0), ("n", x, 1)]
    return mkstr(out)

def tobig(I, v):
    if isinstance(v, Big): return v
    if isinstance(v, bool): return Big(int(v))
    if isnum(v):
        if v != int(v): I.throw("RangeError")
        return Big(int(v))
    if isinstance(v, NumA): return Big((v.a,))
    if isinstance(v, Dec): return v.b
    if isinstance(v, HexNat):
        if v.pre.lower().startswith("0x"): return hexparse(I, HexNat(v.b, v.pre[2:]))
        raise Unsupported("BigInt of hexadecimal without 0x")
    if isinstance(v, str):
        t = v.strip()
        try:
            if t == "": return Big(0)
            if t[:2].lower() == "0x":
                b = hexparse(I, t[2:])
                if b is None: I.throw("SyntaxError")
                return b
            return Big(int(t, 0 if t[:2].lower() in ("0b", "0o") else 10))
        except ValueError: I.throw("SyntaxError")
    if isinstance(v, SStr):
        if v.p[:1] == ["0"] and v.p[1:2] in (["x"], ["X"]):
            b = hexparse(I, SStr(v.p[2:]))
            if b is None: I.throw("SyntaxError")
            return b
        raise Unsupported("BigInt of a decimal of symbolic bytes")
    if isinstance(v, BN) and v.big is not None: return v.big
    if isbytes(v): raise Unsupported("BigInt of bytes")
    if v is UNDEF or v is NULL: I.throw("Cannot convert to a BigInt")
    if isinstance(v, Opq): return Big(Opq("BigInt", v))
    raise Unsupported("BigInt of %s" % type(v).__name__)

def frombytes(I, v, kind, a=()):
    """new Uint8Array(v) / Buffer.from(v): a copy"""
    if isbytes(v): return Bytes(v.items(), kind)
    if isinstance(v, Arr): return Bytes([x if isinstance(x, Tail) and i == len(v.a) - 1 else I.tobyte(x) for i, x in enumerate(v.a)], kind)
    if isinstance(v, Obj) and "length" in v.p: return Bytes([I.tobyte(v.p[str(i)]) for i in range(v.p["length"])], kind)
    raise Unsupported("bytes from %s" % type(v).__name__)
def zeros(I, n, kind):
    if isinstance(n, Lin): return Bytes([0] * n.c + [Tail("%s@zero%d" % (x, i)) for i, x in enumerate(n.ls)], kind) if len(n.ls) <= 1 else bad("array of several lengths")
    if isnum(n): return Bytes([0] * int(n), kind)
    raise Unsupported("array of length %r" % (n,))
def bad(m): raise Unsupported(m)
def strbytes(I, s, enc):
    if enc is UNDEF: enc = "utf8"
    if enc == "hex":
        if isinstance(s, HexNat):
            # odd number of digits possible: not decided
            raise Unsupported("hex string of unknown length decoded to bytes")
        c = chars(s)
        if c is None: raise Unsupported("hex of %r" % (s,))
        out = []
        for i in range(0, len(c) - 1, 2):
            d = byteof(c[i], c[i + 1])
            if d is None: break
            out.append(d)
        return out
    if enc in ("utf8", "utf-8", "ascii", "latin1", "binary") and isinstance(s, str) and s.isascii(): return list(s.encode())
    raise Unsupported("Buffer.from(%r, %r)" % (s, enc))

def setbytes(I, dst, src, off):
    """TypedArray.set: copies src into dst at off, within dst; symbolic tail only onto a tail of the same length"""
    items = list(src.items()) if isbytes(src) else [I.tobyte(x) for x in I.iter(src)]
    t = items.pop() if items and isinstance(items[-1], Tail) else None
    if isinstance(off, Lin): raise Unsupported("offset of symbolic length")
    off = 0 if off is UNDEF else int(off)
    room = dst.fixed() - off; dt = dst.tail()
    base = lambda x: x.name.split("@")[0]
    if off < 0 or (not dt and (len(items) > room or t)): 
        if t and not dt and len(items) <= room: raise Unsupported("bytes of unknown number into a fixed array")
        I.throw("RangeError: offset is out of bounds")
    if len(items) > room or t and len(items) != room or t and base(t) != base(dt): raise Unsupported("copy across a tail of symbolic length")
    for i, x in enumerate(items): dst.s[dst.lo + off + i] = x
    if t: dst.s[dst.hi - 1] = t
def slc(v, a, b):
    """indices of slice(a, b) on v with a possible tail"""
    n = v.fixed(); t = v.tail()
    def ix(x, d):
        if x is UNDEF: return d
        if isinstance(x, Lin):
            if t and x.ls == (t.name.split("@")[0],) and x.c == n: return "end"
            raise Unsupported("slice at a symbolic position")
        x = int(x)
        if x < 0:
            if t: raise Unsupported("slice from the end of symbolic length")
            return max(n + x, 0)
        if x > n:
            if t: raise Unsupported("slice inside the part of symbolic length")
            return n
        return x
    lo, hi = ix(a, 0), ix(b, "end" if t else n)
    full = n + (1 if t else 0)
    # b == n with a tail is exact (n bytes precede the tail)
    lo = full if lo == "end" else lo; hi = full if hi == "end" else hi
    return v.lo + lo, v.lo + max(lo, hi)

class Ext:
    """contracts; window: whether a browser global exists; sig: what fromRpcSig returns"""
    def __init__(self, window=False, remote=None, sig=None): self.window, self.sig = window, sig
    # ----- globals
    def globals(self, I):
        nat = lambda f, name="native", **p: Native(lambda I, t, a: f(I, *a), name, p.pop("props", None), p.pop("new", None))
        rec = lambda n: Native(lambda I, t, a: UNDEF, n)
        g = {}
        big = Native(lambda I, t, a: tobig(I, a[0] if a else UNDEF), "BigInt")
        big.p = {"asUintN": nat(lambda I, n, b: b if b.dig() is not None and n % 8 == 0 and len(b.dig()) * 8 <= n else I.bigop("%", b, Big(1 << n)))}
        g["BigInt"] = big
        def number(I, v=0, *r):
            if isinstance(v, Big):
                if isinstance(v.v, int): return v.v
                d = v.dig()
                if d is not None and len(d) == 1: return NumA(d[0])
            if isnum(v) or isinstance(v, (NumA, Lin)): return v
            if isinstance(v, bool): return int(v)
            if isinstance(v, str):
                try: return int(v, 0) if v.strip() else 0
                except ValueError:
                    try: return float(v)
                    except ValueError: return float("nan")
            if isinstance(v, SStr) and v.p[:2] == ["0", "x"]: return number(I, hexparse(I, SStr(v.p[2:])))
            if isinstance(v, SBool): return int(I.truth(v))
            raise Unsupported("Number(%s)" % type(v).__name__)
        def parse_int(I, v, base=10, *r):
            if isinstance(v, str):
                try: return int(v, base)
                except ValueError: return float("nan")
            if base == 16 and isinstance(v, SStr): return number(I, hexparse(I, v))
            raise Unsupported("parseInt")
        g["parseInt"] = nat(parse_int)
        g["Number"] = Native(lambda I, t, a: number(I, *a), "Number", {"isInteger": nat(lambda I, v: isinstance(v, NumA) or isnum(v) and v == int(v)), "MAX_SAFE_INTEGER": 2**53 - 1, "parseInt": g["parseInt"], "isSafeInteger": nat(lambda I, v: isinstance(v, NumA) or isnum(v) and v == int(v) and abs(v) < 2**53)})
        g["String"] = Native(lambda I, t, a: I.tostr(a[0]) if a else "", "String", {"fromCharCode": nat(lambda I, *c: "".join(chr(x) for x in c))})
        g["Boolean"] = nat(lambda I, v=UNDEF: v if isinstance(v, SBool) else I.truth(v), "Boolean")
        def cat(I, l, total=UNDEF):
            out = []
            for x in I.iter(l):
                if out and isinstance(out[-1], Tail): raise Unsupported("concatenation after a part of symbolic length")
                out += x.items()
            if total is not UNDEF and total != len(out) and not isinstance(total, Lin): raise Unsupported("Buffer.concat with a total length")
            return Bytes(out, "Buffer")
        def buf_from(I, v, enc=UNDEF, *r):
            if isinstance(v, (str, SStr, HexNat)): return Bytes(strbytes(I, v, enc), "Buffer")
            if isbytes(v) and v.kind == "ArrayBuffer": return Bytes(v.s, "Buffer", v.lo, v.hi)
            return frombytes(I, v, "Buffer")
        g["Buffer"] = Native(lambda I, t, a: buf_from(I, *a), "Buffer", {"from": nat(buf_from), "alloc": nat(lambda I, n, f=0, *r: fill(I, zeros(I, n, "Buffer"), f)), "allocUnsafe": nat(lambda I, n: zeros(I, n, "Buffer")), "concat": nat(cat),
            "isBuffer": nat(lambda I, v: isbytes(v) and v.kind == "Buffer"), "compare": nat(lambda I, a, b: Native and bad("Buffer.compare")), "byteLength": nat(lambda I, v: v.length() if isbytes(v) else len(v))})
        def fill(I, b, x):
            if isinstance(x, str) or b.tail() and x != 0: raise Unsupported("fill")
            for i in range(b.lo, b.lo + b.fixed()): b.s[i] = I.tobyte(x)
            return b
        def new_u8(I, a):
            v = a[0] if a else 0
            if isbytes(v) and v.kind == "ArrayBuffer":
                lo, hi = v.lo, v.hi
                if len(a) > 1 and a[1] is not UNDEF: lo += a[1]
                if len(a) > 2 and a[2] is not UNDEF: hi = lo + a[2]
                return Bytes(v.s, "Uint8Array", lo, hi)
            if isnum(v) or isinstance(v, Lin): return zeros(I, v, "Uint8Array")
            return frombytes(I, v, "Uint8Array")
        def arr_from(I, v, f=UNDEF, *r):
            if isinstance(v, Obj) and "length" in v.p and isnum(v.p["length"]): l = [v.p.get(str(i), UNDEF) for i in range(int(v.p["length"]))]
            else: l = I.iter(v)
            return Arr([I.call(f, UNDEF, [x, i]) for i, x in enumerate(l)] if f is not UNDEF else l)
        g["Uint8Array"] = Native(lambda I, t, a: I.throw("requires new"), "Uint8Array", {"from": nat(lambda I, v, f=UNDEF: frombytes(I, v if isbytes(v) and f is UNDEF else arr_from(I, v, f), "Uint8Array")), "of": nat(lambda I, *a: frombytes(I, Arr(a), "Uint8Array")), "BYTES_PER_ELEMENT": 1}, new_u8)
        g["ArrayBuffer"] = Native(lambda I, t, a: I.throw("requires new"), "ArrayBuffer", {}, lambda I, a: zeros(I, a[0], "ArrayBuffer"))
        mkarr = lambda I, a: Arr([UNDEF] * int(a[0])) if len(a) == 1 and isnum(a[0]) else Arr(a)
        g["Array"] = Native(lambda I, t, a: mkarr(I, a), "Array", {"from": nat(arr_from), "isArray": nat(lambda I, v: isinstance(v, Arr)), "of": nat(lambda I, *a: Arr(a))}, mkarr)
        def keys(I, o): return Arr(list(o.p))
        def assign(I, t, *src):
            for s in src:
                if isinstance(s, Obj): t.p.update(s.p)
            return t
        g["Object"] = Native(lambda I, t, a: a[0], "Object", {"keys": nat(keys), "values": nat(lambda I, o: Arr(o.p.values())), "entries": nat(lambda I, o: Arr([Arr([k, v]) for k, v in o.p.items()])), "assign": nat(assign), "freeze": nat(lambda I, o: o),
            "fromEntries": nat(lambda I, l: Obj({I.iter(x)[0]: I.iter(x)[1] for x in I.iter(l)})), "defineProperty": nat(lambda I, o, n, d: (I.set(o, n, d.p.get("value", UNDEF)), o)[1])}, lambda I, a: Obj())
        g["Math"] = Obj({"floor": nat(lambda I, v: int(v // 1)), "ceil": nat(lambda I, v: -int(-v // 1)), "max": nat(lambda I, *v: max(v)), "min": nat(lambda I, *v: min(v)), "log2": nat(lambda I, v: __import__("math").log2(v)), "pow": nat(lambda I, a, b: a ** b)})
        g["console"] = Obj({n: rec(n) for n in ("log", "warn", "error", "info", "debug", "time", "timeEnd", "timeLog")})
        def new_err(I, a): return Obj({"message": a[0] if a else "", "name": "Error"})
        for n in ("Error", "TypeError", "RangeError", "SyntaxError"): g[n] = Native(lambda I, t, a: new_err(I, a), n, {}, new_err)
        g["JSON"] = Obj({"stringify": nat(lambda I, v: Opq("JSON", Opq(key(v))))})
        def pall(I, l): return Prom(Arr([I.await_(x) for x in I.iter(l)]))
        g["Promise"] = Native(lambda I, t, a: bad("Promise()"), "Promise", {"resolve": nat(lambda I, v=UNDEF: v if isinstance(v, Prom) else Prom(v)), "reject": nat(lambda I, v=UNDEF: Prom(exc=JsThrow(v))), "all": nat(pall)}, lambda I, a: bad("new Promise"))
        g["fetch"] = nat(lambda I, url, *r: self.fetch(I, url))
        g["performance"] = Obj({"now": nat(lambda I: 0)}); g["Date"] = Native(lambda I, t, a: 0, "Date", {"now": nat(lambda I: 0)})
        g["process"] = Obj({"env": Obj()})
        g["isNaN"] = nat(lambda I, v: isinstance(v, float) and v != v)
        def new_map(I, a):
            o = JMap()
            for x in (I.iter(a[0]) if a and a[0] not in (UNDEF, NULL) else []): y = I.iter(x); o.l.append([y[0], y[1]])
            return o
        g["Map"] = Native(lambda I, t, a: I.throw("requires new"), "Map", {}, new_map); g["Set"] = Native(lambda I, t, a: I.throw("requires new"), "Set", {}, lambda I, a: bad("Set"))
        g["WeakMap"] = Native(lambda I, t, a: I.throw("requires new"), "WeakMap", {}, new_map)
        if self.window: g["window"] = Obj()
        g["globalThis"] = Obj({k: v for k, v in g.items()})
        return g
    def fetch(self, I, url):
        I.calls.append(("fetch", key(url)))
        if I.fork(("fetch fails", key(url))) is True: return Prom(exc=JsThrow(Obj({"message": "fetch failed"})))
        nm = "url:%s" % (url if isinstance(url, str) else key(url),)
        o = Obj({"ok": SBool(("response ok", nm)), "status": Opq("status", nm, kind="num"), "arrayBuffer": Native(lambda I, t, a: Prom(Bytes([Tail(nm)], "ArrayBuffer")))})
        return Prom(o)
    # ----- packages
    def module(self, I, spec):
        nat = lambda f: Native(lambda I, t, a: f(I, *a))
        if spec == "elliptic":
            def new_ec(I, a):
                if a[0] != "secp256k1": raise Unsupported("curve %r" % (a[0],))
                return EC()
            ec = Native(lambda I, t, a: new_ec(I, a), "ec", {}, new_ec); o = Obj({"ec": ec}); o.p["default"] = o; return o
        if spec == "bn.js":
            n = Native(lambda I, t, a: new_bn(I, a), "BN", {}, new_bn); n.p = {"isBN": nat(lambda I, v: isinstance(v, BN)), "BN": n, "default": n}; return n
        if spec == "snarkjs":
            def calc(I, inp, wasm, out):
                if not isinstance(out, Obj) or out.p.get("type") != "mem": raise Unsupported("witness written elsewhere than to memory")
                w = Obj(dict(inp.p)) if isinstance(inp, Obj) else bad("witness input %r" % (inp,))
                I.calls.append(("witness", w, wasm))
                if I.fork(("witness calculation fails",)) is True: return Prom(exc=JsThrow(Obj({"message": "witness"})))
                out.p["data"] = Bytes([Tail("witness(%s)" % (len([c for c in I.calls if c[0] == "witness"]) - 1))], "Uint8Array"); return Prom(UNDEF)
            o = Obj({"wtns": Obj({"calculate": nat(calc)})}); o.p["default"] = o; return o
        if spec == "@ethereumjs/util":
            def frs(I, s):
                I.calls.append(("fromRpcSig", key(s)))
                if self.sig is None: raise Unsupported("fromRpcSig")
                sg = self.sig(s) if callable(self.sig) else self.sig
                return Obj({k: (Bytes(v.items(), "Buffer") if isbytes(v) else v) for k, v in sg.items()})
            return Obj({"fromRpcSig": nat(frs)})
        if spec in ("fs", "node:fs", "fs/promises", "node:fs/promises"):
            def rd(I, p, *r):
                I.calls.append(("readFile", key(p)))
                if r and r[0] is not UNDEF: raise Unsupported("readFile with options")
                if I.fork(("file cannot be read", key(p))) is True: I.throw("ENOENT")
                return Bytes([Tail("file:%s" % (p if isinstance(p, str) else key(p),))], "Buffer")
            def rda(I, *a):
                try: return Prom(rd(I, *a))
                except JsThrow as x: return Prom(exc=x)
            pr = Obj({"readFile": nat(rda)})
            if spec.endswith("promises"): o = pr
            else: o = Obj({"readFileSync": nat(rd), "promises": pr, "existsSync": nat(lambda I, p: not I.fork(("file cannot be read", key(p))))})
            o.p["default"] = o; return o
        if spec == "@zk-kit/incremental-merkle-tree": return Obj({"IncrementalMerkleTree": Native(lambda I, t, a: I.throw("requires new"), "IncrementalMerkleTree", {}, new_imt)})
        if spec in ("@src/wasm", "@src/wasm/index") and not getattr(self, "real_wasm", False):
            if not hasattr(I, "wasmmod"): I.wasmmod = Obj({"init": nat(lambda I: (I.calls.append(("init",)), Prom(UNDEF))[1]), "wasm": wasm_obj()})
            return I.wasmmod
        if spec == "@src/wasm/wasm":
            if not hasattr(I, "wasmjs"): I.wasmjs = wasm_obj()
            return I.wasmjs
        if spec == "@src/wasm/wasmBytes": return Obj({"wasmBytes": Bytes([Tail("wasm code")], "Uint8Array")})
        if spec == "crypto" or spec == "node:crypto" or spec == "path": raise Unsupported("module " + spec)
        return None
    def instanceof(self, I, a, b):
        if isinstance(b, Native) and b.name in ("Uint8Array", "Buffer", "Array", "BN", "Error", "Map"):
            if b.name == "Uint8Array": return isbytes(a) and a.kind != "ArrayBuffer"
            if b.name == "Buffer": return isbytes(a) and a.kind == "Buffer"
            if b.name == "Array": return isinstance(a, Arr)
            if b.name == "BN": return isinstance(a, BN)
            if b.name == "Error": return isinstance(a, Obj) and a.p.get("name") == "Error"
        if isinstance(b, Cls) and isinstance(a, Obj):
            c = a.cls
            while c is not None:
                if c is b: return True
                c = c.base
            return False
        if isinstance(b, Cls): return False
        return None
    # ----- methods
    def method(self, I, o, n):
        f = None
        if isinstance(o, (str, SStr, HexNat, Dec)): f = STR.get(n)
        elif isinstance(o, Big): f = BIG.get(n)
        elif isinstance(o, Bytes):
            if n == "byteOffset": return o.lo
            f = BYT.get(n) or (ARR.get(n) if n in ("join", "every", "some", "forEach", "reduce", "indexOf", "includes", "entries", "values", "keys", "find", "findIndex", "at", "reduceRight") else None)
        elif isinstance(o, Arr): f = ARR.get(n)
        elif isnum(o) or isinstance(o, NumA): f = NUM.get(n)
        elif isinstance(o, bool): f = {"toString": lambda I, o: "true" if o else "false"}.get(n)
        elif isinstance(o, BN): f = BNM.get(n)
        elif isinstance(o, Pt):
            if n in ("x", "y"): return ("red", bnof(coord(o, n))) and bad("raw coordinate")
            f = PTM.get(n)
        elif isinstance(o, EC):
            if n in ("n",): return BN({(): N}, "exact")
            if n == "g": return G
            if n == "curve": return Curve()
            f = ECM.get(n)
        elif isinstance(o, Curve):
            if n == "g": return G
            if n == "n": return BN({(): N}, "exact")
            if n == "p": return BN({(): PF}, "exact")
            f = CUM.get(n)
        elif isinstance(o, Key_): f = KEM.get(n)
        elif isinstance(o, IMT):
            if n in ("root", "leaves", "depth", "arity", "zeroes"): return o.read(I, n)
            f = IMTM.get(n)
        elif isinstance(o, JMap):
            if n == "size": return len(o.l)
            f = MAP.get(n)
        elif isinstance(o, Prom): f = PRM.get(n)
        elif isinstance(o, U_): f = None
        if f is None:
            if isinstance(o, (str, SStr, Big, Bytes, Arr, Prom)) and n not in dir(str): 
                if n in ("data", "then") or isinstance(o, Prom): return UNDEF
            return None
        return Native(lambda I, t, a: f(I, t, *a), n)

# ---------- strings
def s_pad(I, o, n, f=" ", left=True):
    if isinstance(o, HexNat):
        b = o.b.dig()
        if b is None or not left or f != "0" or o.pre: raise Unsupported("padStart")
        if n < 2 * len(b): raise Unsupported("padding shorter than the value may be")
        return nibbles([0] * ((n - 2 * len(b)) // 2) + list(reversed(b))) if n % 2 == 0 else mkstr(["0"] + chars(nibbles([0] * ((n - 1 - 2 * len(b)) // 2) + list(reversed(b)))))
    c = chars(o)
    if c is None: raise Unsupported("padding")
    k = max(0, int(n) - len(c)); p = (f * (k // max(1, len(f)) + 1))[:k] if f else ""
    return mkstr(list(p) + c if left else c + list(p))
def s_idx(c, a, b, sub=False):
    n = len(c); a = 0 if a is UNDEF else int(a); b = n if b is UNDEF else int(b)
    if sub: a, b = max(0, min(a, n)), max(0, min(b, n)); a, b = min(a, b), max(a, b)
    else: a, b = (max(n + x, 0) if x < 0 else min(x, n) for x in (a, b))
    return c[a:b]
def need(o):
    c = chars(o)
    if c is None: raise Unsupported("string of unknown length")
    return c
def s_slice(I, o, a=UNDEF, b=UNDEF):
    if isinstance(o, HexNat) and isnum(a) and 0 < a <= len(o.pre) and b is UNDEF: return HexNat(o.b, o.pre[int(a):])
    return mkstr(s_idx(need(o), a, b))
def s_substr(I, o, a=UNDEF, n=UNDEF):
    c = s_idx(need(o), a, UNDEF); return mkstr(c if n is UNDEF else c[:int(n)])
def s_starts(I, o, p):
    if isinstance(o, HexNat) and o.pre.startswith(p): return True
    c = need(o)
    if len(c) < len(p): return False
    if any(not isinstance(x, str) for x in c[:len(p)]):
        if any(x not in "0123456789abcdef" for x in p): return False if any(isinstance(x, tuple) and y not in "0123456789abcdef" or isinstance(x, str) and x != y for x, y in zip(c, p)) else bad("startsWith")
        raise Unsupported("startsWith")
    return "".join(c[:len(p)]) == p
def s_match(I, o, *a): raise Unsupported("regular expression")
def s_replace(I, o, a, b):
    if isinstance(o, str) and isinstance(a, str) and isinstance(b, str): return o.replace(a, b, 1)
    c = chars(o)
    if isinstance(a, str) and c is not None and c[:len(a)] == list(a): return mkstr(list(b) + c[len(a):])
    raise Unsupported("replace")
STR = {"padStart": lambda I, o, n, f=" ": s_pad(I, o, n, f), "padEnd": lambda I, o, n, f=" ": s_pad(I, o, n, f, False), "slice": s_slice, "substring": lambda I, o, a=UNDEF, b=UNDEF: mkstr(s_idx(need(o), a, b, True)) if not isinstance(o, HexNat) else s_slice(I, o, a, b),
       "substr": s_substr, "toString": lambda I, o: o, "startsWith": s_starts, "toLowerCase": lambda I, o: o.lower() if isinstance(o, str) else o if all(not isinstance(x, str) or x == x.lower() for x in need(o)) else bad("case"), "trim": lambda I, o: o.strip() if isinstance(o, str) else o,
       "concat": lambda I, o, *a: [o := I.add(o, x) for x in a][-1] if a else o, "charAt": lambda I, o, i=0: mkstr(need(o)[int(i):int(i) + 1]), "repeat": lambda I, o, n: Fill(o, n) if isinstance(n, HLen) and isinstance(o, str) and len(o) == 1 else mkstr(need(o) * int(n)), "split": lambda I, o, s=UNDEF: Arr([mkstr([x]) for x in need(o)]) if s == "" else Arr(o.split(s)) if isinstance(o, str) and isinstance(s, str) else bad("split"),
       "replace": s_replace, "match": s_match, "includes": lambda I, o, p: p in o if isinstance(o, str) else bad("includes"), "indexOf": lambda I, o, p: o.find(p) if isinstance(o, str) else bad("indexOf"), "endsWith": lambda I, o, p: o.endswith(p) if isinstance(o, str) else bad("endsWith"),
       "charCodeAt": lambda I, o, i=0: ord(o[int(i)]) if isinstance(o, str) else bad("charCodeAt"), "at": lambda I, o, i: mkstr([need(o)[int(i)]]), "valueOf": lambda I, o: o}
BIG = {"toString": lambda I, o, b=10: I.tostr(o, b), "valueOf": lambda I, o: o}
NUM = {"toString": lambda I, o, b=10: I.tostr(o, b), "valueOf": lambda I, o: o, "toFixed": lambda I, o, n=0: I.tostr(o)}

# ---------- byte arrays
def b_slice(I, o, a=UNDEF, b=UNDEF):
    lo, hi = slc(o, a, b)
    if o.kind == "Buffer": return Bytes(o.s, "Buffer", lo, hi)          # Buffer.slice shares memory
    return Bytes(o.s[lo:hi], o.kind)
def b_sub(I, o, a=UNDEF, b=UNDEF):
    lo, hi = slc(o, a, b); return Bytes(o.s, o.kind, lo, hi)
def b_rev(I, o):
    if o.tail(): raise Unsupported("reverse of bytes of unknown number")
    o.s[o.lo:o.hi] = o.s[o.lo:o.hi][::-1]; return o
def b_str(I, o, enc=UNDEF):
    if enc == "hex" and o.kind == "Buffer": return nibbles(o.items())
    if enc == "hex" and o.kind == "Uint8Array": raise Unsupported("Uint8Array.toString ignores its argument")
    if o.kind == "Buffer": return Opq("text", Opq(key(o)))
    raise Unsupported("Uint8Array.toString")
def b_fill(I, o, x=0, a=UNDEF, b=UNDEF):
    lo, hi = slc(o, a, b)
    for i in range(lo, hi):
        if isinstance(o.s[i], Tail): raise Unsupported("fill")
        o.s[i] = I.tobyte(x)
    return o
def b_map(I, o, f, *r): return Bytes([I.tobyte(I.call(f, UNDEF, [x, i, o])) for i, x in enumerate(I.iter(o))], o.kind)
def b_copy(I, o, dst, at=0, a=UNDEF, b=UNDEF):
    lo, hi = slc(o, a, b); setbytes(I, dst, Bytes(o.s[lo:hi]), at); return hi - lo
def b_eq(I, o, p):
    if not o.tail() and not p.tail() and o.fixed() != p.fixed(): return False
    if key(o) == key(p): return True
    return SBool(("eq",) + tuple(sorted((str(key(o)), str(key(p))))))
def b_readbe(I, o, at=0, n=UNDEF):
    raise Unsupported("Buffer number access")
BYT = {"slice": b_slice, "subarray": b_sub, "reverse": b_rev, "toReversed": lambda I, o: b_rev(I, Bytes(o.items(), "Uint8Array")), "toString": b_str, "set": lambda I, o, s, off=UNDEF: setbytes(I, o, s, off) or UNDEF, "fill": b_fill, "map": b_map, "copy": b_copy, "equals": b_eq,
       "readUInt8": lambda I, o, i=0: I.get(o, i), "writeUInt8": lambda I, o, v, i=0: (I.set(o, i, v), i + 1)[1], "valueOf": lambda I, o: o}

# ---------- maps
class JMap:
    def __init__(self): self.l = []
def m_at(I, o, k):
    for e in o.l:
        if I.truth(I.eq(e[0], k)): return e
    return None
def m_set(I, o, k, v):
    e = m_at(I, o, k)
    if e is None: o.l.append([k, v])
    else: e[1] = v
    return o
def m_del(I, o, k):
    e = m_at(I, o, k)
    if e is not None: o.l.remove(e)
    return e is not None
def m_get(I, o, k):
    e = m_at(I, o, k); return UNDEF if e is None else e[1]
MAP = {"get": m_get, "set": m_set, "has": lambda I, o, k: m_at(I, o, k) is not None, "delete": m_del, "clear": lambda I, o: o.l.clear() or UNDEF}
# ---------- arrays
def a_reduce(I, o, f, *init):
    l = I.iter(o); k = 0
    if init: acc = init[0]
    else:
        if not l: I.throw("reduce of empty array")
        acc = l[0]; k = 1
    for i in range(k, len(l)): acc = I.call(f, UNDEF, [acc, l[i], i, o])
    return acc
def a_each(I, o, f, *r):
    for i, x in enumerate(I.iter(o)): I.call(f, UNDEF, [x, i, o])
    return UNDEF
def a_quant(all_):
    def g(I, o, f, *r):
        for i, x in enumerate(I.iter(o)):
            if I.truth(I.call(f, UNDEF, [x, i, o])) != all_: return not all_
        return all_
    return g
def a_join(I, o, sep=","):
    s = ""
    for i, x in enumerate(I.iter(o)): s = I.add(I.add(s, sep) if i and sep != "" else s, "" if x is UNDEF or x is NULL else I.tostr(x))
    return s
def a_find(ix):
    def g(I, o, f, *r):
        for i, x in enumerate(I.iter(o)):
            if I.truth(I.call(f, UNDEF, [x, i, o])): return i if ix else x
        return -1 if ix else UNDEF
    return g
def a_push(I, o, *x): o.a += list(x); return len(o.a)
def a_idx(I, o, x, *r):
    for i, y in enumerate(I.iter(o)):
        if I.truth(I.eq(x, y)): return i
    return -1
def a_fill(I, o, x=UNDEF, *r): o.a = [x] * len(o.a); return o
def a_flat(I, o, d=1):
    out = []
    for x in o.a: out += list(x.a) if isinstance(x, Arr) else [x]
    return Arr(out)
def a_splice(I, o, a, n=UNDEF, *x):
    a = int(a); n = len(o.a) - a if n is UNDEF else int(n); r = o.a[a:a + n]; o.a[a:a + n] = list(x); return Arr(r)
ARR = {"map": lambda I, o, f, *r: Arr([I.call(f, UNDEF, [x, i, o]) for i, x in enumerate(I.iter(o))]), "forEach": a_each, "reduce": a_reduce, "every": a_quant(True), "some": a_quant(False), "join": a_join, "push": a_push,
       "concat": lambda I, o, *a: Arr(o.a + [y for x in a for y in (x.a if isinstance(x, Arr) else [x])]), "slice": lambda I, o, a=UNDEF, b=UNDEF: Arr(s_idx(o.a, a, b)), "reverse": lambda I, o: (o.a.reverse(), o)[1], "toReversed": lambda I, o: Arr(o.a[::-1]), "find": a_find(False), "findIndex": a_find(True), "indexOf": a_idx,
       "includes": lambda I, o, x: a_idx(I, o, x) >= 0, "fill": a_fill, "entries": lambda I, o: Arr([Arr([i, x]) for i, x in enumerate(I.iter(o))]), "values": lambda I, o: Arr(I.iter(o)), "keys": lambda I, o: Arr(range(len(I.iter(o)))), "flat": a_flat, "flatMap": lambda I, o, f, *r: a_flat(I, Arr([I.call(f, UNDEF, [x, i, o]) for i, x in enumerate(o.a)])),
       "filter": lambda I, o, f, *r: Arr([x for i, x in enumerate(o.a) if I.truth(I.call(f, UNDEF, [x, i, o]))]), "at": lambda I, o, i: I.get(o, int(i) if i >= 0 else len(I.iter(o)) + int(i)), "pop": lambda I, o: o.a.pop() if o.a else UNDEF, "shift": lambda I, o: o.a.pop(0) if o.a else UNDEF, "unshift": lambda I, o, *x: o.a.__setitem__(slice(0, 0), list(x)) or len(o.a),
       "splice": a_splice, "reduceRight": lambda I, o, f, *init: a_reduce(I, Arr(I.iter(o)[::-1]), f, *init)}
def p_then(I, o, f=UNDEF, g=UNDEF):
    h, v = (f, o.v) if o.exc is None else (g, o.exc.v)
    if h is UNDEF: return o
    try: r = I.call(h, UNDEF, [v])
    except JsThrow as x: return Prom(exc=x)
    return r if isinstance(r, Prom) else Prom(r)
PRM = {"then": p_then, "catch": lambda I, o, g: p_then(I, o, UNDEF, g), "finally": lambda I, o, g: (I.call(g, UNDEF, []), o)[1]}

# ---------- bn.js
def new_bn(I, a):
    v = a[0] if a else 0; base = a[1] if len(a) > 1 else UNDEF; endian = a[2] if len(a) > 2 else UNDEF
    if base in ("le", "be"): endian, base = base, UNDEF
    if base is UNDEF: base = 10
    if base == "hex": base = 16
    if isinstance(v, BN): return v
    if isinstance(v, Big):                  # typeof bigint is neither number nor object: its decimal digits are parsed in the base
        if base != 10: raise Unsupported("new BN(bigint, %s)" % base)
        return bnof(v)
    if isnum(v): return bnof(Big(int(v)))
    if isinstance(v, NumA): return bnof(Big((v.a,)))
    if isinstance(v, Dec) and base == 10: return bnof(v.b)
    if isinstance(v, (str, SStr, HexNat)):
        if base == 10 and isinstance(v, str): return bnof(Big(int(v.replace(" ", ""))))
        if base == 16:
            b = hexparse(I, v)
            if b is None: raise Unsupported("new BN of an invalid string")
            return bnof(b)
    if isbytes(v) or isinstance(v, Arr):
        it = v.items() if isbytes(v) else [I.tobyte(x) for x in v.a]
        if endian == "le": it = it[::-1]
        if any(isinstance(x, Tail) for x in it):
            if endian == "le": raise Unsupported("little-endian bytes of unknown number")
            return BN({(("intbe", tuple(x.name if isinstance(x, Tail) else x for x in it)),): 1}, "exact", True)
        return bnof(bigbe(it))
    raise Unsupported("new BN(%s)" % type(v).__name__)
def need_bn(I, v):
    if isinstance(v, BN): return v
    raise Unsupported("bn.js operation on %s" % type(v).__name__)
def isN(b): return isinstance(b, BN) and b.mode == "exact" and b.p == {(): N}
def bn_lin(I, a, b, f, keep):
    b = need_bn(I, b); m = "exact" if a.mode == "exact" and b.mode == "exact" else "cong"
    return BN(f(a.p, b.p), m, keep and a.nonneg and b.nonneg)
def bn_sub(I, a, b):
    r = bn_lin(I, a, b, lambda x, y: padd(x, {k: -v for k, v in y.items()}), False)
    if a.mode == "exact" and set(a.p) <= {()} and a.p.get((), 0) >= N - 1 and b.mode == "red": r.nonneg = True          # a constant of at least N - 1 less a residue
    return r
def bn_umod(I, a, n):
    if not isN(n): raise Unsupported("reduction by something other than the group order")
    if a.mode == "red": return a
    return BN(pmod(a.p), "red", True, None)
def bn_mod(I, a, n):
    if not isN(n): raise Unsupported("reduction by something other than the group order")
    if a.nonneg: return bn_umod(I, a, n)
    return BN(pmod(a.p), "cong", False)
def zero_mod(I, p):
    """whether a polynomial is 0 mod N: decided for constants; a product is 0 iff a factor is (N is prime)"""
    p = pmod(p)
    if not p: return True
    if len(p) == 1:
        (m, c), = p.items()
        for x in m:
            if x[0] != "inv" and I.fork(("zero mod N", x)): return True
        return False
    return I.fork(("zero mod N", pkey(p)))
def bn_invm(I, a, n):
    if not isN(n): raise Unsupported("inverse modulo something other than the group order")
    if zero_mod(I, a.p): return BN({}, "red", True)
    p = pmod(a.p)
    if len(p) == 1:
        (m, c), = p.items(); q = {(): pow(c, -1, N)}
        for x in m: q = pmul(q, {(("inv", x) if x[0] != "inv" else x[1],): 1})
        return BN(pmod(q), "red", True)
    return BN({(("inv", ("poly", pkey(p))),): 1}, "red", True)
def bn_str(I, a, base=10, pad=UNDEF):
    if a.big is None: raise Unsupported("digits of a computed number")
    if base == "hex": base = 16
    s = I.tostr(a.big, base)
    if pad is not UNDEF and pad != 0:
        if base != 16: raise Unsupported("padding")
        return s_pad(I, s, pad, "0") if isinstance(s, HexNat) else bad("padding")
    return s
def bn_arr(I, a, endian="be", n=UNDEF):
    if a.big is None or a.big.dig() is None: raise Unsupported("bytes of a computed number")
    d = a.big.dig()
    if n is UNDEF: raise Unsupported("minimal number of bytes")
    if len(d) > n: raise Unsupported("byte array exceeds desired length")
    d = d + [0] * (n - len(d)); return Arr([x if isinstance(x, int) else NumA(x) for x in (d if endian == "le" else d[::-1])])
BNM = {"mul": lambda I, a, b: bn_lin(I, a, b, pmul, True), "add": lambda I, a, b: bn_lin(I, a, b, padd, True), "sub": bn_sub,
       "neg": lambda I, a: BN({k: -v for k, v in a.p.items()}, "exact" if a.mode == "exact" else "cong", False), "umod": bn_umod, "mod": bn_mod, "invm": bn_invm, "clone": lambda I, a: a, "toString": bn_str, "toArray": bn_arr,
       "toArrayLike": lambda I, a, t, e="be", n=UNDEF: frombytes(I, bn_arr(I, a, e, n), "Buffer" if t.name == "Buffer" else "Uint8Array"), "toBuffer": lambda I, a, e="be", n=UNDEF: frombytes(I, bn_arr(I, a, e, n), "Buffer"), "isZero": lambda I, a: zero_mod(I, a.p) if a.mode == "red" else bad("isZero"),
       "eq": lambda I, a, b: I.eq(a.big, b.big) if a.big is not None and isinstance(b, BN) and b.big is not None else bad("eq"), "isOdd": lambda I, a: bool(a.big.v & 1) if a.big is not None and isinstance(a.big.v, int) else bad("isOdd"), "isEven": lambda I, a: not a.big.v & 1 if a.big is not None and isinstance(a.big.v, int) else bad("isEven"),
       "iadd": lambda I, *a: bad("in-place"), "imul": lambda I, *a: bad("in-place")}

# ---------- elliptic
class EC: pass
class Curve: pass
class IMT: pass
def from_x(I, c, x, odd=UNDEF):
    if isinstance(x, (str, SStr)): x = new_bn(I, [x, 16])
    x = need_bn(I, x)
    if x.mode != "exact" or x.big is None: raise Unsupported("pointFromX of a computed number")
    o = I.truth(odd)
    if not I.fork(("on the curve", key(x.big))): I.throw("invalid point")
    return Pt({("R", key(x.big), o): {(): 1}})
def pt_mul(I, o, k):
    if isnum(k): k = bnof(Big(k))
    k = need_bn(I, k)
    I.oblige(k.nonneg, "a point is multiplied by a number that is not negative", "precondition")
    return Pt({b: pmul(c, k.p) for b, c in o.c.items()})
def pt_add(I, o, q):
    c = dict(o.c)
    for b, p in q.c.items(): c[b] = padd(c.get(b, {}), p)
    return Pt(c)
def pt_inf(I, o):
    if not o.c: return True
    if len(o.c) == 1: return zero_mod(I, list(o.c.values())[0])
    return I.fork(("infinity", o.key()))
def pt_coord(w):
    def f(I, o):
        if pt_inf(I, o): I.throw("the point at infinity has no coordinates")
        return bnof(coord(o, w))
    return f
def pt_enc(I, o, enc=UNDEF, compact=UNDEF):
    if pt_inf(I, o): I.throw("encoding of the point at infinity")
    if enc == "hex" and not I.truth(compact):
        return mkstr(["0", "4"] + [n for w in "xy" for n in chars(nibbles(list(reversed(coord(o, w).dig()))))])
    return Enc(o, enc)
def all_pts(): return PTS
PTS = {}
def decode(I, s, enc=UNDEF):
    """the point whose coordinates the string holds, when it is one computed here"""
    if isinstance(s, Pt): return s
    if isinstance(s, Key_): return s.pt
    if isinstance(s, Enc): return s.pt
    it = None
    if isinstance(s, SStr) and enc == "hex" and s.p[:2] == ["0", "4"] and len(s.p) == 130: it = strbytes(I, SStr(s.p[2:]), "hex")
    if isinstance(s, (Bytes,)) and s.fixed() == 65 and not s.tail() and s.items()[0] == 4: it = s.items()[1:]
    if isinstance(s, Obj) and "x" in s.p and "y" in s.p: raise Unsupported("point from coordinates")
    if it is None: raise Unsupported("decoding of %r" % (s,))
    for k, n in list(PT_NAMES.items()):
        if k[1] == "y" and it[32:] == ["%s[%d]" % (n, i) for i in reversed(range(32))]:
            p = Pt({b: dict(v) for b, v in k[0][1]})
            if it[:32] == list(reversed(coord(p, "x").dig())): return p
    raise Unsupported("decoding of a point")
PTM = {"mul": pt_mul, "add": pt_add, "neg": lambda I, o: o.neg(), "getX": pt_coord("x"), "getY": pt_coord("y"), "encode": pt_enc, "isInfinity": pt_inf, "eq": lambda I, o, q: o.key() == q.key() or SBool(("pteq", o.key(), q.key())), "dbl": lambda I, o: pt_add(I, o, o), "validate": lambda I, o: True,
       "encodeCompressed": lambda I, o, e=UNDEF: Enc(o, e)}
ECM = {"keyFromPublic": lambda I, o, p, e=UNDEF: Key_(decode(I, p, e))}
CUM = {"pointFromX": from_x, "decodePoint": lambda I, o, p, e=UNDEF: decode(I, p, e)}
KEM = {"getPublic": lambda I, o, *a: o.pt if not a else (pt_enc(I, o.pt, a[-1], a[0] if len(a) > 1 else UNDEF))}

# ---------- merkle tree package: an abstract object, its calls recorded
def new_imt(I, a):
    t = IMT(); t.args = list(a); I.calls.append(("tree", t)); return t
def imt_read(self, I, n):
    I.calls.append(("tree." + n,)); st = len([c for c in I.calls if c[0] in ("tree.insert", "tree.delete", "tree.update")])
    return Arr([Big(Opq("leaf", st, i)) for i in range(2)]) if n == "leaves" else Big(Opq("root", st)) if n == "root" else Opq(n)
IMT.read = imt_read
def imt_call(n, res):
    def f(I, o, *a):
        I.calls.append(("tree." + n,) + tuple(a)); return res(I, *a)
    return f
def imt_proof(I, i): return Obj({"root": Big(Opq("proof root", key(i))), "leaf": Big(Opq("proof leaf", key(i))), "leafIndex": i, "siblings": Arr([Arr([Big(Opq("sibling", key(i), k))]) for k in range(3)]), "pathIndices": Arr([Opq("bit", key(i), k, kind="num") for k in range(3)])})
IMTM = {"insert": imt_call("insert", lambda I, *a: UNDEF), "delete": imt_call("delete", lambda I, *a: UNDEF), "update": imt_call("update", lambda I, *a: UNDEF), "indexOf": imt_call("indexOf", lambda I, x: Opq("index of", key(x), kind="num")), "createProof": imt_call("createProof", imt_proof),
        "verifyProof": imt_call("verifyProof", lambda I, p: SBool(("proof verifies", tuple((k, key(p.p.get(k, UNDEF))) for k in ("root", "leaf", "siblings", "pathIndices")))))}

# ---------- wasm module
def snap(v):
    """a copy of an argument as it is when the call is made"""
    return Bytes(v.items(), v.kind) if isbytes(v) else v
def wasm_obj():
    def bt(I, v):
        if not isbytes(v) or v.kind == "ArrayBuffer": raise Unsupported("wasm argument %r" % (v,))
        return snap(v)
    def prove(I, t, a):
        c = tuple(bt(I, x) for x in a[:3]); I.calls.append(("prove",) + c)
        if I.fork(("prove fails",)) is True: I.throw("unreachable")
        return Bytes([Tail("proof(%s)" % (len([x for x in I.calls if x[0] == "prove"]) - 1))])
    def verify(I, t, a):
        c = tuple(bt(I, x) for x in a[:3]); I.calls.append(("verify",) + c)
        k = tuple(key(x) for x in c)
        if I.fork(("wasm verify fails",) + k) is True: I.throw("unreachable")
        return SBool(("wasm verify",) + k)
    def pos(I, t, a):
        c = bt(I, a[0]); I.calls.append(("poseidon", c))
        if c.tail(): raise Unsupported("poseidon of bytes of unknown number")
        return Bytes(atoms("pos" + str(hash_name(key(c)))))
    rec = lambda n: Native(lambda I, t, a: (I.calls.append((n,) + tuple(a)), UNDEF)[1], n)
    return Obj({"prove": Native(prove), "verify": Native(verify), "poseidon": Native(pos), "initSync": rec("initSync"), "init_panic_hook": rec("init_panic_hook"), "default": rec("initDefault")})
HN = {}
def hash_name(k): return HN.setdefault(k, len(HN))
