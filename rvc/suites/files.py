"""circuit_reader: an .r1cs file becomes the Spartan instance it denotes; spartan_wasm: the byte interface."""
import random, struct
from .misc import *
from . import misc as M
from . import scalar as SC
from ..field import PSECP
from ..poly import *
from .. import poly as P
from ..exec import *
p = PSECP
INST = "libspartan::Instance::new"
class FBs(M.FB):
    """coefficients over the whole 256-bit range, assumed below (or at least) the modulus"""
    def coef(s, name, bad=False):
        bs = [var("%s.%d" % (name, i), 0, 255) for i in range(32)]; s.b += bs
        n = sum((x.scale(1 << 8 * i) for i, x in enumerate(bs)), ZERO)
        if bad: FACTS.append(("ge0", n - C(p), "non-canonical " + name))
        else: FACTS.append(("ge0", C(p - 1) - n, "canonical " + name))
        return bs
def contracts(prog):
    """Instance::new is the boundary (its own contract is S04); a buffered reader over an opened file reads the file's bytes"""
    d = dict(SC.contracts(prog))
    def is_io(n): return "BufReader" in n or "OpenOptions" in n or "std::fs::File" in n
    for f in prog.fns.values():
        if is_io(f["name"]) or f["name"].startswith(("std::path::", "<std::path::")): f["contractable"] = True
    def new_inst(ex, st, fn, args):
        out = [x if isinstance(x, Poly) else Agg(ex.seq(st, x)) for x in args]
        return Enum(ZERO, {0: (Agg(out),)})
    d[strip_crate(INST)] = new_inst
    rd = {k: v for k, v in ((m, [f for f in prog.byname if f.endswith("Rd<'_> as std::io::%s" % m)]) for m in ("Read>::read", "Read>::read_exact", "Seek>::seek"))}
    def via(m):
        nm = rd[m][0]; fid = prog.find(nm)
        return lambda ex, st, fn, args: ex.run_fn(st, fid, prog.fns[fid], list(args))
    for n in prog.byname:
        k = strip_crate(n)
        if "OpenOptions" in n:
            if n.endswith("::new"): d[k] = lambda ex, st, fn, args: Opq("options")
            elif n.endswith("::read"): d[k] = lambda ex, st, fn, args: args[0]
            elif "::open" in n: d[k] = lambda ex, st, fn, args: Enum(ZERO, {0: (Opq("file"),)})
        elif n.startswith("std::fs::File::open"): d[k] = lambda ex, st, fn, args: Enum(ZERO, {0: (Opq("file"),)})
        elif "BufReader" in n:
            if n.endswith("BufReader::<std::fs::File>::new"): d[k] = lambda ex, st, fn, args: Agg([ex.filebytes, ZERO])
            for m in rd:
                if n.endswith("BufReader<std::fs::File> as std::io::" + m): d[k] = via(m)
        elif "PathBuf as std::ops::Deref" in n: d[k] = lambda ex, st, fn, args: ex.alloc(st, Opq("path"))
    return d
SH = M.SHAPES
def le(v): return v.to_bytes(32, "little")
def units(prog, mod="cr"):
    U = []
    def mkf(build, n):
        def mk(ex, st):
            r = build(); ex.goal = (r, n)
            st.assume(ONE - lt0(st.simp(r["pre"])))
            ex.filebytes = ex.alloc(st, Agg(r["bytes"]))
            return [Opq("path"), C(n)]
        return mk
    def post(ex, st, r, a):
        g, n = ex.goal; w = g["header"][2]
        if not isinstance(r, Agg) or len(r.f) != 6: raise Unsupported("instance not made by Instance::new")
        nc, nv, ni, A, B, Cc = r.f
        ensure_int(ex, st, nc, C(len(g["cons"])), "number of constraints")
        ensure_int(ex, st, nv, w, "number of variables: one per wire")
        ensure_int(ex, st, ni, C(n), "number of public inputs")
        for k, (nm, got) in enumerate((("A", A), ("B", B), ("C", Cc))):
            want = [(i, t) for i, c in enumerate(g["cons"]) for t in c[k]]
            got = list(got.f)
            if not ex.record("ensures", "%s: one entry per term of the file" % nm, len(got) == len(want), "normal form"): continue
            for e, (i, (wire, coef)) in zip(got, want):
                row, col, by = e.f
                pub = lt0(wire - n - 1)                                       # wires 0..n: the constant and the public signals
                ensure_int(ex, st, row, C(i), nm + ": row")
                ensure_int(ex, st, col, wire + pub * w, nm + ": column (constant and public signals after the variables, in order)")
                by = list(by.f)
                ex.record("ensures", nm + ": 32 bytes", len(by) == 32, "normal form")
                for j, (x, y) in enumerate(zip(by, coef)): ex.record("ensures", "%s: byte %d in range" % (nm, j), in_range(x, 0, 255), "interval")
                ensure_int(ex, st, sum((x.scale(1 << 8 * j) for j, x in enumerate(by)), ZERO), sum((x.scale(1 << 8 * j) for j, x in enumerate(coef)), ZERO), nm + ": coefficient, little-endian")
    rp = (mod, "sat", [(("gen", g_sat, lambda t: enc_sat(t)), "t")], o_sat)
    for k, (nm, sh, w) in enumerate(SH):
        for n in sorted({0, 1, min(3, w - 1), w - 1}):
            if n >= w: continue
            if k > 4 and n == 1: continue
            U.append(Unit("circuit of %s, %d public signals" % (nm, n), "rvc_roots::inst", mkf(lambda sh=sh, w=w: M.build_file(sh, (1, 2, 3), w, FB=FBs), n), post, tag="load", bounded=M.BOUND_R, rp=rp if k in (2, 5) else None, cap=(60, 4000)))
    def mkbad(i):
        def mk(ex, st):
            r = M.build_file([(1, 1, 1)], (1, 2, 3), 3, FB=FBs, bad=i, over={"n_pub_in": 1, "n_pub_out": 1})
            ex.filebytes = ex.alloc(st, Agg(r["bytes"])); return [Opq("path"), C(2)]
        return mk
    for i in range(3):
        U.append(Unit("coefficient %d not below the modulus" % i, "rvc_roots::inst", mkbad(i), None, tag="load", panic="refuse", bounded=M.BOUND_R))
    return U
# ---------------------------------------------------------------------------------------------------------------- oracle
def rf(rng): return rng.choice([0, 1, 2, p - 1, rng.randrange(p), rng.randrange(p), rng.randrange(1 << 64), 1 << 248, 255])
def g_sat(rng, consts):
    """a circom circuit (constant wire 0, public signals, other wires) with a witness, the witness or the statement sometimes changed"""
    w = rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 17]); n = rng.randrange(0, w); nc = rng.choice([1, 2, 3, 4, 5, 8])
    wit = [1] + [rf(rng) for _ in range(w - 1)]
    cons = []
    for _ in range(nc):
        def lc(m): return [(rng.choice([0, rng.randrange(w), rng.randrange(n + 1)]), rf(rng)) for _ in range(m)]
        a, b, c = lc(rng.choice([0, 1, 2])), lc(rng.choice([0, 1, 2])), lc(rng.choice([0, 1]))
        ev = lambda v: sum(f * wit[i] for i, f in v) % p
        d = (ev(a) * ev(b) - ev(c)) % p
        nz = [i for i in range(w) if wit[i]]; i = rng.choice(nz); c = c + [(i, d * pow(wit[i], -1, p) % p)]
        cons.append((a, b, c))
    x = wit[1:n + 1]; r = rng.random()
    if r < .25 and n: x = list(x); i = rng.randrange(n); x[i] = (x[i] + rng.choice([1, p - 1, rng.randrange(p)])) % p
    elif r < .5: wit = list(wit); i = rng.randrange(w); wit[i] = rf(rng)
    elif r < .6: wit = [0] * w
    elif r < .65: x = [rf(rng) for _ in x]
    bad = rng.random() < .05
    if bad and cons[0][2]: cons[0][2][0] = (cons[0][2][0][0], rng.choice([p, p + 1, 2**256 - 1]))
    return cons, w, n, wit, x
def file_of(t):
    cons, w, n, wit, x = t
    o = 0
    hd = struct.pack("<I", 32) + le(p) + struct.pack("<IIIIQI", w, o, n, w - 1 - n, w, len(cons))
    cs = b"".join(struct.pack("<I", len(v)) + b"".join(struct.pack("<I", i) + le(f) for i, f in v) for c in cons for v in c)
    mp = b"".join(struct.pack("<Q", i) for i in range(w))
    return b"r1cs" + struct.pack("<II", 1, 3) + b"".join(struct.pack("<IQ", a, len(b)) + b for a, b in ((1, hd), (2, cs), (3, mp)))
def hx(v): return "x" + "".join(le(y).hex() for y in v)
def enc_sat(t): return "%s %d %s %s" % (file_of(t).hex(), t[2], hx(t[3]), hx(t[4]))
def sat(t):
    cons, w, n, wit, x = t
    z = [1] + list(x) + list(wit[n + 1:])                                      # the statement decides the constant and the public signals
    ev = lambda v: sum(f * z[i] for i, f in v) % p
    return all((ev(a) * ev(b) - ev(c)) % p == 0 for a, b, c in cons)
def o_sat(t):
    if any(f >= p for c in t[0] for v in c for _, f in v): return "PANIC"
    return str(int(sat(t)))

# ------------------------------------------------------------------------------------------------------- spartan_wasm
FT = "field::field_secp::FieldElement"
CAP = ("libspartan::Assignment::new", "libspartan::NIZKGens::new", "libspartan::NIZK::prove", "libspartan::NIZK::verify")
def wasm_contracts(prog, fm):
    """boundaries: Assignment::new, NIZKGens::new, NIZK::prove / verify (S04, S08), the Poseidon hash (P01), bincode, the transcript (opaque)"""
    d = dict(SC.contracts(prog)); d.update(fm.contracts())
    for f in prog.fns.values():
        if f["name"].startswith(("bincode::", "merlin::")): f["contractable"] = True
    def snap(ex, st, v):
        """the value itself: what every reference in it points to now"""
        while isinstance(v, Ref):
            try: v = Agg(ex.seq(st, v))
            except (Unsupported, AttributeError, TypeError): v = ex.load(st, v)
        if isinstance(v, (Agg, VecV)): return Agg([snap(ex, st, x) for x in v.f])
        return v
    def note(nm, ret):
        def g(ex, st, fn, args):
            a = [snap(ex, st, x) for x in args]
            ex.calls = getattr(ex, "calls", []) + [(nm, a)]
            return ret(ex, st, a)
        return g
    ok = lambda v: Enum(ZERO, {0: (v,)})
    d["libspartan::Assignment::new"] = note("assign", lambda ex, st, a: ok(Agg([Opq("assignment"), a[0]])))
    d["libspartan::NIZKGens::new"] = note("gens", lambda ex, st, a: Agg([Opq("gens")] + a))
    d["libspartan::NIZK::prove"] = note("prove", lambda ex, st, a: Agg([Opq("proof")] + a))
    d["libspartan::NIZK::verify"] = note("verify", lambda ex, st, a: Enum(ex.verdict, {0: (Agg([]),), 1: (Opq("error"),)}))
    d["<libspartan::Assignment as std::clone::Clone>::clone"] = lambda ex, st, fn, a: ex.load(st, a[0])
    d["merlin::Transcript::new"] = lambda ex, st, fn, a: Agg([Opq("transcript")] + [snap(ex, st, a[0])])
    for f in prog.fns.values():
        n = f["name"]; k = strip_crate(n)
        if n.startswith("bincode::deserialize::") and n.endswith("libspartan::Instance>"): d[k] = note("instance", lambda ex, st, a: ok(ex.inst))
        elif n.startswith("bincode::deserialize::") and n.endswith("libspartan::NIZK>"): d[k] = note("proof", lambda ex, st, a: ok(Agg([Opq("proof"), a[0]])))
        elif n.startswith("bincode::serialize::"): d[k] = note("serialize", lambda ex, st, a: ok(Agg([Opq("bytes"), a[0]])))
    d = {strip_crate(k): v for k, v in d.items()}
    for f in prog.fns.values():
        if f["name"] == "poseidon::poseidon_k256::hash":
            def h(ex, st, fn, args):
                ex.hashed = [fm.canon(ex, st, fm.arg(ex, st, x), "hash input").p for x in ex.seq(st, args[0])]
                ex.hash = fm.fresh("hash"); return ex.hash
            d[strip_crate(f["name"])] = h
    return d
def wasm_units(prog, fm, mod="wa"):
    U = []
    def add(*a, **kw): kw.setdefault("tag", "wasm"); U.append(Unit(*a, **kw))
    def num(xs): return sum((x.scale(1 << 8 * i) for i, x in enumerate(xs)), ZERO)
    def wfile(n, over=None, bad=None, cut=None):
        over = over or {}; f = FBs(); g = lambda k, d: over.get(k, d)
        f.num(4, g("magic", 0x736e7477), "magic"); f.num(4, g("version", 2), "version"); f.num(4, g("nsec", 2), "nsec")
        f.num(4, g("t1", 1), "t1"); f.num(8, g("s1", 40), "s1"); f.num(4, g("fs", 32), "fs"); f.raw(32, "prime"); f.num(4, g("n", n), "n")
        f.num(4, g("t2", 2), "t2"); f.num(8, g("s2", 32 * n), "s2")
        w = [f.coef("w%d" % i, bad == i) for i in range(n)]
        return (f.b if cut is None else f.b[:cut]), w
    def scal(ex, st, v, want, what):
        SC.ensure(ex, st, p, v, want, what)
    # ---- the witness file
    good = (mod, "wt", [(("gen", g_wt, lambda b: b.hex() or "x"), "f")], o_wt)
    for n in range(5):
        for ver in (0, 1, 2):
            if ver != 2 and n != 1: continue
            def mk(ex, st, n=n, ver=ver): b, w = wfile(n, {"version": ver}); ex.goal = w; return [ex.alloc(st, Agg(b))]
            def post(ex, st, r, a):
                w = ex.goal
                ensure_int(ex, st, r.disc, ZERO, "accepted")
                vs = r.pay[0][0].f
                if ex.record("ensures", "one value per entry", len(vs) == len(w), "normal form"):
                    for i, (v, b) in enumerate(zip(vs, w)): scal(ex, st, v, num(b), "value %d is the little-endian integer of its bytes" % i)
            add("witness file of %d values, version %d" % (n, ver), "rvc_roots::witness", mk, post, bounded="number of values", rp=good if n == 2 else None)
    def err(ex, st, r, a): ensure_int(ex, st, r.disc, ONE, "reported as an error where it returns at all")
    def refuse(nm, **k):
        def mk(ex, st):
            b, w = wfile(**k)
            return [ex.alloc(st, Agg(b))]
        add("witness file: " + nm, "rvc_roots::witness", mk, err, panic="refuse", bounded="number of values")
    for k, vals in (("magic", (0, 0x736e7476, 0x746e7477)), ("version", (3, 255, 2**32 - 1)), ("nsec", (0, 1, 3)), ("t1", (0, 2)), ("s1", (39, 41, 0)), ("fs", (31, 33, 0)), ("t2", (1, 3)), ("s2", (0, 31, 33, 64)), ("n", (0, 2))):
        for v in vals: refuse("%s = %d" % (k, v), n=1, over={k: v})
    for i in range(2): refuse("value %d not below the modulus" % i, n=2, bad=i)
    full = len(wfile_len(2))
    for c in list(range(0, 76)) + [full - 33, full - 32, full - 1]: refuse("truncated after %d bytes" % c, n=2, cut=c)
    # ---- Poseidon on bytes
    def mkp(bad=None, n=64):
        def mk(ex, st):
            f = FBs()
            xs = [f.coef("x%d" % i, bad == i) for i in range(2)]
            ex.goal = xs; return [ex.alloc(st, Agg(f.b[:n] + [var("e%d" % i, 0, 255) for i in range(n - 64)]))]
        return mk
    def postp(ex, st, r, a):
        ensure_int(ex, st, r.disc, ZERO, "succeeds")
        hs = getattr(ex, "hashed", None)
        if not ex.record("ensures", "the hash of two elements is computed", hs is not None and len(hs) == 2, "call"): return
        for i in range(2): ex_eq(ex, st, hs[i], num(ex.goal[i]), "hash input %d is the little-endian integer of its 32 bytes" % i)
        out = ex.seq(st, r.pay[0][0]) if isinstance(r.pay[0][0], Ref) else list(r.pay[0][0].f)
        ex.record("ensures", "32 bytes", len(out) == 32, "normal form")
        for i, x in enumerate(out): ex.record("ensures", "byte %d in range" % i, in_range(x, 0, 255), "interval")
        q = num(out)
        rr, how, info = ex.solver.prove_ge0(C(p - 1) - q, st.pc); ex.record("ensures", "canonical", rr, how, info)
        ex_eq(ex, st, ex.hash.p, q, "the hash, little-endian")
    def ex_eq(ex, st, felt, n, what):
        rr, how, info = ex.solver.prove_fzero(felt - n.tofield(p), st.pc); ex.record("ensures", what, rr, how, info)
    add("poseidon", "rvc_roots::poseidon", mkp(), postp, rp=(mod, "pos", [(("gen", g_pos, lambda b: "x" + b.hex()), "b")], o_pos))
    for i in range(2): add("poseidon: input %d not below the modulus" % i, "rvc_roots::poseidon", mkp(i), None, panic="refuse")
    for n in (0, 32, 63, 65, 96): add("poseidon: %d bytes" % n, "rvc_roots::poseidon", mkp(None, n), None, panic="refuse")
    # ---- prove and verify
    IN, RI = "Instance", "r1csinstance::R1CSInstance"
    from .spartan import Lib
    L = Lib(prog, fm)
    pv = (mod, "pv", [(("gen", g_pv, enc_pv), "t")], o_pv)
    def bs(n, nm): return [var("%s%d" % (nm, i), 0, 255) for i in range(n)]
    def inst(ex, ni):
        ex.dims = [Poly.atom(new_atom("nc", "var", 0, 2**40)), Poly.atom(new_atom("nv", "var", 0, 2**40)), C(ni)]
        ri = L.mk(RI, num_cons=ex.dims[0], num_vars=ex.dims[1], num_inputs=ex.dims[2], A=Opq("A"), B=Opq("B"), C=Opq("C"))
        ex.inst = L.mk(IN, inst=ri, digest=Opq("digest"))
    def calls(ex, nm): return [a for n, a in getattr(ex, "calls", []) if n == nm]
    def same_bytes(ex, st, got, want, what):
        """a list of 32-byte strings, each the given bytes reversed"""
        if not ex.record("ensures", what + ": count", isinstance(got, Agg) and len(got.f) == len(want), "normal form"): return
        for i, (g, w) in enumerate(zip(got.f, want)):
            if not ex.record("ensures", "%s %d: 32 bytes" % (what, i), len(g.f) == 32, "normal form"): continue
            for j, x in enumerate(g.f): ex.record("ensures", "%s %d: byte %d in range" % (what, i, j), in_range(x, 0, 255), "interval")
            ensure_int(ex, st, num(g.f), num(w), "%s %d: little-endian" % (what, i))
    def is_(ex, got, kind, what): return ex.record("ensures", what, isinstance(got, Agg) and got.f and isinstance(got.f[0], Opq) and got.f[0].n == kind, "normal form")
    def gens_ok(ex, st, gens, what):
        if is_(ex, gens, "gens", what + ": generators"):
            for i, (x, y) in enumerate(zip(gens.f[1:], ex.dims)): ensure_int(ex, st, x, y, what + ": generators for the instance's dimensions")
    for ni in range(4):
        def mkv(ex, st, ni=ni):
            inst(ex, ni); ex.verdict = Poly.atom(new_atom("rejected", "var", 0, 1))
            f = FBs(); xs = [f.raw(32, "x%d." % i) for i in range(ni)]; ex.goal = [x[::-1] for x in xs]
            ex.cb, ex.pb = bs(8, "c"), bs(8, "q")
            return [ex.alloc(st, Agg(v)) for v in (ex.cb, ex.pb, f.b)]
        def postv(ex, st, r, a):
            ensure_int(ex, st, r.disc, ZERO, "returns")
            vs = calls(ex, "verify")
            if not ex.record("ensures", "NIZK::verify is called once", len(vs) == 1, "calls"): return
            proof, ins, x, tr, gens = vs[0]
            ex.record("ensures", "the proof given", same(proof, Agg([Opq("proof"), Agg(ex.pb)])) or repr(proof) == repr(Agg([Opq("proof"), Agg(ex.pb)])), "normal form")
            ex.record("ensures", "the circuit given", repr(ins) == repr(ex.inst) and [repr(c[0]) for c in calls(ex, "instance")] == [repr(Agg(ex.cb))], "normal form")
            if is_(ex, x, "assignment", "public inputs as an assignment"): same_bytes(ex, st, x.f[1], ex.goal, "public input")
            is_(ex, tr, "transcript", "a fresh transcript"); gens_ok(ex, st, gens, "verify")
            ensure_bool(ex, st, r.pay[0][0], ONE - ex.verdict, "true exactly when NIZK::verify accepts")
        add("verify, %d public inputs" % ni, "rvc_roots::verify", mkv, postv, bounded="number of public inputs", rp=pv if ni == 2 else None, cap=(25, 400))
        for n in (0, 2):
            def mkpv(ex, st, ni=ni, n=n):
                inst(ex, ni); ex.verdict = ZERO
                b, w = wfile(n); f = FBs(); xs = [f.raw(32, "x%d." % i) for i in range(ni)]; ex.goal = ([x[::-1] for x in xs], w)
                ex.cb = bs(8, "c"); c, q, x = ex.alloc(st, Agg(ex.cb)), ex.alloc(st, Agg(bs(8, "q"))), ex.alloc(st, Agg(f.b))
                fid = prog.find("spartan_wasm::rvc_roots::verify") or prog.find("rvc_roots::verify")
                ex.run_fn(st, fid, prog.fns[fid], [c, q, x])                      # the verifier's transcript
                ex.vtr = calls(ex, "verify")[0][3]; ex.calls = []
                return [c, ex.alloc(st, Agg(b)), x]
            def postpv(ex, st, r, a):
                ensure_int(ex, st, r.disc, ZERO, "returns")
                ps = calls(ex, "prove")
                if not ex.record("ensures", "NIZK::prove is called once", len(ps) == 1, "calls"): return
                ins, vs, x, gens, tr = ps[0]
                ex.record("ensures", "the circuit given", repr(ins) == repr(ex.inst) and [repr(c[0]) for c in calls(ex, "instance")] == [repr(Agg(ex.cb))], "normal form")
                if is_(ex, x, "assignment", "public inputs as an assignment"): same_bytes(ex, st, x.f[1], ex.goal[0], "public input")
                if is_(ex, vs, "assignment", "witness as an assignment"): same_bytes(ex, st, vs.f[1], ex.goal[1], "witness value")
                gens_ok(ex, st, gens, "prove")
                ex.record("ensures", "the transcript starts as the verifier's", repr(tr) == repr(ex.vtr), "normal form")
                out = r.pay[0][0]; sz = calls(ex, "serialize")
                ex.record("ensures", "the serialised proof is returned", len(sz) == 1 and repr(out) == repr(Agg([Opq("bytes"), sz[0][0]])) and is_(ex, sz[0][0], "proof", "of NIZK::prove"), "normal form")
            add("prove, %d public inputs, %d witness values" % (ni, n), "rvc_roots::prove", mkpv, postpv, bounded="number of public inputs and witness values")
    return U
def wfile_len(n): return [0] * (76 + 32 * n)
# ---------------------------------------------------------------------------------------------------------------- oracles
def wt(vals, magic=b"wtns", ver=2): return magic + struct.pack("<II", ver, 2) + struct.pack("<IQI", 1, 40, 32) + le(p) + struct.pack("<IIQ", len(vals), 2, 32 * len(vals)) + b"".join(le(v) for v in vals)
def g_wt(rng, consts):
    b = bytearray(wt([rf(rng) if rng.random() < .95 else rng.choice([p, 2**256 - 1]) for _ in range(rng.choice([0, 1, 2, 3, 8]))], ver=rng.choice([0, 1, 2, 2, 2])))
    r = rng.random()
    if r < .2: b = b[:rng.randrange(len(b))]
    elif r < .5: i = rng.choice([rng.randrange(28), rng.randrange(60, 76), rng.randrange(len(b))]); i = min(i, len(b) - 1); b[i] = rng.choice([b[i] ^ (1 << rng.randrange(8)), 0, 255])
    elif r < .6: b += rng.randbytes(5)
    return bytes(b)
def o_wt(b):
    def take(n):
        nonlocal b
        if len(b) < n: raise EOFError
        x, b = b[:n], b[n:]; return x
    try:
        if take(4) != b"wtns": return "PANIC"
        ver, ns = struct.unpack("<I", take(4))[0], None
        if ver > 2: return "PANIC"
        if struct.unpack("<I", take(4))[0] != 2: return "PANIC"
        if struct.unpack("<I", take(4))[0] != 1: return "PANIC"
        if struct.unpack("<Q", take(8))[0] != 40: return "PANIC"
        if struct.unpack("<I", take(4))[0] != 32: return "PANIC"
        take(32); n = struct.unpack("<I", take(4))[0]
        if struct.unpack("<I", take(4))[0] != 2: return "PANIC"
        if struct.unpack("<Q", take(8))[0] != 32 * n: return "PANIC"
        out = []
        for _ in range(n):
            v = int.from_bytes(take(32), "little")
            if v >= p: return "PANIC"
            out.append(v.to_bytes(32, "big").hex())
        return "ok " + ",".join(out)
    except EOFError: return "ERR"
def g_pos(rng, consts): return b"".join(le(rf(rng)) if rng.random() < .97 else le(p) for _ in range(2))
def o_pos(b):
    from .poseidon import reference
    x, y = [int.from_bytes(b[i:i + 32], "little") for i in (0, 32)]
    return "PANIC" if max(x, y) >= p else le(reference(x, y)).hex()
def g_pv(rng, consts):
    while True:
        cons, w, n, wit, x = t = g_sat(rng, consts)
        if any(f >= p for c in cons for v in c for _, f in v): continue
        if not sat(t) and rng.random() < .8: continue
        return t, (x if rng.random() < .7 or not n else [(v + (i == 0)) % p for i, v in enumerate(x)])
def mat(t, k):
    cons, w, n = t[:3]; es = {}
    for i, c in enumerate(cons):
        for j, f in c[k]: es[i, w + j if j <= n else j] = (es.get((i, w + j if j <= n else j), 0) + f) % p
    return ",".join("%d:%d:%s" % (i, j, le(f).hex()) for (i, j), f in sorted(es.items())) or "-"
def be(v): return "x" + "".join(y.to_bytes(32, "big").hex() for y in v)
def enc_pv(a):
    t, y = a; cons, w, n, wit, x = t
    return "%d %d %d %s %s %s %s %s %s" % (len(cons), w, n, mat(t, 0), mat(t, 1), mat(t, 2), wt(wit).hex(), be(x), be(y))
def o_pv(a):
    t, y = a; return str(int(sat(t) and list(y) == list(t[4])))
