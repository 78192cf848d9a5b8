"""math.rs and circom_reader.rs"""
import struct
from ..field import *
from ..poly import *
from .. import exec as X
from ..exec import *
from ..check import Unit
from .field import short

def var(n, lo, hi): return Poly.atom(new_atom(n, "var", lo, hi))
def ensure_eq(ex, st, v, want, what):
    """deep equality of values (integers, aggregates, vectors, Ok/Some payloads)"""
    if isinstance(v, Ref): v = ex.load(st, v)
    if isinstance(want, int): want = C(want)
    if isinstance(want, Poly):
        if not isinstance(v, Poly): raise Unsupported("integer expected in " + what)
        ensure_int(ex, st, v, want, what); return
    if isinstance(want, (list, tuple)):
        f = v.f if isinstance(v, (Agg, VecV)) else None
        if f is None: raise Unsupported("%s expected in %s, got %s" % ("sequence", what, type(v).__name__))
        if not ex.record("ensures", what + ": length", len(f) == len(want), "normal form"): return
        for i, (a, b) in enumerate(zip(f, want)): ensure_eq(ex, st, a, b, "%s[%d]" % (what, i))
        return
    raise Unsupported("ensure_eq " + what)
def ensure_ok(ex, st, r, want, what):
    if not isinstance(r, Enum): raise Unsupported("Result expected")
    ensure_int(ex, st, r.disc, ZERO, what + ": succeeds")
    if 0 not in r.pay: ex.record("ensures", what + ": has a value", False, "no Ok path"); return
    ensure_eq(ex, st, r.pay[0][0], want, what)
def ensure_err(ex, st, r, what):
    if not isinstance(r, Enum): raise Unsupported("Result expected")
    ensure_int(ex, st, r.disc, ONE, what + ": reported as an error")

# ------------------------------------------------------------------------------------------------- math.rs
def clog2(n): return (n - 1).bit_length()
def math_units(prog, mod="math", pre="<usize as math::Math>::"):
    U = []
    T = lambda n: pre + n
    dec = lambda lo, hi: ("dec", lo, hi)
    for k in range(65):
        lo, hi = (1, 1) if k == 0 else (2**(k - 1) + 1, min(2**k, 2**64 - 1))
        if lo > hi: continue
        def mk(ex, st, lo=lo, hi=hi): return [var("n", lo, hi) if lo < hi else C(lo)]
        U.append(Unit("log_2 on [%d, %d]" % (lo, hi), T("log_2"), mk, lambda ex, st, r, a, k=k: ensure_eq(ex, st, r, k, "log_2 = ceil(log2 n)"), tag="math", rp=(mod, "log_2", [(dec(lo, hi), "n")], lambda n: str(clog2(n)))))
    for k in range(64):
        U.append(Unit("pow2(%d)" % k, T("pow2"), lambda ex, st, k=k: [C(k)], lambda ex, st, r, a, k=k: ensure_eq(ex, st, r, 2**k, "pow2 = 2^n"), tag="math", rp=(mod, "pow2", [(dec(k, k), "n")], lambda n: str(2**n))))
    for k in range(65):
        def mk(ex, st, k=k): return [var("n", 0, 2**64 - 1), C(k)]
        def post(ex, st, r, a, k=k):
            bits = []; q = a[0]
            for i in range(k):
                q, b = divmod2k(q, 1); bits.append(b)
            ensure_eq(ex, st, r, bits[::-1], "get_bits(%d)" % k)
        U.append(Unit("get_bits(%d)" % k, T("get_bits"), mk, post, tag="math", rp=(mod, "get_bits", [(dec(0, 2**64 - 1), "n"), (dec(k, k), "k")], lambda n, k: "".join(str(n >> i & 1) for i in reversed(range(k))))))
    def mks(ex, st): return [var("n", 0, 2**52)]
    def posts(ex, st, r, a):
        n = a[0]
        for g, w in ((n - r * r, "square_root(n)^2 <= n"), ((r + 1) * (r + 1) - n - 1, "n < (square_root(n)+1)^2")):
            o, how, info = ex.solver.prove_ge0(g, st.pc); ex.record("ensures", w, o, how, info)
    import math
    U.append(Unit("square_root", T("square_root"), mks, posts, tag="math", rp=(mod, "square_root", [(dec(0, 2**52), "n")], lambda n: str(math.isqrt(n)))))
    return U

# ------------------------------------------------------------------------------------------------- circom_reader.rs
class FB:
    """bytes of an .r1cs file whose shape is fixed and whose contents are symbolic"""
    def __init__(s): s.b = []; s.pre = []; s.n = 0
    def num(s, w, v, name):
        if v is None:
            bs = [var("%s.%d" % (name, i), 0, 255) for i in range(w)]
            s.b += bs; return sum((x.scale(1 << 8 * i) for i, x in enumerate(bs)), ZERO)
        s.b += [C(v >> 8 * i & 255) for i in range(w)]; return C(v)
    def raw(s, n, name):
        bs = [var("%s.%d" % (name, i), 0, 255) for i in range(n)]; s.b += bs; return bs
    def coef(s, name, bad=False):
        bs = [var("%s.%d" % (name, i), 0, 255) for i in range(31)] + [var(name + ".31", 128, 255) if bad else var(name + ".31", 0, 127)]
        s.b += bs; return [bs]
def build_file(shape, order=(1, 2, 3), wires=3, over=None, extra=4, bad=None, FB=FB):
    """shape: list of constraints, each a triple of term counts; over: overridden fields; bad: index of a non-canonical coefficient"""
    over = over or {}
    f = FB()
    def g(k, d): return over.get(k, d)
    f.magic = f.num(4, g("magic", 0x73633172), "magic"); ver = f.num(4, g("version", 1), "version")
    f.num(4, g("nsec", len(order)), "nsec")
    res = {}
    for t in order:
        h = FB()
        if t == 1:
            fs = h.num(4, g("field_size", 32), "field_size"); prime = h.raw(32, "prime")
            w = h.num(4, g("n_wires", wires), "n_wires"); o = h.num(4, g("n_pub_out", None), "n_pub_out"); i = h.num(4, g("n_pub_in", None), "n_pub_in")
            p = h.num(4, g("n_prv_in", None), "n_prv_in"); l = h.num(8, g("n_labels", None), "n_labels"); c = h.num(4, g("n_constraints", len(shape)), "n_constraints")
            res["header"] = [fs, prime, w, o, i, p, l, c]
            res["pre"] = C(wires - 1) - o - i
        elif t == 2:
            cons = []; kk = 0
            for ci, tr in enumerate(shape):
                c3 = []
                for vi, n in enumerate(tr):
                    h.num(4, n, "n"); terms = []
                    for ti in range(n):
                        nm = "c%d_%d_%d" % (ci, vi, ti)
                        terms.append([h.num(4, None, nm + ".w"), h.coef(nm + ".f", bad == kk)]); kk += 1
                    c3.append(terms)
                cons.append(c3)
            res["cons"] = cons
        elif t == 3:
            m = []
            for i in range(wires): m.append(h.num(8, 0 if i == 0 and not g("wire0", 0) else None, "map%d" % i))
            res["map"] = m
        else: h.raw(extra, "junk%d" % t)
        f.num(4, t, "t"); f.num(8, g("size%d" % t, len(h.b)), "size%d" % t)
        f.b += h.b
    res["bytes"] = f.b; res["version"] = ver; res["magic"] = f.magic
    return res
SHAPES = [("no constraints", [], 1), ("one empty", [(0, 0, 0)], 1), ("one of 1,1,1", [(1, 1, 1)], 3), ("one of 2,0,1", [(2, 0, 1)], 4), ("one of 0,3,2", [(0, 3, 2)], 2), ("two constraints", [(1, 2, 0), (0, 1, 2)], 5), ("three constraints", [(1, 1, 1), (2, 1, 0), (0, 0, 3)], 3)]
ORDERS = [(1, 2, 3), (2, 1, 3), (3, 2, 1), (2, 3, 1), (1, 3, 2), (3, 1, 2), (4, 1, 2, 3), (1, 7, 2, 9, 3), (2, 3, 1, 5)]
BOUND_R = "file shapes enumerated (section order, constraint and term counts), all contents symbolic"
def reader_units(prog, mod="reader"):
    U = []
    def mkf(build):
        def mk(ex, st):
            r = build(); ex.goal = r
            if "pre" in r and not r.get("nopre"): st.assume(ONE - lt0(st.simp(r["pre"])))
            return [ex.alloc(st, Agg(r["bytes"]))]
        return mk
    def okpost(ex, st, r, a):
        g = ex.goal
        ensure_ok(ex, st, r, [g["version"], g["header"], g["cons"], g["map"]], "parsed file")
    def errpost(ex, st, r, a): ensure_err(ex, st, r, "malformed file")
    def loadpost(ex, st, r, a):
        g = ex.goal; w, o, i = g["header"][2], g["header"][3], g["header"][4]
        ensure_eq(ex, st, r, [[i + o + 1, w - i - o - 1, w, g["cons"]], g["map"]], "loaded constraint system")
    first = [True]
    def unit(name, build, post, tag, fn="reader::parse", rp=None): U.append(Unit(name, fn, mkf(build), post, tag=tag, bounded=BOUND_R, rp=rp))
    good = ("gen", gen_good, lambda b: b.hex()); bad = ("gen", gen_bad, lambda b: b.hex())
    for k, (nm, sh, w) in enumerate(SHAPES):
        for oi, od in enumerate(ORDERS if k in (2, 5) else ORDERS[:1]):
            unit("parse %s, sections %s" % (nm, od), lambda sh=sh, w=w, od=od: build_file(sh, od, w), okpost, "parse", rp=(mod, "parse", [(good, "f")], ref_parse) if oi == 0 and k < 3 else None)
        unit("load %s" % nm, lambda sh=sh, w=w: build_file(sh, (1, 2, 3), w), loadpost, "parse", fn="reader::load", rp=(mod, "load" if k else "loadfile", [(good, "f")], ref_load) if k < 2 else None)
    # malformed
    def no(r): r["nopre"] = True; return r
    rpb = (mod, "parse", [(bad, "f")], ref_parse)
    def badunit(nm, build, rp=None): unit(nm, build, errpost, "bad", rp=rp)
    def neq(r, p, v): r["nopre"] = True; r["pre2"] = ONE - eq0(p - v); return r
    def mk2(build):
        def mk(ex, st):
            r = build(); ex.goal = r
            st.assume(r["pre2"]); return [ex.alloc(st, Agg(r["bytes"]))]
        return mk
    S1 = [(1, 1, 1)]
    U.append(Unit("wrong magic", "reader::parse", mk2(lambda: (lambda r: neq(r, r["magic"], 0x73633172))(build_file(S1, over={"magic": None, "n_pub_in": 1, "n_pub_out": 1}))), errpost, tag="bad", bounded=BOUND_R, rp=rpb))
    U.append(Unit("wrong version", "reader::parse", mk2(lambda: (lambda r: neq(r, r["version"], 1))(build_file(S1, over={"version": None, "n_pub_in": 1, "n_pub_out": 1}))), errpost, tag="bad", bounded=BOUND_R))
    U.append(Unit("wrong field size", "reader::parse", mk2(lambda: (lambda r: neq(r, r["header"][0], 32))(build_file(S1, over={"field_size": None, "n_pub_in": 1, "n_pub_out": 1}))), errpost, tag="bad", bounded=BOUND_R))
    for v in (0, 1, 31, 33, 64, 2**32 - 1):
        badunit("field size %d with a matching section size" % v, lambda v=v: no(build_file(S1, (2, 3, 1), over={"field_size": v, "size1": 32 + v, "n_pub_in": 1, "n_pub_out": 1})))
    U.append(Unit("more public signals than wires", "reader::parse", mk2(lambda: (lambda r: dict(r, pre2=lt0(r["pre"])))(build_file(S1))), errpost, tag="bad", bounded=BOUND_R))
    U.append(Unit("wire 0 not mapped to 0", "reader::parse", mk2(lambda: (lambda r: dict(r, pre2=ONE - eq0(r["map"][0])))(build_file(S1, over={"wire0": 1, "n_pub_in": 1, "n_pub_out": 1}))), errpost, tag="bad", bounded=BOUND_R))
    badunit("no wires", lambda: no(build_file(S1, wires=0)))
    for i in range(3): badunit("non-canonical coefficient %d" % i, lambda i=i: no(build_file(S1, bad=i, over={"n_pub_in": 1, "n_pub_out": 1})))
    for od in [(2, 3), (1, 3), (1, 2), (1,), (), (4, 5)]: badunit("sections %s only" % (od,), lambda od=od: no(build_file(S1, od, over={"n_pub_in": 1, "n_pub_out": 1})))
    for sz in (0, 63, 65, 2**31): badunit("header section size %d" % sz, lambda sz=sz: no(build_file(S1, (2, 3, 1), over={"size1": sz, "n_pub_in": 1, "n_pub_out": 1})))
    for sz in (0, 8, 23, 25, 32): badunit("map section size %d" % sz, lambda sz=sz: no(build_file(S1, (1, 2, 3), over={"size3": sz, "n_pub_in": 1, "n_pub_out": 1})))
    for sz in (2**63, 2**64 - 1, 2**64 - 12): badunit("section size %#x" % sz, lambda sz=sz: no(build_file(S1, (1, 2, 3), over={"size2": sz, "n_pub_in": 1, "n_pub_out": 1})))
    def trunc(n, od):
        r = build_file([(1, 0, 1)], od, 1, over={"n_pub_in": 0, "n_pub_out": 0}); r["nopre"] = True; r["bytes"] = r["bytes"][:n]; return r
    full = len(build_file([(1, 0, 1)], (1, 2, 3), 1)["bytes"])
    for od in ((1, 2, 3), (1, 3, 2), (3, 2, 1)):
        for n in range(full): badunit("sections %s truncated after %d bytes" % (od, n), lambda n=n, od=od: trunc(n, od))
    badunit("one term too few", lambda: no(build_file(S1, (1, 3, 2), over={"n_constraints": 2, "n_pub_in": 1, "n_pub_out": 1})))
    badunit("constraint count 2^32-1", lambda: no(build_file([(0, 0, 0)], (1, 3, 2), over={"n_constraints": 2**32 - 1, "n_pub_in": 1, "n_pub_out": 1})), rp=rpb)
    return U
def gen_good(rng, consts, wires=None):
    nc = rng.choice([0, 1, 1, 2, 3, 5]); w = wires or rng.choice([1, 2, 3, 7, 20])
    pub = rng.randrange(w); o = rng.randrange(pub + 1)
    def u32(): return rng.choice([0, 1, 255, 256, 2**31, 2**32 - 1, rng.getrandbits(32), rng.randrange(w)])
    def coef():
        b = rng.choice([bytes(32), b"\1" + bytes(31), bytes([255] * 31 + [127]), rng.randbytes(32)]); return b[:31] + bytes([b[31] & 127])
    hd = struct.pack("<I", 32) + rng.randbytes(32) + struct.pack("<IIIIQI", w, o, pub - o, u32(), rng.choice([0, 2**64 - 1, rng.getrandbits(64)]), nc)
    cs = b""
    for _ in range(nc):
        for _ in range(3):
            n = rng.choice([0, 0, 1, 1, 2, 3]); cs += struct.pack("<I", n)
            for _ in range(n): cs += struct.pack("<I", u32()) + coef()
    mp = struct.pack("<Q", 0) + b"".join(struct.pack("<Q", rng.getrandbits(rng.choice([3, 32, 64]))) for _ in range(w - 1))
    secs = [(1, hd), (2, cs), (3, mp)]
    if rng.random() < .5: secs.append((rng.choice([0, 4, 5, 2**32 - 1]), rng.randbytes(rng.randrange(9))))
    if rng.random() < .7: rng.shuffle(secs)
    return b"r1cs" + struct.pack("<II", 1, len(secs)) + b"".join(struct.pack("<IQ", t, len(b)) + b for t, b in secs)
def gen_bad(rng, consts):
    b = bytearray(gen_good(rng, consts)); r = rng.random()
    if r < .3: return bytes(b[:rng.randrange(len(b))])
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(b)); i = rng.choice([i, min(i, 40), rng.randrange(min(len(b), 130))])
        b[i] = rng.choice([b[i] ^ (1 << rng.randrange(8)), 0, 255, rng.randrange(256)])
    return bytes(b)
def ref_file(b):
    """reference parser, written from the format description"""
    def rd(fmt, p):
        n = struct.calcsize(fmt)
        if p > len(b) or len(b) - p < n: raise ValueError
        return struct.unpack_from(fmt, b, p) + (p + n,)
    try:
        if b[:4] != b"r1cs": raise ValueError
        ver, ns, p = rd("<II", 4)
        if ver != 1: raise ValueError
        off = {}
        for _ in range(ns):
            t, sz, p = rd("<IQ", p)
            if sz >= 2**63: raise ValueError
            off[t] = (p, sz); p += sz
            if p >= 2**64: raise ValueError
        for t in (1, 2, 3):
            if t not in off: raise ValueError
        p, sz = off[1]
        fs, p = rd("<I", p)
        if fs != 32 or sz != 64: raise ValueError
        prime, w, o, i, prv, lab, nc, p = rd("<32sIIIIQI", p)
        if 1 + o + i > w: raise ValueError
        p, _ = off[2]; cons = []
        for _ in range(nc):
            c = []
            for _ in range(3):
                n, p = rd("<I", p); v = []
                for _ in range(n):
                    wi, f, p = rd("<I32s", p)
                    if f[31] >> 7: raise ValueError
                    v.append((wi, f))
                c.append(v)
            cons.append(c)
        p, sz = off[3]
        if sz != 8 * w or w == 0: raise ValueError
        m = []
        for _ in range(w): x, p = rd("<Q", p); m.append(x)
        if m[0]: raise ValueError
        return dict(fs=fs, prime=prime, w=w, o=o, i=i, prv=prv, lab=lab, nc=nc, cons=cons, map=m)
    except ValueError: return None
def show_cons(cs): return "".join("[%s]" % "|".join(",".join("%d:%s" % (w, f.hex()) for w, f in v) for v in c) for c in cs)
def ref_parse(b):
    f = ref_file(b)
    if f is None: return "ERR"
    return "v1 fs%d p%s w%d o%d i%d s%d l%d c%d %s map[%s]" % (f["fs"], f["prime"].hex(), f["w"], f["o"], f["i"], f["prv"], f["lab"], f["nc"], show_cons(f["cons"]), ",".join(map(str, f["map"])))
def ref_load(b):
    f = ref_file(b)
    return "i%d a%d v%d %s map[%s]" % (1 + f["i"] + f["o"], f["w"] - 1 - f["i"] - f["o"], f["w"], show_cons(f["cons"]), ",".join(map(str, f["map"])))
