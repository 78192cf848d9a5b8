"""Spartan (packages/Spartan-secq): shared vocabulary of the libspartan suites"""
import itertools
from .field import *
from ..field import *
from ..poly import *
from .. import poly as P
from ..exec import *
from .. import exec as X
from ..check import Unit
from .. import concrete as K

T = "scalar::scalar::Scalar"
p = PSECP
class Lib:
    """values of libspartan's types, by field name"""
    def __init__(s, prog, fm):
        s.prog = prog; s.fm = fm; s.byd = {}
        for t in prog.tys:
            if t["k"] == "adt" and t.get("kind") == "struct": s.byd.setdefault(strip_crate(t["name"]), t)
    def mk(s, ty, **kw):
        t = s.byd.get(ty)
        if t is None: raise Unsupported("type %s not found" % ty)
        names = t["v"][0]["fn"]
        if set(names) != set(kw): raise Unsupported("fields of %s are %s" % (ty, names))
        return Agg([kw[n] for n in names])
    def get(s, ty, v, name):
        t = s.byd.get(ty)
        names = t["v"][0]["fn"] if t else []
        if name not in names: raise Unsupported("no field %s in %s" % (name, ty))
        if isinstance(v, Phi): return merge_val(v.c, s.get(ty, v.a, name), s.get(ty, v.b, name))
        if not isinstance(v, Agg): raise Unsupported("%s value %s" % (ty, type(v).__name__))
        return v.f[names.index(name)]
    def S(s, name): return s.fm.fresh(name)
    def Ss(s, name, n): return [s.fm.fresh("%s%d" % (name, i)) for i in range(n)]
    def c(s, n): return FE(Poly.const(n % p, p), s.fm.spec)
    def dense(s, zs, num_vars=None, ln=None):
        n = len(zs)
        return s.mk("dense_mlpoly::DensePolynomial", num_vars=C((n.bit_length() - 1) if num_vars is None else num_vars), len=C(n if ln is None else ln), Z=VecV(zs))
    def eq(s, r): return s.mk("dense_mlpoly::EqPolynomial", r=VecV(r))
F1 = Poly.const(1, p); F0 = Poly.const(0, p)
def ref(ex, st, v): return ex.alloc(st, v)
def sl(ex, st, v):
    """a slice argument"""
    return ex.alloc(st, Agg(v))
def Q(xs): return [x.p for x in xs]
def seqof(ex, st, v):
    while isinstance(v, Ref): v = ex.load(st, v)
    if isinstance(v, (Agg, VecV)): return list(v.f)
    raise Unsupported("sequence %s" % type(v).__name__)
def feq(ex, st, fm, got, want, what):
    ensure_felt(ex, st, fm, got, want, what)
def list_eq(ex, st, fm, v, want, what):
    xs = seqof(ex, st, v)
    ex.record("ensures", what + ": length %d" % len(want), len(xs) == len(want), "normal form (%d)" % len(xs))
    for i, (a, b) in enumerate(zip(xs, want)): feq(ex, st, fm, a, b, "%s[%d]" % (what, i))
# ---- specification over any commutative ring (polys or ints mod p)
def chi(bits, r, one):
    x = one
    for b, y in zip(bits, r): x = x * (y if b else one - y)
    return x
def eq_table(r, one):
    n = len(r)
    return [chi([(i >> (n - 1 - j)) & 1 for j in range(n)], r, one) for i in range(1 << n)]
def dot(a, b, zero):
    t = zero
    for x, y in zip(a, b): t = t + x * y
    return t
# ---- concrete side
def enc(v): return "".join((x % p).to_bytes(32, "little").hex() for x in v) or "-"
def e1(v): return (v % p).to_bytes(32, "little").hex()
def rsc(rng):
    r = rng.random()
    if r < .15: return rng.choice([0, 1, 2, p - 1, p - 2, (p + 1) // 2, 2**64, 2**128 - 1])
    if r < .4: return rng.randrange(64)
    return rng.randrange(p)
def gl(n):
    """list of n scalars; n an int or a list of choices"""
    f = lambda rng, consts: [rsc(rng) for _ in range(n if isinstance(n, int) else rng.choice(list(n)))]
    return ("gen", f, enc)
def gs(): return ("gen", lambda rng, consts: rsc(rng), e1)
def gx(f, en): return ("gen", lambda rng, consts: f(rng), en)
