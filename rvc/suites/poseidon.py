"""P01: the Poseidon hash of packages/poseidon, for all inputs.

The S-box is carried by congruence: powers of a state element are opaque terms named by the element's normal form, so the
64 rounds stay linear and the value computed is compared with the specification's by normal form.  The parameters the code
uses are compared with the ones the Grain generator of the Poseidon specification yields for (GF(p), x^5, n=256, t=3, 8, 56)."""
from ..field import *
from ..poly import *
from ..exec import *
from ..check import Unit
from ..builtins import *
P = PSECP
def grain(RF=8, RP=56):
    s = [int(c) for c in format(1, '02b') + format(0, '04b') + format(256, '012b') + format(3, '012b') + format(RF, '010b') + format(RP, '010b') + '1' * 30]
    def step():
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]; s.pop(0); s.append(b); return b
    for _ in range(160): step()
    def bit():
        while not step(): step()
        return step()
    def num(): return int(''.join(str(bit()) for _ in range(256)), 2)
    rc = []
    while len(rc) < 3 * (RF + RP):
        x = num()
        if x < P: rc.append(x)
    while 1:
        r = [num() % P for _ in range(6)]
        if len(set(r)) == 6: return rc, [[pow(r[i] + r[3 + j], -1, P) for j in range(3)] for i in range(3)]
RC, MDS = grain()
def reference(a, b, sbox=lambda x: pow(x, 5, P), rc=RC, mds=MDS, rf=8, rp=56, red=lambda x: x % P, dom=3):
    """the permutation on (2^2 - 1, a, b); element 1 of the result"""
    s = [dom, a, b]
    for r in range(rf + rp):
        s = [red(s[i] + rc[3 * r + i]) for i in range(3)]
        full = r < rf // 2 or r >= rf // 2 + rp
        s = [sbox(s[0])] + ([sbox(s[1]), sbox(s[2])] if full else s[1:])
        s = [red(mds[i][0] * s[0] + mds[i][1] * s[1] + mds[i][2] * s[2]) for i in range(3)]
    return s[1]
TAB = {}
def power(q, e):
    if q.is_const(): return Poly.const(pow(q.cval(), e, P), P)
    if e == 0: return Poly.const(1, P)
    if e == 1: return q
    b, k = TAB.get(q.key(), (q, 1))
    r = Poly.atom(new_atom("pw%d" % (k * e), "felt", key=("felt", "pw", b.key(), k * e)), P)
    TAB[r.key()] = (b, k * e); return r
def times(a, b):
    if a.is_const() or b.is_const(): return a * b
    ba, ka = TAB.get(a.key(), (a, 1)); bb, kb = TAB.get(b.key(), (b, 1))
    if ba.key() == bb.key(): return power(ba, ka + kb)
    return a * b
def contracts(prog, fm):
    cs = fm.contracts(); t = fm.ty
    def val(ex, st, v): return fm.canon(ex, st, fm.arg(ex, st, v), "operand").p
    old = {k: cs[k] for k in cs}
    cs[t + "::mul"] = lambda ex, st, fn, a: fm.fe(times(val(ex, st, a[0]), val(ex, st, a[1])))
    cs[t + "::square"] = lambda ex, st, fn, a: fm.fe(power(val(ex, st, a[0]), 2))
    cs["<%s as ff::Field>::square" % t] = cs[t + "::square"]
    def pw(ex, st, fn, a):
        e = fm.arg(ex, st, a[1])
        l = e.f
        if not all(isinstance(x, Poly) and x.is_const() for x in l): raise Unsupported("pow with a symbolic exponent")
        return fm.fe(power(val(ex, st, a[0]), sum(x.cval() << 64 * i for i, x in enumerate(l))))
    for f in prog.fns.values():
        n = strip_crate(f["name"])
        if "pow_vartime" in n and t in n: cs[n] = pw
        if "from_str_vartime" in n and t in n:
            def parse(ex, st, fn, a):
                v = fm.arg(ex, st, a[0])
                s = bytes(x.cval() for x in v.f)
                ok = s == b"0" or (s[:1] not in (b"0", b"")) and s.isdigit()
                return Enum(Poly.const(1 if ok else 0), {0: (), 1: (fm.fe(Poly.const(int(s or b"0") % P if ok else 0, P)),)})
            cs[n] = parse
        if n.endswith("as std::ops::Deref>::deref") and "k256_consts" in n: cs[n] = lazy(n)
    return cs
def lazy(n):
    init = n + "::__static_ref_initialize"
    def d(ex, st, fn, a):
        fid = next((i for i, f in ex.prog.fns.items() if strip_crate(f["name"]).endswith("__static_ref_initialize") and strip_crate(f["name"]).startswith(n[:-1].split(" as ")[0])), None)
        if fid is None: raise Unsupported("initialiser of " + n)
        c = getattr(ex, "lazyc", None)
        if c is None: c = ex.lazyc = {}
        if n not in c: c[n] = ex.run_fn(st, fid, ex.prog.fns[fid], [])
        return ex.alloc(st, c[n])
    return d
def units(prog, fm):
    us = []; R = "rvc_roots::"
    def fr(n): return fm.fresh(n)
    def sb(rc=RC, mds=MDS, rf=8, rp=56, konst=lambda x: Poly.const(x, P)):
        def red(x): return x
        rc = [konst(x) for x in rc]; mds = [[konst(x) for x in r] for r in mds]
        return lambda a, b: reference(a, b, sbox=lambda x: power(x, 5), rc=rc, mds=mds, rf=rf, rp=rp, red=red, dom=Poly.const(3, P))
    def add(name, fn, names, post, rp=None, mk=None, **k):
        def mk_(ex, st):
            TAB.clear(); ex.v = [fr(n) for n in names]; return mk(ex, st) if mk else ex.v
        us.append(Unit(name, R + fn, mk_, post, tag="ps", rp=rp, **k))
    def p1(ex, st, r, a): ensure_felt(ex, st, fm, r, sb()(a[0].p, a[1].p), "digest")
    from .. import concrete as K; fe = lambda *n: [(("fe", K.Fk(P, 0, 4)), x) for x in n]
    h = lambda x: "%064x" % x
    le = lambda x: x.to_bytes(32, "little").hex()
    add("the secp256k1 instance", "k256", ["a", "b"], p1, ("ps", "k256", fe("a", "b"), lambda a, b: le(reference(a, b))))
    def p2(ex, st, r, a):
        ensure_felt(ex, st, fm, r.f[0], sb()(a[0].p, a[1].p), "first digest"); ensure_felt(ex, st, fm, r.f[1], sb()(a[2].p, a[3].p), "second digest")
    add("one instance used twice", "twice", ["a", "b", "c", "d"], p2, ("ps", "twice", fe("a", "b", "c", "d"), lambda a, b, c, d: le(reference(a, b)) + " " + le(reference(c, d))))
    def p3(ex, st, r, a): ensure_felt(ex, st, fm, r, sb()(ex.v[3].p, ex.v[4].p), "digest")
    add("any leftover state", "left", ["s0", "s1", "s2", "a", "b"], p3, ("ps", "left", fe("s0", "s1", "s2", "a", "b"), lambda s, t, u, a, b: le(reference(a, b))), mk=lambda ex, st: [Agg(ex.v[:3]), ex.v[3], ex.v[4]])
    def p4(rf, rp):
        n = 3 * (rf + rp)
        names = ["m%d" % i for i in range(9)] + ["k%d" % i for i in range(n)] + ["a", "b"]
        def mk(ex, st):
            v = ex.v
            return [VecV(v[9:9 + n]), VecV([VecV(v[3 * i:3 * i + 3]) for i in range(3)]), Poly.const(rf), Poly.const(rp), v[-2], v[-1]]
        def post(ex, st, r, a):
            v = [x.p for x in ex.v]
            want = sb(v[9:9 + n], [v[0:3], v[3:6], v[6:9]], rf, rp, lambda x: x)(v[-2], v[-1])
            ensure_felt(ex, st, fm, r, want, "digest")
        rpl = None
        if (rf, rp) == (2, 1): rpl = ("ps", "any", fe(*names), lambda *v: le(reference(v[-2], v[-1], rc=v[9:18], mds=[v[0:3], v[3:6], v[6:9]], rf=2, rp=1)))
        add("any constants, %d full and %d partial rounds" % (rf, rp), "any", names, post, rpl, mk=mk, bounded="round counts; every matrix, key and input")
    for x in ((0, 0), (0, 1), (2, 0), (2, 1), (2, 2), (4, 2)): p4(*x)
    return us
