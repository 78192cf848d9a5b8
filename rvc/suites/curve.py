"""The two curve-crate fields: what they add to the Montgomery template (powers by an element, square roots, sqrt_ratio, parity, SEC1 representation)."""
from .field import *
from ..field import *
from ..poly import *
from .. import poly as P
from ..exec import *
from ..check import Unit

def k256_contracts(prog, fmq):
    """assumed contracts of the k256 crate's scalar field (same modulus as field_secq)"""
    d = {}
    Z = FieldModel("k256::arithmetic::scalar::Scalar", fmq.p, "k256s")
    def arg(ex, st, v):
        while isinstance(v, Ref): v = ex.load(st, v)
        return v
    def from_repr(ex, st, fn, args):
        n = le_int(ex.seq(st, args[0])[::-1]); return Agg([FE(n.tofield(fmq.p), Z.spec), Agg([lt0(n - fmq.p)])])
    def sqrt(ex, st, fn, args):
        a = arg(ex, st, args[0])
        if not isinstance(a, FE): raise Unsupported("k256 scalar")
        return Agg([FE(k_sqrt(a.p), Z.spec), Agg([issq(a.p)])])
    def to_bytes(ex, st, fn, args):
        a = arg(ex, st, args[0])
        if not isinstance(a, FE): raise Unsupported("k256 scalar")
        return Agg(fmq.bytes_of(FE(a.p, fmq.spec))[::-1])
    def csel(ex, st, fn, args):
        def f(v):
            v = arg(ex, st, v)
            if isinstance(v, FE): return v.p
            w = Z.lift(v) if isinstance(v, Agg) else None
            if w is None and isinstance(v, Agg): return sum((x.scale(1 << 64 * i) for i, x in enumerate(flat(v))), ZERO).tofield(fmq.p)
            if w is None: raise Unsupported("k256 scalar")
            return w.p
        return FE(fite(args[2].f[0], f(args[1]), f(args[0])), Z.spec)
    d["<k256::Scalar as subtle::ConditionallySelectable>::conditional_select"] = csel
    for nm in prog.byname:
        if nm.startswith("<k256::Scalar as ff::PrimeField>::from_repr") or nm.startswith("<k256::arithmetic::scalar::Scalar as ff::PrimeField>::from_repr"): d[nm] = from_repr
        if nm.endswith("Scalar as ff::Field>::sqrt") and "k256" in nm: d[nm] = sqrt
        if "k256" in nm and nm.endswith("Scalar::to_bytes"): d[nm] = to_bytes
    return d
def flat(v):
    if isinstance(v, Poly): return [v]
    return [y for x in v.f for y in flat(x)]
def k_sqrt(a): return Poly.atom(new_atom("sqrt", "felt", key=("ksqrt", a.key())), a.m)
def issq(a): return ONE - feq0(fermat(fpow(a, C((a.m - 1) // 2))) + 1)      # not a non-residue: Euler's criterion

def extra(fm, prog, mod):
    t = fm.ty; p = fm.p; h = (p - 1) // 2
    F = fkind(fm); k = F[1]
    def E(v): return k.enc_val(v)
    U = []
    def add(*a, **kw): U.append(Unit(*a, **kw))
    def rp(op, kinds, f): return (mod, op, kinds, f)
    A1 = [(F, "a")]; A2 = [(F, "a"), (F, "b")]
    # repr: SEC1, big endian
    def mkb(ex, st):
        xs = int_args(ex, 32, 8, pre="b"); ex.goal = (le_int(xs[::-1]),); return args_for(ex, st, [Agg(xs)])
    def post_fb(ex, st, r, a):
        n = ex.goal[0]; v, flag = ctoption(r)
        ensure_bool(ex, st, flag, lt0(n - p), "from_repr: accepted exactly when the big-endian integer is below the modulus")
        ensure_felt(ex, st, fm, v, n.tofield(p), "from_repr: value")
    def or_fb(v):
        n = int.from_bytes(bytes(v), "big"); return "1 " + E(n) if n < p else "0"
    for nm in ("from_sec1",): add(nm, t + "::" + nm, mkb, post_fb, tag="enc", rp=rp("from_repr", [(("bytes", 32, p), "b")], or_fb))
    add("from_repr", "<%s as ff::PrimeField>::from_repr" % t, mkb, post_fb, tag="enc", rp=rp("from_repr", [(("bytes", 32, p), "b")], or_fb))
    def post_tb(ex, st, r, a):
        v = ex.seq(st, r)[::-1]
        ex.record("ensures", "to_repr: 32 bytes", len(v) == 32, "normal form")
        for i, x in enumerate(v): ex.record("ensures", "to_repr: byte %d in range" % i, in_range(x, 0, 255), "interval")
        n = le_int(v)
        rr, how, info = ex.solver.prove_ge0(C(p - 1) - n, st.pc); ex.record("ensures", "to_repr: canonical", rr, how, info)
        rr, how, info = ex.solver.prove_fzero(n.tofield(p) - ex.goal[0], st.pc); ex.record("ensures", "to_repr: encodes the element", rr, how, info)
    for nm, full in (("to_sec1", t + "::to_sec1"), ("to_repr", "<%s as ff::PrimeField>::to_repr" % t)):
        add(nm, full, one_(fm), post_tb, tag="enc", rp=rp("to_repr", A1, lambda a: a.to_bytes(32, "big").hex()))
    # parity
    def post_odd(ex, st, r, a):
        x = ex.goal[0]
        # the canonical integer of a, as the limbs of the element whose Montgomery form it is
        l = fm.spec.limbs(FE(x.scale(fm.spec.Ri), fm.spec)).f[0].f
        q, lo = divmod2k(l[0], 1)
        ensure_int(ex, st, r.f[0], lo, "is_odd: low bit of the canonical representative")
    add("is_odd", "<%s as ff::PrimeField>::is_odd" % t, one_(fm), post_odd, tag="inv", rp=rp("is_odd", A1, lambda a: str(a & 1)))
    # powers by an element
    def mkpe(e):
        def mk(ex, st):
            a = fm.fresh("a"); ex.goal = (a.p, e); return args_for(ex, st, [a, FE(Poly.const(e, p), fm.spec)])
        return mk
    def post_pe(ex, st, r, a): ensure_felt(ex, st, fm, r, fermat(fpow(ex.goal[0], C(ex.goal[1]))), "pow_by_self")
    def mkpes(ex, st):
        a = fm.fresh("a"); e = fm.fresh("e"); ex.goal = (a.p, fm.canon_int(e)); return args_for(ex, st, [a, e])
    add("pow_by_self", t + "::pow_by_self", mkpes, lambda ex, st, r, a: ensure_pow(ex, st, fm, r, *ex.goal), tag="inv", rp=rp("pow_by_self", A2, lambda a, b: E(pow(a, b, p))))
    # square root
    def mksq(ns):
        def mk(ex, st):
            a = fm.fresh("a"); ex.goal = (a.p,); c = issq(a.p)
            st.assume(c if not ns else ONE - c)
            return args_for(ex, st, [a])
        return mk
    def post_sqrt(ex, st, r, a):
        v, f = ctoption(r); x = ex.goal[0]
        ensure_bool(ex, st, st.simp(f), ONE, "sqrt: a square has a square root")
        v = fm.canon(ex, st, v, "sqrt"); sq = k_sqrt(x)
        if t.endswith("field_secp::FieldElement"): ensure_felt(ex, st, fm, FE(fermat(v.p * v.p), fm.spec), fermat(x * fpow(x, C(h))), "sqrt: the square of the result is a times its Legendre symbol")
        else: ensure_felt(ex, st, fm, v, sq, "sqrt: value is k256's square root")
    def post_nsq(ex, st, r, a):
        ensure_bool(ex, st, st.simp(ctoption(r)[1]), ZERO, "sqrt: a non-residue has no square root")
    def chk_sqrt(a, out):
        sq = a == 0 or pow(a, h, p) == 1
        if not sq: return out == "0"
        return out.startswith("1 ") and k.dec(out[2:]) ** 2 % p == a
    def issqc(a): return a == 0 or pow(a, h, p) == 1
    add("sqrt", "<%s as ff::Field>::sqrt" % t, mksq(False), post_sqrt, tag="inv", rp=rp("sqrt", A1, lambda a: (lambda o: chk_sqrt(a, o)) if issqc(a) else None))
    add("sqrt of a non-residue", "<%s as ff::Field>::sqrt" % t, mksq(True), post_nsq, tag="inv", rp=rp("sqrt", A1, lambda a: "0" if not issqc(a) else None))
    for nm, full, f in (("Field::square", "square", lambda a: a * a), ("Field::double", "double", lambda a: a + a), ("cube", "cube", lambda a: a * a * a)):
        add(nm, "<%s as ff::Field>::%s" % (t, full), one_(fm), felt_post(fm, f, nm), tag="ops", rp=rp("f_" + full, A1, (lambda f: lambda a: E(f(a)))(f)))
    add("Field::is_zero", "<%s as ff::Field>::is_zero" % t, one_(fm), lambda ex, st, r, a: ensure_bool(ex, st, r.f[0], feq0(ex.goal[0]), "is_zero"), tag="ops", rp=rp("f_is_zero", A1, lambda a: str(int(a == 0))))
    add("is_zero_vartime", "<%s as ff::Field>::is_zero_vartime" % t, one_(fm), lambda ex, st, r, a: ensure_bool(ex, st, r, feq0(ex.goal[0]), "is_zero_vartime"), tag="ops", rp=rp("is_zero_vartime", A1, lambda a: str(int(a == 0))))
    for nm, v in (("zero", 0), ("one", 1)):
        add("Field::" + nm, "<%s as ff::Field>::%s" % (t, nm), lambda ex, st: [], (lambda v: lambda ex, st, r, a: ensure_felt(ex, st, fm, r, Poly.const(v, p), "constant"))(v), tag="ops", rp=rp("f_" + nm, [], (lambda v: lambda: E(v))(v)))
    def post_finv(ex, st, r, a):
        v, f = ctoption(r); x = ex.goal[0]
        ensure_bool(ex, st, f, ONE - feq0(x), "Field::invert: defined exactly for nonzero elements")
        ensure_felt(ex, st, fm, v, P.finv(x), "Field::invert: value")
    add("Field::invert", "<%s as ff::Field>::invert" % t, one_(fm), post_finv, tag="inv", rp=rp("f_invert", A1, lambda a: "1 " + E(pow(a, -1, p)) if a else "0"))
    # prime-field constants
    def post_params(ex, st, r, a):
        nb, cap, S, g, w = r.f
        s = ((p - 1) & -(p - 1)).bit_length() - 1
        ensure_int(ex, st, nb, C(p.bit_length()), "NUM_BITS"); ensure_int(ex, st, cap, C(p.bit_length() - 1), "CAPACITY"); ensure_int(ex, st, S, C(s), "S is the two-adicity of p-1")
        gv = fm.lift(g); wv = fm.lift(w)
        ok = gv is not None and gv.p.is_const() and pow(gv.p.cval(), h, p) == p - 1
        ex.record("ensures", "multiplicative_generator is a quadratic non-residue", ok, "computed")
        ok2 = wv is not None and wv.p.is_const() and pow(wv.p.cval(), 1 << s, p) == 1 and pow(wv.p.cval(), 1 << (s - 1), p) == p - 1
        ex.record("ensures", "root_of_unity has order 2^S", ok2, "computed")
    def chk_params(o):
        w = o.split(" "); s = ((p - 1) & -(p - 1)).bit_length() - 1; g, r = k.dec(w[3]), k.dec(w[4])
        return [int(x) for x in w[:3]] == [p.bit_length(), p.bit_length() - 1, s] and pow(g, h, p) == p - 1 and pow(r, 1 << s, p) == 1 and pow(r, 1 << (s - 1), p) == p - 1
    add("prime-field constants", "rvc_roots::%s::params" % mod, lambda ex, st: [], post_params, tag="inv", rp=rp("params", [], lambda: chk_params))
    # sqrt_ratio: RFC 9380 F.2.1
    c1 = ((p - 1) & -(p - 1)).bit_length() - 1
    def mkr(ex, st):
        u = fm.fresh("u"); v = fm.fresh("v"); ex.goal = (u.p, v.p)
        return [ex.alloc(st, u), ex.alloc(st, v)]
    def post_r(ex, st, r, a): ratio_post(fm, ex, st, r, c1)
    Z = SWU_Z(p)
    def or_ratio(u, v):
        if v == 0: return None
        def chk(o):
            f, y = o.split(" "); y = k.dec(y); q = u * inv_(v, p) % p
            if u == 0: return y == 0
            return f == ("1" if pow(q, h, p) == 1 else "0") and y * y * v % p == (u if f == "1" else Z * u % p)
        return chk
    add("sqrt_ratio", "<%s as field::SqrtRatio>::sqrt_ratio" % t, mkr, post_r, tag="inv", rp=rp("sqrt_ratio", A2, or_ratio))
    return U

def ratio_post(fm, ex, st, r, c1):
    """for v != 0: flag = [u/v is a nonzero square], y^2 v = u when flag, y^2 v = Z u otherwise with Z a fixed non-residue, for every u (u = 0 gives y = 0)"""
    p = fm.p; h = (p - 1) // 2
    u, v = ex.goal
    flag, y = r.f[0].f[0], fm.canon(ex, st, r.f[1], "sqrt_ratio").p
    Z = SWU_Z(p)
    ua = [a for a, _ in list(u.t)[0]][0]; va = [a for a, _ in list(v.t)[0]][0]
    def nv(q):                                   # v != 0 : v^0 = 1
        q = fermat(fnorm(q))
        return Poly_nz(q, (va,))
    # u = 0
    def sub0(q): return fnorm(deep(q, {ua: Poly.const(0, p)}, None, (va,)))
    f0, y0 = sub0(flag), sub0(y)
    ex.record("ensures", "sqrt_ratio: u = 0 gives y = 0", y0.is_zero(), "normal form", str(y0)[:200])
    # u, v != 0: T = (u/v)^((p-1)/2^c1) = u^m v^(-m) is a 2^c1-th root of unity; the polynomial X^(2^c1) - 1 splits, so T is one of the known roots
    m = (p - 1) >> c1
    w = pow(Z, m, p)                              # Z a non-residue: w has order exactly 2^c1
    assert pow(w, 1 << (c1 - 1), p) == p - 1
    lead = (ua, va)
    for j in range(1 << c1):
        Tj = pow(w, j, p)
        fj = deep(flag, {}, (ua, va, m, Tj, c1, p), (ua, va)); yj = deep(y, {}, (ua, va, m, Tj, c1, p), (ua, va))
        sq = j % 2 == 0
        ex.record("ensures", "sqrt_ratio: flag when (u/v)^m = w^%d" % j, fj.is_const() and fj.cval() == int(sq), "case split over the roots of X^(2^c1)-1", str(fj)[:120])
        goal = red_root(Poly_nz(fermat(fnorm(yj * yj * v - (u if sq else u.scale(Z)))), (ua, va)), (ua, va, m, Tj, c1, p))
        ex.record("ensures", "sqrt_ratio: y^2 v = %s when (u/v)^m = w^%d" % ("u" if sq else "Z u", j), goal.is_zero(), "case split over the roots of X^(2^c1)-1", str(goal)[:200])
def SWU_Z(p):
    z = {PSECP: p - 11, NSECP: NSECP - 14}.get(p)
    return z
def Poly_nz(q, nz):
    """drop x^0 factors for atoms known to be nonzero"""
    out = {}
    for k, c in q.t.items():
        kk = tuple((a, e) for a, e in k if not (a in nz and isinstance(e, int) and e == 0))
        out[kk] = (out.get(kk, 0) + c) % q.m
    return Poly({k: c for k, c in out.items() if c}, q.m)
def red_root(q, rule):
    """rewrite with u^m = T v^m (T a constant): exponents of u into [0, m), pushing the rest to v"""
    ua, va, m, T, c1, p = rule
    out = {}
    for k, c in q.t.items():
        d = dict(k); eu = d.get(ua, 0); ev = d.get(va, 0)
        if not isinstance(eu, int) or not isinstance(ev, int): raise Unsupported("exponent")
        n = eu // m
        eu -= n * m; ev = (ev + n * m) % (p - 1); c = c * pow(T, n, p) % p
        d.pop(ua, None); d.pop(va, None)
        if eu: d[ua] = eu
        if ev: d[va] = ev
        kk = tuple(sorted(d.items())); out[kk] = (out.get(kk, 0) + c) % p
    return Poly({k: c for k, c in out.items() if c}, p)
def deep(q, mp, rule, nz):
    """substitute, also inside the definitions of the comparisons the polynomial mentions"""
    sub = {}
    for a in q.atoms():
        A = ATOMS[a]
        if a in mp: sub[a] = mp[a]
        elif A.kind == "feq0":
            d = deep(A.defn, mp, rule, nz)
            d = Poly_nz(fermat(fnorm(d)), nz)
            if rule: d = red_root(d, rule)
            x = feq0(d)
            sub[a] = Poly.const(x.cval(), q.m) if x.is_const() and q.m else (x.tofield(q.m) if q.m else x)
        elif A.kind == "fpow" or A.kind == "fbase":
            d = deep(A.defn, mp, rule, nz); d = Poly_nz(fermat(fnorm(d)), nz)
            if rule: d = red_root(d, rule)
            es = {e for k in q.t for x, e in k if x == a}
            q = repl_pow(q, a, d)
            return deep(q, mp, rule, nz)
    if sub: q = q.subst(sub)
    if q.m:
        q = Poly_nz(fermat(fnorm(q)), nz)
        if rule: q = red_root(q, rule)
    return q
def repl_pow(q, a, d):
    out = Poly({}, q.m)
    for k, c in q.t.items():
        r = Poly.const(c, q.m); rest = []
        for x, e in k:
            if x == a: r = r * (fpow(d, C(e)) if e >= 0 else P.finv(fpow(d, C(-e))))
            else: rest.append((x, e))
        out = out + r * Poly({tuple(rest): 1}, q.m)
    return out
def inv_(x, p): return pow(x, -1, p) if x % p else 0
