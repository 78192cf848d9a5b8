"""secq256k1::Scalar: the wrapper around elliptic-curve's ScalarCore, executed down through crypto-bigint's limb code."""
from .field import *
from ..field import *
from ..poly import *
from .. import poly as P
from ..exec import *
from ..check import Unit

T = "scalar::Scalar"
def mk_scalar(limbs): return Agg([Agg([Agg([Agg([Agg([x]) for x in limbs])])])])
def flat(v):
    if isinstance(v, Poly): return [v]
    if isinstance(v, (Agg, VecV)): return [y for x in v.f for y in flat(x)]
    if isinstance(v, Phi):
        a, b = flat(v.a), flat(v.b); return [merge_val(v.c, x, y) for x, y in zip(a, b)]
    raise Unsupported("scalar shape %s" % type(v).__name__)
def int_of(v):
    l = flat(v)
    if len(l) != 4: raise Unsupported("scalar has %d words" % len(l))
    return l, sum((x.scale(1 << 64 * i) for i, x in enumerate(l)), ZERO)
def fresh(p, n):
    ats = [Poly.atom(new_atom("%s%d" % (n, i), "var", 0, 2**64 - 1)) for i in range(4)]
    I = sum((x.scale(1 << 64 * i) for i, x in enumerate(ats)), ZERO)
    FACTS.append(("ge0", C(p - 1) - I, "canonical " + n))
    return mk_scalar(ats), I
def ensure(ex, st, p, v, goal, what):
    """v is the canonical scalar congruent to goal (an integer polynomial)"""
    l, I = int_of(v)
    known = {}
    for a in sorted({a for x in l for a in x.atoms() if ATOMS[a].kind in ("lt0", "lt")}):      # comparisons the precondition decides
        b = Poly.atom(ATOMS[a]).subst(known) if known else Poly.atom(ATOMS[a])
        if ex.valid(st, b): known[a] = ONE
        elif ex.valid(st, ONE - b): known[a] = ZERO
    if known:
        l = [x.subst(known) for x in l]; I = sum((x.scale(1 << 64 * i) for i, x in enumerate(l)), ZERO)
    for i, x in enumerate(l):
        if in_range(x, 0, 2**64 - 1): ex.record("ensures", what + ": word %d in range" % i, True, "interval"); continue
        for q in (x, C(2**64 - 1) - x):
            r, how, info = ex.solver.prove_ge0(q, st.pc); ex.record("ensures", what + ": word %d in range" % i, r, how, info)
    r, how, info = ex.solver.prove_ge0(C(p - 1) - I, st.pc); ex.record("ensures", what + ": below the modulus", r, how, info)
    r, how, info = ex.solver.prove_fzero(I.tofield(p) - (goal.tofield(p) if goal.m is None else goal), st.pc); ex.record("ensures", what + ": value", r, how, info)

def contracts(prog):
    """assumed contracts of crypto-bigint 256-bit integers: ordering, modular addition / negation (operands below the modulus), byte order"""
    sp = FSpec("U256modp", PSECP); sp.R = 1; sp.Ri = 1
    def arg(ex, st, v):
        while isinstance(v, Ref): v = ex.load(st, v)
        return v
    def lt(ex, st, fn, args):
        a, b = [int_of(arg(ex, st, x))[1] for x in args]
        return lt0(a - b)
    def modop(f, what):
        def g(ex, st, fn, args):
            vs = [int_of(arg(ex, st, x))[1] for x in args]
            m = vs[-1]
            if not (m.is_const() and m.cval() == PSECP): raise Unsupported(what + " with another modulus")
            for v in vs[:-1]:
                r, how, info = ex.solver.prove_ge0(C(PSECP - 1) - v, st.pc); ex.record("requires", what + ": operand below the modulus", r, how, info)
            fe = FE(f(*[v.tofield(PSECP) for v in vs[:-1]]), sp)
            l = sp.limbs(fe).f[0].f[:4]
            return Agg([Agg([Agg([x]) for x in l])])
        return g
    def wr(be):
        def g(ex, st, fn, args):
            l = flat(arg(ex, st, args[0])); out = []
            for x in l:
                for i in range(7): x, lo = divmod2k(x, 8); out.append(lo)
                out.append(x)
            return Agg(out[::-1] if be else out)
        return g
    d = {"<crypto_bigint::UInt<4> as std::cmp::PartialOrd>::lt": lt, "<UInt<4> as std::cmp::PartialOrd>::lt": lt}
    for nm in prog.byname:
        if nm.endswith("AddMod for crypto_bigint::UInt<4>>::add_mod"): d[nm] = modop(lambda a, b: a + b, "add_mod")
        if nm.endswith("NegMod for crypto_bigint::UInt<4>>::neg_mod"): d[nm] = modop(lambda a: -a, "neg_mod")
        if nm.endswith("::to_le_byte_array") and "ArrayEncoding" in nm: d[nm] = wr(False)
        if nm.endswith("::to_be_byte_array") and "ArrayEncoding" in nm: d[nm] = wr(True)
        if nm.endswith("crypto_bigint::Encoding>::to_le_bytes") and nm.startswith("<crypto_bigint::UInt<"): d[nm] = wr(False)
    return d
def units(prog, fm, mod="sc"):
    p = fm.p; U = []
    def add(*a, **kw): U.append(Unit(*a, **kw))
    S = ("fe", K.Fk(p, 0, 4))
    def E(v): return (v % p).to_bytes(32, "little").hex()
    def mk(n):
        def f(ex, st):
            vs = [fresh(p, "ab"[i]) for i in range(n)]
            ex.goal = tuple(I for _, I in vs); return args_for(ex, st, [v for v, _ in vs])
        return f
    A1 = [(S, "a")]; A2 = [(S, "a"), (S, "b")]
    for tr, m, f in (("Add", "add", lambda a, b: a + b), ("Sub", "sub", lambda a, b: a - b), ("Mul", "mul", lambda a, b: a * b)):
        for rhs in (T, "&" + T):
            for nm in trait_names(prog, T, tr, m, rhs, T):
                add("%s %s" % (tr, short(rhs)), nm, mk(2), (lambda f, tr: lambda ex, st, r, a: ensure(ex, st, p, r, f(*[x.tofield(p) for x in ex.goal]), tr))(f, tr), tag="sc", rp=(mod, "op_%s_v%s" % (m, "r" if rhs[0] == "&" else "v"), A2, (lambda f: lambda a, b: E(f(a, b)))(f)))
            for nm in trait_names(prog, T, tr + "Assign", m + "_assign", rhs, T):
                add("%sAssign %s" % (tr, short(rhs)), nm, mk(2), (lambda f, tr: lambda ex, st, r, a: ensure(ex, st, p, ex.load(st, a[0]), f(*[x.tofield(p) for x in ex.goal]), tr + "Assign"))(f, tr), tag="sc", rp=(mod, "%s_assign_%s" % (m, "r" if rhs[0] == "&" else "v"), A2, (lambda f: lambda a, b: E(f(a, b)))(f)))
    for nm, full, f in (("neg", "<%s as std::ops::Neg>::neg" % T, lambda a: -a), ("double", "<%s as ff::Field>::double" % T, lambda a: a + a)):
        add(nm, full, mk(1), (lambda f, nm: lambda ex, st, r, a: ensure(ex, st, p, r, f(ex.goal[0]), nm))(f, nm), tag="sc", rp=(mod, nm, A1, (lambda f: lambda a: E(f(a)))(f)))
    for nm, v in (("zero", 0), ("one", 1)):
        add(nm, "<%s as ff::Field>::%s" % (T, nm), lambda ex, st: [], (lambda v: lambda ex, st, r, a: ensure(ex, st, p, r, C(v), "constant"))(v), tag="sc")
    def iff_int(ex, st, b, x, y, what):
        ensure_bool(ex, st, b, eq0(x - y), what)
    add("ct_eq", "<%s as subtle::ConstantTimeEq>::ct_eq" % T, mk(2), lambda ex, st, r, a: eq_post(ex, st, r.f[0], a), tag="sc", rp=(mod, "ct_eq", A2, lambda a, b: str(int(a == b))))
    def eq_post(ex, st, b, a):
        la = flat(ex.load(st, a[0])); lb = flat(ex.load(st, a[1]))
        allq = ONE
        for x, y in zip(la, lb): allq = allq * eq0(x - y)
        ensure_bool(ex, st, b, allq, "true exactly when every word agrees (canonical: exactly when the scalars are equal)")
    add("is_zero", "<%s as ff::Field>::is_zero" % T, mk(1), lambda ex, st, r, a: zero_post(ex, st, r.f[0], a), tag="sc", rp=(mod, "is_zero", A1, lambda a: str(int(a == 0))))
    def zero_post(ex, st, b, a):
        q = ONE
        for x in flat(ex.load(st, a[0])): q = q * eq0(x)
        ensure_bool(ex, st, b, q, "is_zero")
    add("is_odd", "<%s as ff::PrimeField>::is_odd" % T, mk(1), lambda ex, st, r, a: ensure_int(ex, st, r.f[0], divmod2k(flat(ex.load(st, a[0]))[0], 1)[1], "is_odd"), tag="sc", rp=(mod, "is_odd", A1, lambda a: str(a & 1)))
    # bytes
    def mkb(ex, st):
        xs = int_args(ex, 32, 8, pre="b"); ex.goal = (le_int(xs[::-1]),); return args_for(ex, st, [Agg(xs)])
    def post_fr(ex, st, r, a):
        n = ex.goal[0]; v, flag = ctoption(r)
        ensure_bool(ex, st, flag, lt0(n - p), "from_repr: accepted exactly below the modulus")
        s2 = st.fork(); s2.assume(lt0(n - p)); ensure(ex, s2, p, s2.simp(v) if isinstance(v, Poly) else v, n, "from_repr")
    def or_fr(v):
        n = int.from_bytes(bytes(v), "big"); return "1 " + E(n) if n < p else "0"
    add("from_repr", "<%s as ff::PrimeField>::from_repr" % T, mkb, post_fr, tag="sc", rp=(mod, "from_repr", [(("bytes", 32, p), "b")], or_fr))
    def post_tb(be):
        def f(ex, st, r, a):
            v = ex.seq(st, r); v = v[::-1] if be else v
            ex.record("ensures", "32 bytes", len(v) == 32, "normal form")
            for i, x in enumerate(v): ex.record("ensures", "byte %d in range" % i, in_range(x, 0, 255), "interval")
            ensure_int(ex, st, le_int(v), ex.goal[0], "the bytes denote the scalar")
        return f
    add("to_repr", "<%s as ff::PrimeField>::to_repr" % T, mk(1), post_tb(True), tag="sc", rp=(mod, "to_repr", A1, lambda a: a.to_bytes(32, "big").hex()))
    add("to_bytes", T + "::to_bytes", mk(1), post_tb(False), tag="sc", rp=(mod, "to_bytes", A1, lambda a: a.to_bytes(32, "little").hex()))
    for w, t in ((64, "u64"), (32, "u32")):
        def mku(ex, st, w=w): x = int_args(ex, 1, w)[0]; ex.goal = (x,); return [x]
        add("From<%s>" % t, "<%s as std::convert::From<%s>>::from" % (T, t), mku, lambda ex, st, r, a: ensure(ex, st, p, r, ex.goal[0], "From"), tag="sc", rp=(mod, "from_" + t, [("u64", "x")], (lambda w: lambda x: E(x % 2**w))(w)))
    # reduction of a 256-bit integer
    def mkr(ex, st):
        xs = int_args(ex, 4); ex.goal = (sum((x.scale(1 << 64 * i) for i, x in enumerate(xs)), ZERO),)
        return [Agg([Agg([Agg([x]) for x in xs])])]
    for nm in [n for n in prog.byname if n.startswith("<%s as elliptic_curve::ops::Reduce<" % T) and n.endswith("from_uint_reduced")]:
        add("from_uint_reduced", nm, mkr, lambda ex, st, r, a: ensure(ex, st, p, r, ex.goal[0], "from_uint_reduced"), tag="sc", rp=(mod, "reduce", [(("words", 4, p), "w")], E))
    def post_try(ex, st, r, a):
        if isinstance(r, Phi): r = merge_enum(r)
        n = ex.goal[0]
        ensure_bool(ex, st, r.disc, ONE - lt0(n - p), "try_from: an error exactly at or above the modulus")
        s2 = st.fork(); s2.assume(lt0(n - p)); ensure(ex, s2, p, r.pay[0][0], n, "try_from")
    for nm in [n for n in prog.byname if n.startswith("<%s as std::convert::TryFrom<" % T)]:
        add("try_from", nm, mkr, post_try, tag="sc", rp=(mod, "try_from", [(("words", 4, p), "w")], lambda w: "1 " + E(w) if w < p else "0"))
    def mksel(ex, st):
        (a, A), (b, B_) = fresh(p, "a"), fresh(p, "b"); c = Poly.atom(new_atom("choice", "var", 0, 1)); ex.goal = (A, B_, c)
        return args_for(ex, st, [a, b, Agg([c])])
    def post_sel(ex, st, r, a):
        A, B_, c = ex.goal; ca = list(c.atoms())[0]
        for v, g in ((0, A), (1, B_)): ensure(ex, st, p, subst_val(r, {ca: C(v)}), g, "conditional_select choice=%d" % v)
    add("conditional_select", "<%s as subtle::ConditionallySelectable>::conditional_select" % T, mksel, post_sel, tag="sc", rp=(mod, "csel", A2 + [(("u8", [0, 1]), "c")], lambda a, b, c: E(b if c else a)))
    # the remaining conversions, order test, bit views and prime-field constants
    R = "rvc_roots::rsc::"
    def post_u(ex, st, r, a):
        l = flat(r); ex.record("ensures", "four words", len(l) == 4, "normal form")
        for i, x in enumerate(l): ex.record("ensures", "word %d in range" % i, in_range(x, 0, 2**64 - 1), "interval")
        ensure_int(ex, st, sum((x.scale(1 << 64 * i) for i, x in enumerate(l)), ZERO), ex.goal[0], "the scalar as an integer")
    def val(f):
        def m(ex, st): v, I = fresh(p, "a"); ex.goal = (I,); return [v]
        return m
    add("From<Scalar> for U256", R + "to_u256", val(0), post_u, tag="sc", rp=(mod, "to_u256", A1, E))
    add("From<Scalar> for FieldBytes", R + "to_fb", val(0), post_tb(True), tag="sc", rp=(mod, "to_fb", A1, lambda a: a.to_bytes(32, "big").hex()))
    add("From<&Scalar> for FieldBytes", R + "to_fb_ref", mk(1), post_tb(True), tag="sc", rp=(mod, "to_fb_ref", A1, lambda a: a.to_bytes(32, "big").hex()))
    add("to_le_bits", R + "bits", mk(1), post_tb(False), tag="sc", rp=(mod, "bits", A1, lambda a: a.to_bytes(32, "little").hex()))
    add("is_high", R + "high", mk(1), lambda ex, st, r, a: ensure_bool(ex, st, r.f[0], lt0(C((p - 1) // 2) - ex.goal[0]), "is_high: exactly above half the modulus"), tag="sc", rp=(mod, "high", A1, lambda a: str(int(a > (p - 1) // 2))))
    def post_ch(ex, st, r, a): ensure_int(ex, st, le_int(ex.seq(st, r)), C(p), "char_le_bits denotes the modulus")
    add("char_le_bits", R + "char_bits", lambda ex, st: [], post_ch, tag="sc", rp=(mod, "char_bits", [], lambda: p.to_bytes(32, "little").hex()))
    add("ZERO and ONE", R + "consts", lambda ex, st: [], lambda ex, st, r, a: (ensure(ex, st, p, r.f[0], C(0), "ZERO"), ensure(ex, st, p, r.f[1], C(1), "ONE")), tag="sc", rp=(mod, "consts", [], lambda: E(0) + " " + E(1)))
    def gen_ok(g): return pow(g, (p - 1) // 2, p) == p - 1
    def root_ok(w, s): return pow(w, 1 << s, p) == 1 and pow(w, 1 << (s - 1), p) == p - 1
    ad = ((p - 1) & -(p - 1)).bit_length() - 1
    def post_params(ex, st, r, a):
        nb, cap, S_, g, w = r.f
        ensure_int(ex, st, nb, C(p.bit_length()), "NUM_BITS"); ensure_int(ex, st, cap, C(p.bit_length() - 1), "CAPACITY"); ensure_int(ex, st, S_, C(ad), "S is the two-adicity of p-1")
        gv, wv = int_of(g)[1], int_of(w)[1]
        ex.record("ensures", "multiplicative_generator is a quadratic non-residue", gv.is_const() and gen_ok(gv.cval()), "computed")
        ex.record("ensures", "root_of_unity has order 2^S", wv.is_const() and root_ok(wv.cval(), ad), "computed")
    def chk_params(o):
        w = o.split(" "); d = lambda h: int.from_bytes(bytes.fromhex(h), "little")
        return [int(x) for x in w[:3]] == [p.bit_length(), p.bit_length() - 1, ad] and gen_ok(d(w[3])) and root_ok(d(w[4]), ad)
    add("prime-field constants", R + "params", lambda ex, st: [], post_params, tag="sc", rp=(mod, "params", [], lambda: chk_params))
    return U
