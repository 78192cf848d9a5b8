"""Obligations for the Montgomery-limb prime-field types (one template, three instances in /repo)."""
from ..field import *
from ..poly import *
from .. import poly as P
from .. import exec as X
from ..exec import *
from ..check import Unit, Suite
from .. import concrete as K

def prodfacts(fm, *fes):
    """0 <= A, B <= p-1  gives  A*(p-1-B) >= 0 for canonical limb values (nonlinear hint, sound by construction)"""
    I = [fm.spec.int_of(f) for f in fes]
    for i in range(len(I)):
        for j in range(i, len(I)):
            FACTS.append(("ge0", I[i] * (C(fm.p - 1) - I[j]), "product of canonical values"))
            FACTS.append(("ge0", (C(fm.p - 1) - I[i]) .scale(fm.p - 1), "canonical"))

def two(fm, byref=True):
    def mk(ex, st):
        a = fm.fresh("a"); b = fm.fresh("b"); prodfacts(fm, a, b)
        ex.goal = (a.p, b.p)
        return args_for(ex, st, [a, b])
    return mk
def one_(fm):
    def mk(ex, st):
        a = fm.fresh("a"); prodfacts(fm, a); ex.goal = (a.p,)
        return args_for(ex, st, [a])
    return mk
def args_for(ex, st, vals):
    """pass each value by value or through a reference, as the real signature asks"""
    fn = ex.target
    out = []
    for i, v in enumerate(vals):
        T = ex.ty(fn["locals"][1 + i])
        out.append(ex.alloc(st, v) if T["k"] in ("ref", "ptr") else v)
    return out
def felt_post(fm, f, what):
    return lambda ex, st, r, args: ensure_felt(ex, st, fm, r, f(*ex.goal), what)

def int_args(ex, n, w=64, pre="x"):
    return [Poly.atom(new_atom("%s%d" % (pre, i), "var", 0, 2**w - 1)) for i in range(n)]

def fkind(fm): return ("fe", K.Fk(fm.p))
def opname(tr, lhs, rhs): return "op_%s_%s%s" % (tr.lower(), "r" if lhs.startswith("&") else "v", "r" if rhs.startswith("&") else "v")

def units(fm, prog, mod="fp", serde=None):
    """contracts of the Montgomery-field template at type fm.ty; mod: replay module; serde: (serialize root, deserialize root)"""
    t = fm.ty; p = fm.p; sp = fm.spec
    F = fkind(fm); k = F[1]
    def E(v): return k.enc_val(v)
    U = []
    def add(*a, **kw): U.append(Unit(*a, **kw))
    def rp(op, kinds, f): return (mod, op, kinds, f)
    A1 = [(F, "a")]; A2 = [(F, "a"), (F, "b")]
    def inv(x): return pow(x, -1, p) if x else 0
    # ---- internal helpers with their own contracts (discharged first; a helper that is gone or changed is inlined)
    def mk9(ex, st):
        xs = int_args(ex, 9, pre="r")
        T = sum((x.scale(1 << 64 * i) for i, x in enumerate(xs)), ZERO)
        FACTS.append(("ge0", C(p * 2**256 - 1) - T, "T < p*2^256")); ex.goal = (T,)
        return xs
    add("montgomery_reduce", t + "::montgomery_reduce", mk9, lambda ex, st, r, a: ensure_felt(ex, st, fm, r, ex.goal[0].tofield(p).scale(sp.Ri**2), "montgomery_reduce"), internal=True, helper=t + "::montgomery_reduce")
    def mksub(ex, st):
        def raw5(n): return Agg((Agg([Poly.atom(new_atom("%s%d" % (n, i), "var", 0, 2**64 - 1)) for i in range(5)]),))
        a = raw5("A"); b = raw5("B")
        IA, IB = sp.int_of(a), sp.int_of(b)
        FACTS.append(("ge0", IA - IB + p, "A-B >= -p")); FACTS.append(("ge0", C(p - 1) - IA + IB, "A-B < p"))
        ex.goal = ((IA - IB).tofield(p).scale(sp.Ri),)
        return args_for(ex, st, [a, b])
    add("sub (extended range)", t + "::sub", mksub, felt_post(fm, lambda x: x, "sub"), internal=True, helper=t + "::sub")
    def mkmulraw(ex, st):
        a = fm.fresh_raw("A"); b = fm.fresh_raw("B")
        FACTS.append(("ge0", C(p * 2**256 - 1) - sp.int_of(a) * sp.int_of(b), "A*B<p*2^256"))
        ex.goal = (sp.val(a), sp.val(b))
        return args_for(ex, st, [a, b])
    add("mul (raw operands)", t + "::mul", mkmulraw, felt_post(fm, lambda a, b: a * b, "mul"), internal=True, helper=t + "::mul")
    def mk8(ex, st):
        xs = int_args(ex, 8, pre="w")
        T = sum((x.scale(1 << 64 * i) for i, x in enumerate(xs)), ZERO); ex.goal = (T.tofield(p),)
        return [Agg(xs)]
    # ---- public arithmetic
    for nm, f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
        add(nm, t + "::" + nm, two(fm), felt_post(fm, f, nm), helper=t + "::" + nm, tag="arith", rp=rp(nm, A2, (lambda f: lambda a, b: E(f(a, b)))(f)))
    for nm, f in (("neg", lambda a: -a), ("double", lambda a: a + a), ("square", lambda a: a * a)):
        add(nm, t + "::" + nm, one_(fm), felt_post(fm, f, nm), helper=t + "::" + nm, tag="arith", rp=rp(nm, A1, (lambda f: lambda a: E(f(a)))(f)))
    for nm, v in (("zero", 0), ("one", 1)):
        add(nm, t + "::" + nm, lambda ex, st: [], (lambda v: lambda ex, st, r, a: ensure_felt(ex, st, fm, r, Poly.const(v, p), "constant"))(v), tag="arith", rp=rp(nm, [], (lambda v: lambda: E(v))(v)))
    # operator traits, every by-value / by-reference combination
    OPS = {"Add": ("add", lambda a, b: a + b), "Sub": ("sub", lambda a, b: a - b), "Mul": ("mul", lambda a, b: a * b)}
    for tr, (m, f) in OPS.items():
        for lhs in (t, "&" + t):
            for rhs in (t, "&" + t):
                for nm in trait_names(prog, lhs, tr, m, rhs, t):
                    add("%s %s %s" % (short(lhs), tr, short(rhs)), nm, two(fm), felt_post(fm, f, tr), tag="ops", rp=rp(opname(tr, lhs, rhs), A2, (lambda f: lambda a, b: E(f(a, b)))(f)))
        for rhs in (t, "&" + t):
            for nm in trait_names(prog, t, tr + "Assign", m + "_assign", rhs, t):
                add("%sAssign %s" % (tr, short(rhs)), nm, two(fm), assign_post(fm, f, tr + "Assign"), tag="ops", rp=rp("%s_assign_%s" % (m, "r" if rhs.startswith("&") else "v"), A2, (lambda f: lambda a, b: E(f(a, b)))(f)))
    for lhs in (t, "&" + t):
        for nm in trait_names(prog, lhs, "Neg", "neg", None, t):
            add("Neg " + short(lhs), nm, one_(fm), felt_post(fm, lambda a: -a, "Neg"), tag="ops", rp=rp("op_neg_" + ("r" if lhs.startswith("&") else "v"), A1, lambda a: E(-a)))
    for nm in finds(prog, "<%s as std::default::Default>::default" % t):
        add("default", nm, lambda ex, st: [], lambda ex, st, r, a: ensure_felt(ex, st, fm, r, Poly.const(0, p), "default"), tag="ops", rp=rp("default", [], lambda: E(0)))
    for nm in finds(prog, "<%s as zeroize::Zeroize>::zeroize" % t):
        add("zeroize", nm, one_(fm), lambda ex, st, r, a: ensure_felt(ex, st, fm, ex.load(st, a[0]), Poly.const(0, p), "zeroize"), tag="ops", rp=rp("zeroize", A1, lambda a: E(0)))
    # comparison and selection
    add("ct_eq", "<%s as subtle::ConstantTimeEq>::ct_eq" % t, two(fm), lambda ex, st, r, a: ensure_iff_feq(ex, st, fm, r.f[0], ex.goal[0], ex.goal[1], "ct_eq"), helper="<%s as subtle::ConstantTimeEq>::ct_eq" % t, tag="ops", rp=rp("ct_eq", A2, lambda a, b: str(int(a == b))))
    add("eq", "<%s as std::cmp::PartialEq>::eq" % t, two(fm), lambda ex, st, r, a: ensure_iff_feq(ex, st, fm, r, ex.goal[0], ex.goal[1], "eq"), tag="ops", rp=rp("eq", A2, lambda a, b: str(int(a == b))))
    def mksel(ex, st):
        a = fm.fresh("a"); b = fm.fresh("b"); c = Poly.atom(new_atom("choice", "var", 0, 1)); ex.goal = (a.p, b.p, c)
        return args_for(ex, st, [a, b, Agg([c])])
    add("conditional_select", "<%s as subtle::ConditionallySelectable>::conditional_select" % t, mksel,
        lambda ex, st, r, a: ensure_select(ex, st, fm, r, "conditional_select"), helper="<%s as subtle::ConditionallySelectable>::conditional_select" % t, tag="ops", rp=rp("csel", A2 + [(("u8", [0, 1]), "choice")], lambda a, b, c: E(b if c else a)))
    # ---- encodings
    def mk4(ex, st):
        xs = int_args(ex, 4, pre="v"); T = sum((x.scale(1 << 64 * i) for i, x in enumerate(xs)), ZERO); ex.goal = (T.tofield(p),)
        v = Agg(xs); T0 = ex.ty(ex.target["locals"][1])
        return [ex.alloc(st, v) if T0["k"] == "ref" else v]
    add("from_raw", t + "::from_raw", mk4, felt_post(fm, lambda x: x, "from_raw"), helper=t + "::from_raw", tag="enc", rp=rp("from_raw", [(("words", 4, p), "v")], lambda v: E(v)))
    add("from_u512", t + "::from_u512", mk8, felt_post(fm, lambda x: x, "from_u512"), internal=True, helper=t + "::from_u512", tag="enc")
    def mkw(ex, st):
        xs = int_args(ex, 64, 8, pre="b"); ex.goal = (le_int(xs).tofield(p),)
        return args_for(ex, st, [Agg(xs)])
    add("from_bytes_wide", t + "::from_bytes_wide", mkw, felt_post(fm, lambda x: x, "from_bytes_wide"), helper=t + "::from_bytes_wide", tag="enc", rp=rp("from_bytes_wide", [(("bytes", 64, p), "b")], lambda v: E(int.from_bytes(bytes(v), "little"))))
    def mku64(ex, st):
        x = int_args(ex, 1)[0]; ex.goal = (x.tofield(p),); return [x]
    add("From<u64>", "<%s as std::convert::From<u64>>::from" % t, mku64, felt_post(fm, lambda x: x, "from_u64"), helper="<%s as std::convert::From<u64>>::from" % t, tag="enc", rp=rp("from_u64", [("u64", "x")], E))
    def mkb(ex, st):
        xs = int_args(ex, 32, 8, pre="b"); ex.goal = (le_int(xs),)
        return args_for(ex, st, [Agg(xs)])
    def post_fb(ex, st, r, a):
        n = ex.goal[0]
        v, flag = ctoption(r)
        ensure_bool(ex, st, flag, lt0(n - p), "from_bytes: accepted exactly when the integer is below the modulus")
        ensure_felt(ex, st, fm, v, n.tofield(p), "from_bytes: value")
    def or_fb(v):
        n = int.from_bytes(bytes(v), "little"); return "1 " + E(n) if n < p else "0"
    for nm in both(prog, t, "from_bytes"):
        add("from_bytes", nm, mkb, post_fb, helper=nm, tag="enc", rp=rp("from_bytes", [(("bytes", 32, p), "b")], or_fb))
    def post_tb(be, get=lambda ex, st, r: r):
        def f(ex, st, r, a):
            r = get(ex, st, r)
            if not isinstance(r, (Agg, VecV)): raise Unsupported("bytes result")
            v = list(r.f)[::-1] if be else list(r.f)
            ex.record("ensures", "to_bytes: 32 bytes", len(v) == 32, "normal form")
            for i, x in enumerate(v):
                if not in_range(x, 0, 255): ex.record("ensures", "to_bytes: byte %d in range" % i, False, "interval")
            n = le_int(v)
            rr, how, info = ex.solver.prove_ge0(C(p - 1) - n, st.pc); ex.record("ensures", "to_bytes: canonical (below the modulus)", rr, how, info)
            rr, how, info = ex.solver.prove_fzero(n.tofield(p) - ex.goal[0], st.pc); ex.record("ensures", "to_bytes: encodes the element", rr, how, info)
        return f
    le = lambda a: a.to_bytes(32, "little").hex()
    for nm in both(prog, t, "to_bytes"): add("to_bytes", nm, one_(fm), post_tb(False), helper=nm, tag="enc", rp=rp("to_bytes", A1, le))
    for nm in both(prog, t, "to_be_bytes"): add("to_be_bytes", nm, one_(fm), post_tb(True), helper=nm, tag="enc", rp=rp("to_be_bytes", A1, lambda a: a.to_bytes(32, "big").hex()))
    for nm in [n for n in prog.byname if n.startswith("<[u8; 32] as std::convert::From<&") and t in n]:
        add("Into<[u8;32]>", nm, one_(fm), post_tb(False), tag="enc", rp=rp("into_bytes", A1, le))
    # ---- serde image: the bytes of to_bytes, read back by deserialize; short or non-canonical input is an error, never a panic
    if serde:
        def get_ok(ex, st, r):
            if isinstance(r, Phi): r = merge_enum(r)
            if not isinstance(r, Enum): raise Unsupported("result shape")
            ensure_bool(ex, st, r.disc, ZERO, "serialize: succeeds")
            return r.pay[0][0]
        add("serialize", serde[0], one_(fm), post_tb(False, get_ok), tag="serde", rp=rp("ser", A1, lambda a: (32).to_bytes(8, "little").hex() + le(a)))
        def mkde(n):
            def mk(ex, st):
                xs = int_args(ex, n, 8, pre="b"); ex.goal = (le_int(xs),)
                return [ex.alloc(st, Agg(xs))]
            return mk
        def post_de(ex, st, r, a):
            if isinstance(r, Phi): r = merge_enum(r)
            n = ex.goal[0]
            ensure_bool(ex, st, r.disc, ONE - lt0(n - p), "deserialize: accepts exactly the canonical encodings")
            st2 = st.fork(); st2.assume(lt0(n - p))
            ensure_felt(ex, st2, fm, r.pay[0][0], n.tofield(p), "deserialize: value")
        def or_de(v):
            n = int.from_bytes(bytes(v), "little"); return "1 " + E(n) if n < p else "0"
        add("deserialize", serde[1], mkde(32), post_de, tag="serde", rp=(mod, "de32", [(("bytes", 32, p), "b")], or_de))
        for n in (0, 7, 31):
            def post_short(ex, st, r, a):
                if isinstance(r, Phi): r = merge_enum(r)
                ensure_bool(ex, st, r.disc, ONE, "deserialize: short input is an error")
            add("deserialize[%d bytes]" % n, serde[1], mkde(n), post_short, tag="serde", rp=(mod, "de32", [(("var", n, n), "b")], lambda v: "0"))
    # ---- powers, inversion
    def mkpow(ex, st):
        a = fm.fresh("a"); es = [Poly.atom(new_atom("e%d" % i, "var", 0, 2**64 - 1)) for i in range(4)]
        ex.goal = (a.p, sum((x.scale(1 << 64 * i) for i, x in enumerate(es)), ZERO))
        return args_for(ex, st, [a, Agg(es)])
    for nm in ("pow", "pow_vartime"):
        if nm != "pow" and not prog.find(t + "::" + nm): continue
        add(nm, t + "::" + nm, mkpow, lambda ex, st, r, a: ensure_pow(ex, st, fm, r, *ex.goal), helper=t + "::" + nm, tag="inv", rp=rp(nm, [(F, "a"), (("words", 4, p), "e")], lambda a, e: E(pow(a, e, p))))
    def post_inv(ex, st, r, a):
        v, f = ctoption(r)
        x = ex.goal[0]
        ensure_bool(ex, st, f, ONE - feq0(x), "invert: defined exactly for nonzero elements")
        ensure_felt(ex, st, fm, v, P.finv(x), "invert: value")
    add("invert", t + "::invert", one_(fm), post_inv, helper=t + "::invert", tag="inv", rp=rp("invert", A1, lambda a: "1 " + E(inv(a)) if a else "0"))
    def or_bi(xs):
        if 0 in xs: return None
        q = 1
        for x in xs: q = q * inv(x) % p
        return E(q) + " " + "".join(E(inv(x)) for x in xs)
    for n in (1, 2, 3, 4):
        def mkbi(ex, st, n=n):
            xs = [fm.fresh("x%d" % i) for i in range(n)]
            ex.goal = tuple(x.p for x in xs)
            for x in xs: st.assume(ONE - feq0(x.p))        # documented precondition: every input is invertible
            return [ex.alloc(st, Agg(xs))]
        def post_bi(ex, st, r, a):
            xs = ex.goal; out = ex.load(st, a[0]).f
            allp = Poly.const(1, p)
            for x in xs: allp = allp * P.finv(x)
            ensure_felt(ex, st, fm, r, allp, "batch_invert: product of all inverses")
            for i, (x, y) in enumerate(zip(xs, out)): ensure_felt(ex, st, fm, y, P.finv(x), "batch_invert: element %d replaced by its inverse" % i)
        add("batch_invert[n=%d]" % n, t + "::batch_invert", mkbi, post_bi, tag="inv", bounded="slice length %d, symbolic contents" % n, rp=rp("batch_invert", [(("fes", k, (1, 2, 3, 5, 8, 17)), "x")], or_bi))
    return U

def sums(fm, prog, roots, mod="fp"):
    """iterator Sum / Product"""
    p = fm.p; F = fkind(fm); k = F[1]; U = []
    import math
    for (root, byref, isum) in roots:
        for n in (0, 1, 2, 3):
            def mk(ex, st, n=n, byref=byref, isum=isum):
                xs = [fm.fresh("x%d" % i) for i in range(n)]
                g = Poly.const(0 if isum else 1, p)
                for x in xs: g = g + x.p if isum else g * x.p
                ex.goal = (g,)
                return [ex.alloc(st, Agg(xs)) if byref else VecV(xs)]
            nm = "sum" if isum else "product"
            U.append(Unit("%s over %s [n=%d]" % (nm, "references" if byref else "values", n), root, mk, felt_post(fm, lambda x: x, nm), tag="ops", bounded="%d terms, symbolic" % n,
                rp=(mod, nm + ("" if byref else "_val"), [(("fes", k, (n,)), "x")], (lambda isum: lambda xs: k.enc_val(sum(xs) if isum else math.prod(xs) % p))(isum))))
    return U

def short(x): return ("&" if x.startswith("&") else "") + x.split("::")[-1]
def finds(prog, nm): return [nm] if prog.find(nm) else []
def both(prog, t, m):
    r = []
    for nm in (t + "::" + m, "<%s as field::BaseField>::%s" % (t, m)):
        if prog.find(nm): r.append(nm)
    return r or ([] if m == "to_be_bytes" else [t + "::" + m])
import re
def trait_names(prog, lhs, tr, m, rhs, t):
    """names of the impl of operator `tr` for this operand shape, whatever lifetimes are written"""
    def nl(x): return re.sub(r"'[a-z_]+ ?", "", x).replace("<>", "")
    want = nl("<%s as std::ops::%s%s>::%s" % (lhs, tr, "" if rhs is None or rhs == t and lhs == t else "<%s>" % rhs, m))
    alt = nl("<%s as std::ops::%s%s>::%s" % (lhs, tr, "<%s>" % rhs if rhs else "", m))
    # "<&T as Add>" is printed without its parameter when it equals the self type
    bare = nl("<%s as std::ops::%s>::%s" % (lhs, tr, m)) if rhs is not None and lhs == rhs else want
    return [n for n in prog.byname if nl(n) in (want, alt, bare) and prog.find(n)]
def assign_post(fm, f, what):
    def post(ex, st, r, a): ensure_felt(ex, st, fm, ex.load(st, a[0]), f(*ex.goal), what)
    return post
def ctoption(r):
    """(value, is_some) of a CtOption or Option value"""
    if isinstance(r, Agg) and len(r.f) == 2: return r.f[0], r.f[1].f[0]
    if isinstance(r, Enum): return (r.pay.get(1) or (None,))[0], r.disc
    if isinstance(r, Phi):
        (v1, f1), (v2, f2) = ctoption(r.a), ctoption(r.b)
        return merge_val(r.c, v1, v2), merge_val(r.c, f1, f2)
    raise Unsupported("option shape")
def ensure_iff_feq(ex, st, fm, b, x, y, what):
    """b == [x = y in F_p], both directions"""
    if not isinstance(b, Poly): raise Unsupported("boolean result")
    goal = feq0(x - y)
    if b == goal: ex.record("ensures", what, True, "normal form"); return
    # b=1 -> x-y = 0
    r, how, info = ex.solver.prove_fzero(x - y, tuple(st.pc) + split_and(b))
    ex.record("ensures", what + ": equal results mean equal elements", r, how, info)
    # x=y (same canonical limbs) -> b = 1 : substitute y's atoms by x's
    ex2 = b
    a_, b_ = fm.fe(x), fm.fe(y)
    la, lb = fm.spec.limbs(a_).f[0].f, fm.spec.limbs(b_).f[0].f
    mp = {}
    for u, v in zip(la, lb):
        for k in v.t:
            if k: mp[k[0][0]] = u
    r = deep_subst(b, mp)
    okk = r.is_const() and r.cval() == 1
    if not okk: okk, how, info = ex.solver.prove_bool(r, st.pc)
    else: how, info = "normal form (limbs identified)", None
    ex.record("ensures", what + ": equal elements give true", okk, how, info)
def split_and(b):
    """a boolean monomial as a tuple of literals"""
    if len(b.t) == 1:
        (k, v), = b.t.items()
        if v == 1: return tuple(Poly({((a, 1),): 1}) for a, e in k)
    return (b,)
def deep_subst(b, mp):
    """substitute inside the definitions of boolean atoms too"""
    out = {}
    for a in b.atoms():
        A = ATOMS[a]
        if A.kind == "eq0": out[a] = eq0(deep_subst(A.defn, mp))
        elif A.kind == "lt0": out[a] = lt0(deep_subst(A.defn, mp))
        elif A.kind == "bv" and A.defn:
            op, x, y = A.defn
            x2, y2 = deep_subst(x, mp), deep_subst(y, mp)
            if op == "xor" and x2 == y2: out[a] = ZERO
            else: continue
    out.update({a: mp[a] for a in b.atoms() if a in mp})
    return b.subst(out)
def ensure_select(ex, st, fm, r, what):
    a, b, c = ex.goal
    for v, g in ((0, a), (1, b)):
        # both values of the choice
        ca = [x for x in c.atoms()][0]
        rr = subst_val(r, {ca: C(v)})
        ensure_felt(ex, st, fm, rr, g, "%s: choice=%d" % (what, v))
def subst_val(v, mp):
    if isinstance(v, Poly): return v.subst(mp) if v.m is None else v.subst({k: Poly.const(x.cval(), v.m) for k, x in mp.items()})
    if isinstance(v, Agg): return Agg([subst_val(x, mp) for x in v.f])
    if isinstance(v, FE): return FE(subst_val(v.p, mp), v.spec)
    if isinstance(v, Phi): return merge_val(subst_val(v.c, mp), subst_val(v.a, mp), subst_val(v.b, mp))
    return v
def ensure_pow(ex, st, fm, r, base, e):
    """result = base^e for the 256-bit exponent e"""
    if isinstance(r, FE) and len(r.p.t) == 1:
        (k, v), = r.p.t.items()
        (kb, _), = base.t.items()
        if v == 1 and len(k) == 1 and k[0][0] == kb[0][0]:
            x = k[0][1]; x = C(x) if isinstance(x, int) else x.p
            d = x - e
            if d.is_zero(): ex.record("ensures", "pow: exponent", True, "normal form"); return
            rr, how, info = ex.solver.prove_zero(d, st.pc); ex.record("ensures", "pow: exponent", rr, how, info); return
    raise Unsupported("power result shape")
