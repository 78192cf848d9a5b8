"""Contracts for the Montgomery-limb prime-field types (one template, three instances in /repo) and the
obligations that discharge them against the real MIR."""
from .poly import *
from . import poly as P
from . import exec as X
from .exec import *
from . import builtins as B

PSECP = 2**256 - 2**32 - 977
NSECP = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141

class FieldModel:
    """contract family for a field type at crate-relative path `ty`"""
    def __init__(s, ty, p, name):
        s.ty = ty; s.p = p; s.spec = FSpec(name, p); s.name = name; s.noraw = set()
    def lift(s, v):
        if isinstance(v, FE): return v
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Agg) and len(v.f[0].f) == 5:
            l = v.f[0].f
            if all(isinstance(x, Poly) for x in l):
                if all(x.is_const() for x in l):
                    n = sum(x.cval() << 64 * i for i, x in enumerate(l))
                    if n < s.p: return FE(Poly.const(n * s.spec.Ri, s.p), s.spec)
                    return None
                if l[4].is_zero():
                    fe = X.LIMBSUM.get(s.spec.int_of(v).key())
                    if fe is not None and fe.spec is s.spec: return fe
        return None
    def canon(s, ex, st, v, why):
        """v as a canonical element; proves canonicity when it is not known"""
        if isinstance(v, Phi): return s.canon_phi(ex, st, v, why)
        r = s.lift(v)
        if r is not None: return r
        if not isinstance(v, Agg): raise Unsupported("field operand %s" % type(v).__name__)
        A = s.spec.int_of(v)
        l = v.f[0].f
        okk = l[4].is_zero() and all(in_range(x, 0, 2**64 - 1) for x in l[:4])
        r, how, info = ex.solver.prove_ge0(C(s.p - 1) - A, st.pc) if okk else (False, "limb range", None)
        ex.record("requires", why + ": operand canonical", r, how, info)
        return FE(s.spec.val(v), s.spec)
    def canon_phi(s, ex, st, v, why):
        a = s.canon(ex, st, v.a, why); b = s.canon(ex, st, v.b, why)
        return FE(fite(v.c, a.p, b.p), s.spec)
    def raw(s, ex, st, v):
        """(field value, integer value, lifted?) ; limbs must be in range"""
        r = s.lift(v)
        if r is not None: return r.p, None, True
        if isinstance(v, Phi):
            return s.canon(ex, st, v, "operand").p, None, True
        A = s.spec.int_of(v)
        return s.spec.val(v), A, False
    def fe(s, p): return FE(p, s.spec)
    def fresh(s, name):
        return FE(Poly.atom(new_atom(name, "felt", key=("felt", s.name, name)), s.p), s.spec)
    def fresh_raw(s, name):
        ats = [new_atom("%s%d" % (name, i), "var", 0, 2**64 - 1) for i in range(4)]
        return Agg((Agg([Poly.atom(a) for a in ats] + [ZERO]),))
    # ---------------- contracts (callee side, used at call sites)
    def arg(s, ex, st, v):
        while isinstance(v, Ref): v = ex.load(st, v)
        return v
    def contracts(s):
        t = s.ty
        d = {}
        def bin2(name, f):
            def g(ex, st, fn, args):
                a = s.canon(ex, st, s.arg(ex, st, args[0]), name); b = s.canon(ex, st, s.arg(ex, st, args[1]), name)
                return s.fe(f(a.p, b.p))
            d[t + "::" + name] = g
        def un1(name, f):
            def g(ex, st, fn, args):
                a = s.canon(ex, st, s.arg(ex, st, args[0]), name)
                return s.fe(f(a.p))
            d[t + "::" + name] = g
        bin2("add", lambda a, b: a + b)
        def sub(ex, st, fn, args):
            va = s.arg(ex, st, args[0]); vb = s.arg(ex, st, args[1])
            la, lb = s.lift(va), s.lift(vb)
            if la is not None and lb is not None: return s.fe(la.p - lb.p)
            if "sub" in s.noraw: return ex.run_fn(st, ex.prog.find(strip_crate(fn["name"])), fn, args)
            if isinstance(va, Phi) or isinstance(vb, Phi):
                return s.fe(s.canon(ex, st, va, "sub").p - s.canon(ex, st, vb, "sub").p)
            IA, IB = s.spec.int_of(va), s.spec.int_of(vb)
            okk = all(in_range(x, 0, 2**64 - 1) for v in (va, vb) if isinstance(v, Agg) for x in v.f[0].f)
            r, how, info = ex.solver.prove_ge0(IA - IB + s.p, st.pc) if okk else (False, "limb range", None)
            ex.record("requires", "sub: A - B >= -p", r, how, info)
            r, how, info = ex.solver.prove_ge0(C(s.p - 1) - IA + IB, st.pc) if okk else (False, "limb range", None)
            ex.record("requires", "sub: A - B < p", r, how, info)
            return s.fe((IA - IB).tofield(s.p).scale(s.spec.Ri))
        d[t + "::sub"] = sub
        un1("neg", lambda a: -a)
        un1("square", lambda a: a * a)
        un1("double", lambda a: a + a)
        def mul(ex, st, fn, args):
            va = s.arg(ex, st, args[0]); vb = s.arg(ex, st, args[1])
            fa, A, la = s.raw(ex, st, va); fb, Bv, lb = s.raw(ex, st, vb)
            if not (la and lb):
                if "mul" in s.noraw: return ex.run_fn(st, ex.prog.find(strip_crate(fn["name"])), fn, args)
                rng = True
                for v, l in ((va, la), (vb, lb)):
                    if not l:
                        li = v.f[0].f
                        rng = rng and li[4].is_zero() and all(in_range(x, 0, 2**64 - 1) for x in li[:4])
                if rng and (la or lb): ex.record("requires", "mul: A*B < p*2^256", True, "one operand canonical, the other below 2^256")
                else:
                    IA = A if A is not None else s.spec.int_of(va); IB = Bv if Bv is not None else s.spec.int_of(vb)
                    r, how, info = ex.solver.prove_ge0(C(s.p * 2**256 - 1) - IA * IB, st.pc) if rng else (False, "limb range", None)
                    ex.record("requires", "mul: A*B < p*2^256", r, how, info)
            return s.fe(fa * fb)
        d[t + "::mul"] = mul
        def mred(ex, st, fn, args):
            T = ZERO
            for i, x in enumerate(args): T = T + x.scale(1 << 64 * i)
            okk = all(in_range(x, 0, 2**64 - 1) for x in args)
            if okk: r, how, info = ex.solver.prove_ge0(C(s.p * 2**256 - 1) - T, st.pc)
            else: r, how, info = False, "limb range", None
            ex.record("requires", "montgomery_reduce: T < p*2^256", r, how, info)
            return s.fe(T.tofield(s.p).scale(s.spec.Ri * s.spec.Ri))
        d[t + "::montgomery_reduce"] = mred
        def from_raw(ex, st, fn, args):
            v = args[0].f
            A = sum((x.scale(1 << 64 * i) for i, x in enumerate(v)), ZERO)
            return s.fe(A.tofield(s.p))
        d[t + "::from_raw"] = from_raw
        d[t + "::from_u512"] = from_raw
        def fbw(ex, st, fn, args):
            v = ex.seq(st, args[0])
            return s.fe(le_int(v).tofield(s.p))
        d[t + "::from_bytes_wide"] = fbw
        def from_u64(ex, st, fn, args): return s.fe(args[0].tofield(s.p))
        d["<%s as std::convert::From<u64>>::from" % t] = from_u64
        def ct_eq(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "ct_eq"); b = s.canon(ex, st, s.arg(ex, st, args[1]), "ct_eq")
            return Agg([feq0(a.p - b.p)])
        d["<%s as subtle::ConstantTimeEq>::ct_eq" % t] = ct_eq
        def csel(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "conditional_select"); b = s.canon(ex, st, s.arg(ex, st, args[1]), "conditional_select")
            return s.fe(fite(args[2].f[0], b.p, a.p))
        d["<%s as subtle::ConditionallySelectable>::conditional_select" % t] = csel
        def to_bytes(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "to_bytes")
            return Agg(s.bytes_of(a))
        def to_be(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "to_be_bytes")
            return Agg(s.bytes_of(a)[::-1])
        def from_bytes(ex, st, fn, args):
            n = le_int(ex.seq(st, args[0]))
            return Agg([s.fe(n.tofield(s.p)), Agg([lt0(n - s.p)])])
        for pre in (t + "::", "<%s as field::BaseField>::" % t):
            d[pre + "to_bytes"] = to_bytes
            d[pre + "to_be_bytes"] = to_be
            d[pre + "from_bytes"] = from_bytes
        def power(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "pow")
            e = sum((x.scale(1 << 64 * i) for i, x in enumerate(ex.seq(st, args[1]))), ZERO)
            return s.fe(fpow(a.p, e))
        d[t + "::pow"] = power; d[t + "::pow_vartime"] = power
        def invert(ex, st, fn, args):
            a = s.canon(ex, st, s.arg(ex, st, args[0]), "invert")
            nz = ONE - feq0(a.p)
            return Agg([s.fe(P.finv(a.p)), Agg([nz])])
        d[t + "::invert"] = invert
        return d
    def canon_int(s, fe):
        """integer polynomial of the canonical value of fe (atom in [0,p))"""
        if fe.p.is_const(): return C(fe.p.cval())
        # embedding of a single bounded integer atom is its own canonical value
        at = new_atom("can", "var", 0, s.p - 1, key=("can", s.name, fe.p.key()))
        at.frule[s.p] = fe.p
        return Poly.atom(at)
    def bytes_of(s, fe):
        n = s.canon_int(fe)
        out = []
        for i in range(31):
            n, lo = divmod2k(n, 8); out.append(lo)
        out.append(n)
        return out

def le_int(f):
    r = ZERO
    for i, x in enumerate(f): r = r + x.scale(1 << 8 * i)
    return r
def in_range(x, lo, hi):
    if not isinstance(x, Poly): return False
    l, h = x.bounds()
    return l is not None and h is not None and l >= lo and h <= hi
def fpow(p, e):
    if e.is_const(): 
        n = e.cval()
        if len(p.t) == 1:
            (k, v), = p.t.items()
            if all(isinstance(x, int) for _, x in k):
                return Poly({tuple((a, x * n) for a, x in k): pow(v, n, p.m)} if n else {(): 1}, p.m)
        if p.is_const(): return Poly.const(pow(p.cval(), n, p.m), p.m)
        if n < 64: return p ** n
        at = new_atom("pw", "fpow", key=("fpowbase", p.key()), defn=p)
        return Poly.apow(at, n, p.m)
    if len(p.t) == 1:
        (k, v), = p.t.items()
        if len(k) == 1 and k[0][1] == 1 and v == 1: return Poly.apow(ATOMS[k[0][0]], e, p.m)
    at = new_atom("pw", "fpow", key=("fpowbase", p.key()), defn=p)
    return Poly.apow(at, e, p.m)

# ---------------------------------------------------------------- verification of one function against a goal
class Verify:
    """one run: real MIR of a function, symbolic arguments, postcondition goals"""
    def __init__(s, prog, solver, contracts, specs, panic="prove"):
        s.prog = prog; s.solver = solver; s.contracts = contracts; s.specs = specs; s.panic = panic
        s.obls = []; s.used = {}; s.usedb = {}; s.usedc = {}
    def run(s, fname, mk, post, disable=True, panic=None):
        """mk(ex,st)->args ; post(ex,st,ret,args) records obligations"""
        X.reset_all(); s.solver.cache.clear()
        fid = s.prog.find_norm(fname)
        if fid is None: raise Unsupported("function %s not found" % fname)
        refuse = panic == "refuse"                       # the function must not return
        ex = Exec(s.prog, s.solver, s.contracts, panic="assume" if refuse else panic or s.panic)
        ex.specs = s.specs
        fn = s.prog.fns[fid]
        if disable: ex.disabled.add(fn["name"])
        st = State(); ex.target = fn; s.ex = ex
        args = mk(ex, st)
        ret = ex.run_fn(st, fid, fn, args)
        ex.stack.append((fn["name"], fn["line"]))
        if refuse: ex.record("ensures", "refused: no path returns", ret is None or not ex.feasible(st), "path conditions") if post is None or ret is None else post(ex, st, ret, args)
        elif ret is None: ex.record("ensures", "function returns normally", False, "every path diverges")
        else: post(ex, st, ret, args)
        ex.stack.pop()
        s.obls += ex.obls
        for k, v in ex.used_fns.items(): s.used[k] = s.used.get(k, 0) + v
        for k, v in ex.used_builtins.items(): s.usedb[k] = s.usedb.get(k, 0) + v
        for k, v in ex.used_contracts.items(): s.usedc[k] = s.usedc.get(k, 0) + v
        return ex.obls

def ensure_felt(ex, st, fm, v, goal, what):
    """v is a canonical field element with value `goal`"""
    if isinstance(v, Phi): v = fm.canon_phi(ex, st, v, what)
    if not isinstance(v, FE):
        r = fm.lift(v)
        if r is not None: v = r
    if isinstance(v, FE):
        r, how, info = ex.solver.prove_fzero(v.p - goal, st.pc)
        ex.record("ensures", what + ": value", r, how, info); return
    if not isinstance(v, Agg) or len(v.f[0].f) != fm.spec.nl:
        raise Unsupported("result shape of " + what)
    l = v.f[0].f
    for i, x in enumerate(l[:4]):
        okk = in_range(x, 0, 2**64 - 1)
        ex.record("ensures", what + ": limb %d in range" % i, okk, "interval")
    if l[4].is_zero(): ex.record("ensures", what + ": top limb zero", True, "normal form")
    else:
        r, how, info = ex.solver.prove_zero(l[4], st.pc); ex.record("ensures", what + ": top limb zero", r, how, info)
    A = fm.spec.int_of(Agg((Agg(l[:4] + (ZERO,)),)))
    r, how, info = ex.solver.prove_ge0(C(fm.p - 1) - A, st.pc)
    ex.record("ensures", what + ": result below the modulus", r, how, info)
    r, how, info = ex.solver.prove_fzero(A.tofield(fm.p).scale(fm.spec.Ri) - goal, st.pc)
    ex.record("ensures", what + ": value", r, how, info)

def ensure_bool(ex, st, v, goal, what):
    """boolean polynomials equal"""
    d = v - goal
    if d.is_zero(): ex.record("ensures", what, True, "normal form"); return
    r, how, info = ex.solver.prove_zero(d, st.pc)
    ex.record("ensures", what, r, how, info)
def ensure_int(ex, st, v, goal, what):
    if not isinstance(v, Poly): raise Unsupported("integer result expected")
    ensure_bool(ex, st, st.simp(v), st.simp(goal), what)
