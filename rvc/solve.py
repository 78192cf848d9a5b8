"""Discharge of obligations: exact polynomial normalisation plus linear integer arithmetic (z3)."""
import time, z3
from .poly import *
from . import poly as P
from . import exec as X

class Solver:
    def __init__(s, timeout=8000):
        s.timeout = timeout
        s.calls = 0; s.time = 0.0
        s.cache = {}
        s.extra = []       # contextual facts (kind, poly)
    # ---- encoding
    def enc_ctx(s):
        return Enc()
    def prove_bool(s, goal, pc):
        """goal (0/1 polynomial) == 1 whenever all of pc are 1"""
        if goal.is_const() and goal.cval() == 1: return True, "normal form", None
        lo, hi = goal.bounds()
        if lo is not None and lo >= 1: return True, "interval", None
        key = (goal.key(), tuple(c.key() for c in pc), len(X.FACTS))
        r = s.cache.get(key)
        if r is not None: return r
        st, model, how = s.check(pc, lambda e: e.ne(goal, 1))
        if st == "unsat": r = (True, how, None)
        elif st == "sat": r = (False, "z3: not implied", model)
        else: r = (False, "z3: " + st, None)
        s.cache[key] = r
        return r
    def prove_zero(s, p, pc):
        """integer polynomial == 0"""
        if p.is_zero(): return True, "normal form", None
        st, model, how = s.check(pc, lambda e: e.ne(p, 0))
        if st == "unsat": return True, how, None
        return False, "z3: " + st, model
    def prove_ge0(s, p, pc):
        lo, hi = p.bounds()
        if lo is not None and lo >= 0: return True, "interval", None
        st, model, how = s.check(pc, lambda e: e.lt(p, 0))
        if st == "unsat": return True, how, None
        return False, "z3: " + st, model
    def feasible_quick(s, pc):
        key = ("f", tuple(c.key() for c in pc))
        r = s.cache.get(key)
        if r is not None: return r
        e = Enc(True)
        for c in pc: e.add_eq(c, 1)
        st, _ = s.run(e, 1500)
        r = st != "unsat"
        s.cache[key] = r
        return r
    def feasible(s, pc): return s.feasible_quick(pc)
    def check(s, pc, neg):
        """satisfiability of facts + pc + negated goal: rational relaxation first, then integers"""
        e = Enc(True)
        for c in pc: e.add_eq(c, 1)
        neg(e)
        st, model = s.run(e)
        if st == "unsat": return st, None, "z3-lra"
        e = Enc()
        for c in pc: e.add_eq(c, 1)
        neg(e)
        st, model = s.run(e)
        return st, model, "z3-lia"
    def run(s, e, timeout=None):
        t0 = time.time()
        s.calls += 1
        sol = z3.SolverFor("QF_LIA") if False else z3.Solver()
        sol.set("timeout", timeout or s.timeout)
        e.close()
        for a in e.asserts: sol.add(a)
        r = sol.check()
        model = None
        if r == z3.sat:
            m = sol.model()
            model = {}
            for a, v in e.vars.items():
                if isinstance(a, int):
                    val = m.eval(v, model_completion=True)
                    try: model[ATOMS[a].name] = val.as_long()
                    except Exception: pass
        s.time += time.time() - t0
        return str(r), model
    # ---- field goals
    def prove_fzero(s, p, pc, lits=None, depth=0):
        """polynomial over F_p is zero under pc"""
        p = fnorm(p)
        if p.is_zero(): return True, "normal form", None
        # [x != 0] = x^0 in terms of the equality atom
        p = denorm0(p)
        # path condition literals
        mp = {}
        for c in pc:
            if len(c.t) == 1:
                (k, v), = c.t.items()
                if v == 1:
                    for a, _ in k: mp[a] = Poly.const(1, p.m)
            elif len(c.t) == 2 and c.t.get(()) == 1:
                k = [k for k in c.t if k != ()][0]
                if c.t[k] == -1 and len(k) == 1: mp[k[0][0]] = Poly.const(0, p.m)
        if mp:
            p = fnorm(p.subst(mp))
            if p.is_zero(): return True, "normal form under path condition", None
        # integer and field equalities known to hold on this path
        rels = []
        for a in list(mp):
            A = ATOMS[a]
            if mp[a].cval() != 1: continue
            if A.kind == "eq0": rel = A.defn.tofield(p.m)
            elif A.kind == "feq0" and A.defn.m == p.m: rel = A.defn
            else: continue
            rel = fnorm(rel.subst(mp))
            for d in rels: rel = fnorm(freduce(rel, d))
            if rel.is_const(): continue
            rels.append(rel)
            p = denorm0(fnorm(freduce(p, rel)))
            if p.is_zero(): return True, "normal form under the equalities of the path", None
        for a in sorted(p.atoms()):
            A = ATOMS[a]
            if A.kind == "fbase" and all(e == 1 for k in p.t for x, e in k if x == a):
                p = p.subst({a: A.defn})
        p = fnorm(p)
        if p.is_zero(): return True, "normal form with inverses unfolded", None
        # determine leftover atoms by linear arithmetic
        for a in sorted(p.atoms(), reverse=True):
            A = ATOMS[a]
            if A.kind not in ("lt0", "eq0", "div", "divn") and not A.isbool: continue
            v = s.const_value(a, pc)
            if v is not None:
                p = fnorm(p.subst({a: Poly.const(v, p.m)}))
                if p.is_zero(): return True, "normal form + z3-lia", None
        # a discarded carry: the residual is a multiple of a quotient that is provably constant
        p, how = s.drop_carries(p, pc)
        if p.is_zero(): return True, how, None
        # an integer combination that is zero as an integer
        for kk in sorted(p.t, key=lambda kk: (len(kk), str(kk)))[-3:]:
            if kk == (): continue
            q = p.scale(pow(p.t[kk], -1, p.m))
            z = Poly({k2: (v if v <= p.m // 2 else v - p.m) for k2, v in q.t.items()})
            if any(not isinstance(e, int) or e <= 0 or ATOMS[a].lo is None for k2 in z.t for a, e in k2): continue
            if max(abs(v) for v in z.t.values()) > 1 << 130: continue
            r, how, info = s.prove_zero(z, pc)
            if r: return True, "integer combination " + how, None
        # linear elimination: a leftover combination of carries may vanish as an integer
        if depth < 6:
            for a in sorted(p.atoms(), reverse=True):
                A = ATOMS[a]
                if A.isbool and A.kind in ("lt0", "eq0", "var", "feq0"):
                    okk = True
                    hows = []
                    for v in (0, 1):
                        lit = Poly.atom(A) if v else ONE - Poly.atom(A)
                        pc2 = tuple(pc) + (lit,)
                        if not s.feasible_quick(pc2): continue
                        q = p.subst({a: Poly.const(v, p.m)})
                        r, how, info = s.prove_fzero(q, pc2, None, depth + 1)
                        if not r: return False, how, info
                        hows.append(how)
                    return True, "case split(%s)" % A.name, None
        return False, "residual: " + repr(p)[:300], None
    def drop_carries(s, p, pc):
        m = p.m; how = ""
        for _ in range(8):
            ats = p.atoms(); best = None
            for h in P.HIS:
                if h.is_const() or not (h.atoms() & ats): continue
                q = h.tofield(m)
                if q.is_const(): continue
                for k in [k for k in q.t if k != () and k in p.t][:1]:
                    r = p - q.scale(p.t[k] * pow(q.t[k], -1, m))
                    n = len([1 for kk in r.t if kk != ()])
                    if n < len([1 for kk in p.t if kk != ()]) and (best is None or n < best[0]): best = (n, h, q, k)
            if best is None: return p, how
            n, h, q, k = best
            lo, hi = h.bounds()
            done = False
            for v in sorted({0, -1, 1} | ({lo, hi} if lo is not None and hi is not None and hi - lo < 4 else set())):
                if (lo is not None and v < lo) or (hi is not None and v > hi): continue
                if (lo, hi) == (v, v): r, how2 = True, "interval"
                else: r, how2, _ = s.prove_zero(h - v, pc)
                if r:
                    f = p.t[k] * pow(q.t[k], -1, m)
                    p = p - q.scale(f) + Poly.const(f * v, m)
                    how = "discarded carry constant (%s)" % how2; done = True; break
            if not done: return p, how
            p = fnorm(p)
        return p, how
    def const_value(s, a, pc):
        A = ATOMS[a]
        if A.lo is None or A.hi is None: return None
        for v in ((0, 1) if A.isbool else sorted({0, A.lo, A.hi})):
            e = Enc(True)
            for c in pc: e.add_eq(c, 1)
            e.ne(Poly.atom(A), v)
            st, _ = s.run(e, 3000)
            if st == "unsat": return v
        return None

def denorm0(p):
    """replace x^0 (= [x != 0]) by 1 - [x == 0], and clear x^-k under a known nonzero x"""
    z = {a for k in p.t for a, e in k if isinstance(e, int) and e == 0}
    if not z: return p
    out = Poly({}, p.m)
    for k, v in p.t.items():
        f = Poly.const(v, p.m); rest = []
        for a, e in k:
            if a in z and isinstance(e, int) and e == 0:
                base = ATOMS[a].defn if ATOMS[a].kind == "fbase" else Poly.atom(ATOMS[a], p.m)
                b = X.feq0(base)
                f = f * (Poly.const(1, p.m) - b.tofield(p.m))
            else: rest.append((a, e))
        out = out + f * Poly({tuple(rest): 1}, p.m)
    return out

def freduce(p, d):
    """reduce p modulo a single polynomial d over F_m (multivariate division by its leading term,
    preferring a term that is linear in an atom not occurring elsewhere)"""
    # prefer solving for an atom that occurs only linearly and alone
    for k in d.t:
        if len(k) == 1 and k[0][1] == 1:
            a = k[0][0]
            if any(x == a and not (isinstance(e, int) and e > 0) for kk in p.t for x, e in kk) and len(d.t) > 1: continue
            if sum(1 for kk in d.t for x, _ in kk if x == a) == 1:
                inv = pow(d.t[k], -1, d.m)
                rest = Poly({kk: v for kk, v in d.t.items() if kk != k}, d.m).scale(-inv)
                return p.subst({a: rest})
    lead = max(d.t, key=lambda k: (sum(e if isinstance(e, int) else 10**6 for _, e in k), [(a, str(e)) for a, e in k]))
    inv = pow(d.t[lead], -1, d.m)
    rest = Poly({kk: v for kk, v in d.t.items() if kk != lead}, d.m).scale(-inv)
    ld = dict(lead)
    for _ in range(500):
        hit = None
        for k in p.t:
            kd = dict(k)
            if all(isinstance(kd.get(a, 0), int) and isinstance(e, int) and kd.get(a, 0) >= e for a, e in ld.items()):
                hit = k; break
        if hit is None: return p
        kd = dict(hit)
        q = tuple((a, e - ld.get(a, 0)) for a, e in hit if e - ld.get(a, 0) != 0)
        c = p.t[hit]
        t = dict(p.t); del t[hit]
        p = Poly(t, p.m) + Poly({q: c}, p.m) * rest
    return p

class Enc:
    """encode polynomials over Z into linear integer arithmetic; nonlinear monomials are opaque"""
    def __init__(s, real=False):
        s.real = real
        s.vars = {}; s.asserts = []; s.todo = []; s.closed = False; s.monos = {}; s.bools = {}
        s.reldone = {}
    def var(s, a):
        v = s.vars.get(a)
        if v is None:
            A = ATOMS[a]
            if A.isbool and s.real:
                bv = z3.Bool(A.name)
                v = s.vars[a] = z3.If(bv, z3.RealVal(1), z3.RealVal(0))
                s.bools[a] = bv
                s.todo.append(a)
                return v
            v = s.vars[a] = z3.Real(A.name) if s.real else z3.Int(A.name)
            if A.lo is not None: s.asserts.append(v >= A.lo)
            if A.hi is not None: s.asserts.append(v <= A.hi)
            s.todo.append(a)
        return v
    def mono(s, k):
        if len(k) == 1 and k[0][1] == 1: return s.var(k[0][0])
        m = s.monos.get(k)
        if m is not None: return m
        bs = [a for a, e in k if ATOMS[a].isbool]
        rest = tuple((a, e) for a, e in k if not ATOMS[a].isbool)
        if bs:
            cond = z3.And(*[s.lit(a) for a in bs])
            r = s.mono(rest) if rest else s.num(1)
            m = z3.If(cond, r, s.num(0))
        else:
            m = (z3.Real if s.real else z3.Int)("m_" + "_".join("%d^%s" % (a, e if isinstance(e, int) else abs(hash(e))) for a, e in k))
            s.vars[k] = m
            lo, hi = mono_bounds(k)
            if lo is not None: s.asserts.append(m >= lo)
            if hi is not None: s.asserts.append(m <= hi)
            for a, e in k: s.var(a)
        s.monos[k] = m
        return m
    def lit(s, a):
        v = s.var(a)
        return s.bools[a] if a in s.bools else v == 1
    def num(s, n): return z3.RealVal(n) if s.real else z3.IntVal(n)
    def lin(s, p):
        ts = []
        for k, v in p.t.items():
            if k == (): ts.append(s.num(v))
            else: ts.append(s.mono(k) * v)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else s.num(0)
    def add_eq(s, p, c): s.asserts.append(s.lin(p) == c)
    # integer-valued polynomials: strict inequalities are tightened so that the rational relaxation stays exact at the borders
    def ne(s, p, c):
        l = s.lin(p); s.asserts.append(z3.Or(l <= c - 1, l >= c + 1))
    def lt(s, p, c): s.asserts.append(s.lin(p) <= c - 1)
    def ge(s, p, c): s.asserts.append(s.lin(p) >= c)
    def close(s):
        """definitions of all reachable atoms, and relevant facts"""
        if s.closed: return
        s.closed = True
        used = set()
        while True:
            while s.todo:
                a = s.todo.pop()
                A = ATOMS[a]
                for rl in A.rels:
                    if id(rl) not in s.reldone:
                        s.reldone[id(rl)] = rl; s.asserts.append(s.lin(rl) == 0)
                if A.kind == "div":
                    c, k = A.defn
                    lo = s.lin(c) - s.var(a) * (1 << k)
                    s.asserts.append(lo >= 0); s.asserts.append(lo <= (1 << k) - 1)
                    for h, l_, u_ in A.extra.values():
                        e = s.lin(h)
                        if l_ is not None: s.asserts.append(e >= l_)
                        if u_ is not None: s.asserts.append(e <= u_)
                elif A.kind == "divn":
                    c, n = A.defn
                    lo = s.lin(c) - s.var(a) * n
                    s.asserts.append(lo >= 0); s.asserts.append(lo <= n - 1)
                elif A.kind == "lt0":
                    l = s.lin(A.defn); b = s.lit(a)
                    s.asserts.append(z3.Implies(b, l <= -1)); s.asserts.append(z3.Or(b, l >= 0))
                elif A.kind == "eq0":
                    l = s.lin(A.defn); b = s.lit(a)
                    s.asserts.append(z3.Implies(b, l == 0)); s.asserts.append(z3.Or(b, l <= -1, l >= 1))
                elif A.kind == "bv" and A.defn:
                    op, x, y = A.defn
                    X_, Y_ = s.lin(x), s.lin(y); v = s.var(a)
                    if op == "or":
                        s.asserts += [v >= X_, v >= Y_, v <= X_ + Y_]
                    elif op == "and": s.asserts += [v <= X_, v <= Y_]
                    elif op == "xor":
                        s.asserts += [v <= X_ + Y_, (v == 0) == (X_ == Y_)]
            act = set(x for x in s.vars if isinstance(x, int))
            ch = False
            for i, f in enumerate(X.FACTS):
                if i in used: continue
                at = f[1].atoms()
                if at and (at & act) and (len(f) < 4 or f[3] == "any" or at <= act):
                    used.add(i); ch = True
                    if f[0] == "ge0": s.asserts.append(s.lin(f[1]) >= 0)
                    else: s.asserts.append(s.lin(f[1]) == 0)
            if not ch and not s.todo: break
        # intervals established over the integers when the polynomials were formed
        act = set(x for x in s.vars if isinstance(x, int))
        for (m, key), (lo, hi) in list(P.BOUNDS.items()):
            if m is not None or len(key) > 40: continue
            if all(a in act and len(k) == 1 for k, v in key for a, e in k) and len(key) > 1:
                e = s.lin(Poly(dict(key)))
                if lo is not None: s.asserts.append(e >= lo)
                if hi is not None: s.asserts.append(e <= hi)
