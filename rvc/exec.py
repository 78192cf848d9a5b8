"""Symbolic executor / VC generator over the monomorphic MIR dumped by rvc-driver.

Every Rust function is executed from its real MIR (extracted on each run).  Control flow is forked on
symbolic switches and merged at the immediate post-dominator; panics, overflow, bounds checks become
obligations.  Library functions that are not interpreted have builtin contracts (rvc/builtins.py)."""
import json, sys
from .poly import *
from . import poly as P

sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Violation(Exception): pass

# ---------------------------------------------------------------- values
class Agg:
    __slots__ = ("f",)
    def __init__(s, f): s.f = tuple(f)
    def __repr__(s): return "Agg%r" % (s.f,)
class Enum:
    __slots__ = ("disc", "pay")
    def __init__(s, disc, pay): s.disc = disc; s.pay = pay
    def __repr__(s): return "Enum(%r,%r)" % (s.disc, s.pay)
class FE:
    """abstract canonical field element (struct over Montgomery limbs)"""
    __slots__ = ("p", "spec")
    def __init__(s, p, spec): s.p = p; s.spec = spec
    def __repr__(s): return "FE(%r)" % s.p
class Ref:
    __slots__ = ("cell", "path")
    def __init__(s, cell, path=()): s.cell = cell; s.path = path
    def __repr__(s): return "Ref(%r,%r)" % (s.cell, s.path)
    def __eq__(s, o): return isinstance(o, Ref) and s.cell == o.cell and s.path == o.path
    def __hash__(s): return hash((s.cell, s.path))
class VecV:
    __slots__ = ("f",)
    def __init__(s, f): s.f = tuple(f)
    def __repr__(s): return "Vec%r" % (s.f,)
class Clo:
    __slots__ = ("inst", "up")
    def __init__(s, inst, up): s.inst = inst; s.up = up
    def __eq__(s, o): return isinstance(o, Clo) and s.inst == o.inst and same(s.up, o.up)
class FnV:
    __slots__ = ("inst", "d")
    def __init__(s, inst, d=None): s.inst = inst; s.d = d
    def __eq__(s, o): return isinstance(o, FnV) and s.inst == o.inst
class It:
    __slots__ = ("k", "d")
    def __init__(s, k, *d): s.k = k; s.d = d
    def __repr__(s): return "It(%s,%r)" % (s.k, s.d)
class Obj:
    """library object handled only by builtins (BigUint, reader, ...)"""
    __slots__ = ("k", "d")
    def __init__(s, k, d=None): s.k = k; s.d = d
    def __repr__(s): return "Obj(%s,%r)" % (s.k, s.d)
    def __eq__(s, o): return isinstance(o, Obj) and s.k == o.k and s.d == o.d
class Opq:
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __repr__(s): return "Opq(%s)" % s.n
class Phi:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return "Phi(%r,%r,%r)" % (s.c, s.a, s.b)
class Uninit:
    def __repr__(s): return "Uninit"
UNINIT = Uninit()
UNIT = Agg(())

def none(): return Enum(ZERO, {0: ()})
def some(v): return Enum(ONE, {1: (v,), 0: ()})
def ok(v): return Enum(ZERO, {0: (v,)})
def err(v): return Enum(ONE, {1: (v,)})
def C(n): return Poly.const(n)

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Poly): return a == b
    if isinstance(a, (Agg, VecV)): return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, FE): return a.p == b.p and a.spec is b.spec
    if isinstance(a, (Ref, FnV, Clo)): return a == b
    if isinstance(a, Obj): return a == b
    if isinstance(a, Enum):
        return a.disc == b.disc and a.pay.keys() == b.pay.keys() and all(len(a.pay[k]) == len(b.pay[k]) and all(same(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if isinstance(a, It): return a.k == b.k and len(a.d) == len(b.d) and all(same(x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, Phi): return a.c == b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, (int, str, bytes, tuple)): return a == b
    return False

# ---------------------------------------------------------------- field specs
class FSpec:
    """Layout contract of a Montgomery field type: struct( [u64; nl] ), value = limbs * R^-1 mod p, limbs < p."""
    def __init__(s, name, p, nl=5, bits=256):
        s.name = name; s.p = p; s.nl = nl; s.R = pow(2, bits, p); s.Ri = pow(s.R, -1, p); s.bits = bits
    def limbs(s, fe):
        """materialise the limbs of a canonical element"""
        if fe.p.is_const():
            v = fe.p.cval() * s.R % s.p
            return Agg((Agg([C(v >> (64 * i) & (2**64 - 1)) for i in range(s.nl)]),))
        key = ("limbs", s.name, fe.p.key())
        ats = []
        fresh = (key + (0,)) not in P._INTERN
        for i in range(s.bits // 64):
            ats.append(new_atom("%s.l%d" % (repr(fe.p) if len(fe.p.t) == 1 else "t", i), "var", 0, 2**64 - 1, key=key + (i,)))
        if fresh:
            tot = sum((Poly.atom(a).scale(1 << 64 * i) for i, a in enumerate(ats)), ZERO)
            FACTS.append(("ge0", C(s.p - 1) - tot, "canonical"))
            LIMBSUM[tot.key()] = fe
            # rewrite rule for the lowest limb in F_p
            r = fe.p.scale(s.R)
            for i, a in enumerate(ats[1:], 1): r = r - Poly.atom(a, s.p).scale(1 << 64 * i)
            ats[0].frule[s.p] = r
        return Agg((Agg([Poly.atom(a) for a in ats] + [ZERO] * (s.nl - len(ats))),))
    def int_of(s, v):
        """integer polynomial sum limb_i 2^64i of a struct value"""
        if isinstance(v, FE): v = s.limbs(v)
        l = v.f[0].f
        return sum((x.scale(1 << 64 * i) for i, x in enumerate(l)), ZERO)
    def val(s, v):
        """field value of a struct value (FE or raw limbs)"""
        if isinstance(v, FE): return v.p
        return s.int_of(v).tofield(s.p).scale(s.Ri)

FACTS = []      # (kind, poly, why)  kind: ge0 / eq0
LIMBSUM = {}
FEQ = {}        # field equality atoms: key -> atom

def feq0(poly):
    """boolean polynomial for  poly == 0 in F_p"""
    if poly.is_const(): return ONE if poly.is_zero() else ZERO
    if len(poly.t) == 1:
        # a product is zero iff one of its factors is (p prime)
        (k, v), = poly.t.items()
        if len(k) > 1 or (isinstance(k[0][1], int) and k[0][1] != 1) or v != 1:
            r = ONE
            for a, e in k:
                if ATOMS[a].isbool: r = r * Poly.atom(ATOMS[a])
                elif not isinstance(e, int): break
                else: r = r * (ONE - feq0(Poly.atom(ATOMS[a], poly.m)))
            else: return ONE - r
    # monic normal form
    lead = max(poly.t.items(), key=lambda kv: [(a, str(e)) for a, e in kv[0]])
    q = poly.scale(pow(lead[1], -1, poly.m))
    a = new_atom("feq", "feq0", 0, 1, defn=q, key=("feq0", q.key()))
    return Poly.atom(a)

def reset_all():
    P.reset(); FACTS.clear(); LIMBSUM.clear()

# ---------------------------------------------------------------- program
class Prog:
    def __init__(s, path):
        t = open(path).read()
        # one spelling per library item, whichever re-export the compiler printed it through
        t = re.sub(r"\b(?:\w+::)*elliptic_curve::(subtle|generic_array|bigint|crypto_bigint)::", r"\1::", t)
        t = re.sub(r"\b(?:k256|primeorder)::elliptic_curve::", "elliptic_curve::", t)
        t = re.sub(r"\blibspartan::(core|rand|merlin|sha3|digest|byteorder|rand_core|itertools|flate2)::", r"\1::", t)
        t = t.replace("wasm_bindgen::__rt::core::", "core::").replace("wasm_bindgen::__rt::alloc::", "alloc::")
        t = t.replace("poseidon::k256_consts::FieldElement", "secq256k1::field::field_secp::FieldElement")
        d = json.loads(t)
        s.fns = d["fns"]; s.tys = d["tys"]; s.statics = d.get("statics", {}); s.roots = d["roots"]; s.crate = d["crate"]
        s.pd = {}
        s.byname = {}
        for k, f in s.fns.items():
            s.byname.setdefault(norm(f["name"]), []).append(k)
    def find(s, name):
        l = s.byname.get(name, [])
        l = [k for k in l if s.fns[k].get("blocks")]
        return l[0] if l else None
    def ctor(s, d):
        """constructor function of a tuple struct or variant (its body is not exported across crates)"""
        if not hasattr(s, "_ctor"):
            s._ctor = {}
            for t in s.tys:
                if t.get("k") != "adt": continue
                if t["kind"] == "struct": s._ctor[t["name"]] = (None, t["v"][0]["f"])
                elif t["kind"] == "enum":
                    for i, v in enumerate(t["v"]): s._ctor[t["name"] + "::" + v["n"]] = (v["disc"], v["f"])
        return s._ctor.get(d)
    def find_norm(s, name): return s.find(name)
    def is_local(s, f): return "/repo/" in f["file"]
    def ipdom(s, fid):
        r = s.pd.get(fid)
        if r is None: r = s.pd[fid] = compute_ipdom(s.fns[fid]["blocks"])
        return r

import re
_CR = re.compile(r"\b(rvc_core|rvc_full|libspartan|secq256k1|poseidon|circuit_reader|spartan_wasm|hashtocurve)::")
def norm(n):
    return _CR.sub("", n)

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "sw": return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "assert": return [t[4]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "ret": return ["E"]
    return []

def compute_ipdom(blocks):
    n = len(blocks)
    su = {i: succs(b["t"]) for i, b in enumerate(blocks)}
    pred = {}
    for i, l in su.items():
        for j in l: pred.setdefault(j, []).append(i)
    # nodes reaching E
    reach = {"E"}; st = ["E"]
    while st:
        x = st.pop()
        for p in pred.get(x, []):
            if p not in reach: reach.add(p); st.append(p)
    # reverse post order on the reverse graph
    order = []; seen = {"E"}
    stack = [("E", iter(pred.get("E", [])))]
    while stack:
        x, itr = stack[-1]
        for p in itr:
            if p in reach and p not in seen:
                seen.add(p); stack.append((p, iter(pred.get(p, [])))); break
        else:
            order.append(x); stack.pop()
    order.reverse()
    num = {x: i for i, x in enumerate(order)}
    idom = {"E": "E"}
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for x in order[1:]:
            new = None
            for y in su[x]:
                if y in idom and y in reach:
                    new = y if new is None else inter(new, y)
            if new is not None and idom.get(x) != new:
                idom[x] = new; ch = True
    return idom, reach

# ---------------------------------------------------------------- state
class State:
    __slots__ = ("cells", "pc", "lits")
    def __init__(s, cells=None, pc=(), lits=None):
        s.cells = {} if cells is None else cells
        s.pc = pc; s.lits = {} if lits is None else lits
    def fork(s): return State(dict(s.cells), s.pc, dict(s.lits))
    def simp(s, p):
        if not s.lits or not isinstance(p, Poly): return p
        if p.m is not None: return p
        q = p.subst(s.lits) if any(a in s.lits for k in p.t for a, _ in k) else p
        return q
    def assume(s, c):
        """add a boolean polynomial known to be 1"""
        c = s.simp(c)
        if c.is_const(): return
        s.pc = s.pc + (c,)
        if len(c.t) == 1:
            (k, v), = c.t.items()
            if v == 1:
                for a, _ in k: s._lit(a, 1)
        elif len(c.t) == 2 and c.t.get(()) == 1:
            k = [k for k in c.t if k != ()][0]
            if c.t[k] == -1 and len(k) == 1: s._lit(k[0][0], 0)
    def _lit(s, a, v):
        A = ATOMS[a]
        if not A.isbool: return
        s.lits[a] = C(v)
        if A.kind == "eq0" and v == 1:
            d = A.defn
            # solve for a single atom with unit coefficient and constant rest
            ks = [k for k in d.t if k != ()]
            if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1 and abs(d.t[ks[0]]) == 1:
                c = -d.t.get((), 0) * d.t[ks[0]]
                s.lits[ks[0][0][0]] = C(c)
            elif len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1:
                c = -d.t.get((), 0)
                if c % d.t[ks[0]] == 0: s.lits[ks[0][0][0]] = C(c // d.t[ks[0]])

class Frame:
    __slots__ = ("fid", "fn", "base", "tys", "cells")
    pass

_cell = [0]
def newcell():
    _cell[0] += 1
    return _cell[0]

def merge_val(c, a, b):
    if a is b: return a
    if c.is_const(): return a if c.cval() else b
    if same(a, b): return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a.m != b.m: return Phi(c, a, b)
        if a.m is None:
            r = c * (a - b) + b
            la, ha = a.bounds(); lb, hb = b.bounds()
            set_bounds(r, None if la is None or lb is None else min(la, lb), None if ha is None or hb is None else max(ha, hb))
            return r
        return fite(c, a, b)
    if isinstance(a, FE) and isinstance(b, FE) and a.spec is b.spec:
        return FE(fite(c, a.p, b.p), a.spec)
    if isinstance(a, FE) and isinstance(b, Agg): return merge_val(c, a.spec.limbs(a), b)
    if isinstance(b, FE) and isinstance(a, Agg): return merge_val(c, a, b.spec.limbs(b))
    if isinstance(a, (Agg, VecV)) and type(a) is type(b) and len(a.f) == len(b.f):
        return type(a)([merge_val(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        pay = dict(a.pay)
        for k, v in b.pay.items():
            if k in pay and len(pay[k]) == len(v):
                pay[k] = tuple(merge_val(c, x, y) for x, y in zip(pay[k], v))
            else: pay[k] = v
        return Enum(merge_val(c, a.disc, b.disc), pay)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k and isinstance(a.d, Poly) and isinstance(b.d, Poly):
        m = merge_val(c, a.d, b.d)
        if isinstance(m, Poly): return Obj(a.k, m)
    if isinstance(a, Clo) and isinstance(b, Clo) and a.inst == b.inst:
        return Clo(a.inst, merge_val(c, a.up, b.up))
    if isinstance(a, It) and isinstance(b, It) and a.k == b.k and len(a.d) == len(b.d):
        return It(a.k, *[merge_val(c, x, y) for x, y in zip(a.d, b.d)])
    return Phi(c, a, b)

def fite(c, a, b):
    """if c then a else b, in F_p; powers of one monomial merge in the exponent"""
    if a == b: return a
    if len(a.t) == 1 and len(b.t) == 1:
        (ka, va), = a.t.items(); (kb, vb), = b.t.items()
        if va == vb and len(ka) <= 1 and len(kb) <= 1 and (ka or kb):
            at = (ka or kb)[0][0]
            if (not ka or not kb or ka[0][0] == kb[0][0]) and not ATOMS[at].isbool:
                def ex(k):
                    if not k: return ZERO
                    e = k[0][1]
                    return C(e) if isinstance(e, int) else e.p
                ea, eb = ex(ka), ex(kb)
                e = c * (ea - eb) + eb
                return Poly.apow(ATOMS[at], e, a.m).scale(va)
    cf = Poly(dict(c.t)).tofield(a.m)
    return cf * (a - b) + b

# ---------------------------------------------------------------- executor
class Obl:
    __slots__ = ("kind", "fn", "line", "msg", "ok", "how", "t", "info")
    def __init__(s, kind, fn, line, msg, ok, how, info=None):
        s.kind = kind; s.fn = fn; s.line = line; s.msg = msg; s.ok = ok; s.how = how; s.info = info
    def __repr__(s): return "%s %s %s:%s %s [%s]" % ("ok  " if s.ok else "FAIL", s.kind, s.fn, s.line, s.msg, s.how)

def arith(op, a, b):
    """a op b over Z, recording the interval implied by the operands"""
    r = a + b if op == "Add" else a - b if op == "Sub" else a * b
    if r.is_const() or a.is_const() and op != "Mul": return r
    la, ha = a.bounds(); lb, hb = b.bounds()
    N = None
    if op == "Add": set_bounds(r, N if la is N or lb is N else la + lb, N if ha is N or hb is N else ha + hb)
    elif op == "Sub": set_bounds(r, N if la is N or hb is N else la - hb, N if ha is N or lb is N else ha - lb)
    elif None not in (la, ha, lb, hb):
        c = (la * lb, la * hb, ha * lb, ha * hb); set_bounds(r, min(c), max(c))
    return r

class Exec:
    def __init__(s, prog, solver, contracts=None, panic="prove", builtins=None, maxsteps=4000000):
        from . import builtins as B
        s.prog = prog; s.solver = solver
        s.contracts = contracts or {}
        s.disabled = set()
        s.panic = panic
        s.obls = []
        s.steps = 0; s.maxsteps = maxsteps
        s.used_fns = {}; s.used_contracts = {}; s.used_builtins = {}
        s.B = B
        s.constcells = {}
        s.constmemo = {}
        s.stack = []
        s.specs = {}          # adt name -> FSpec
        s.depth = 0
        s.maxfork = 600
        s.last = None

    # ----- obligations
    def where(s):
        if not s.stack: return ("?", 0)
        return s.stack[-1]
    def record(s, kind, msg, okk, how, info=None):
        fn, line = s.where()
        s.obls.append(Obl(kind, fn, line, msg, okk, how, info))
        return okk
    def prove(s, st, goal, kind, msg):
        """goal: boolean polynomial that must be 1 under the path condition"""
        goal = st.simp(goal)
        if goal.is_const():
            if goal.cval() == 1: return s.record(kind, msg, True, "interval")
        r, how, info = s.solver.prove_bool(goal, st.pc)
        return s.record(kind, msg, r, how, info)
    def valid(s, st, goal):
        goal = st.simp(goal)
        if goal.is_const(): return goal.cval() == 1
        return s.solver.prove_bool(goal, st.pc)[0]
    def feasible(s, st):
        return s.solver.feasible(st.pc)
    def do_panic(s, st, msg):
        if s.panic == "assume": return
        if not st.pc:
            s.record("no-panic", msg, False, "reached unconditionally"); return
        r, how, info = s.solver.prove_bool(ZERO, st.pc)
        s.record("no-panic", msg, r, how, info)

    # ----- types
    def ty(s, t): return s.prog.tys[t]
    def place_ty(s, fr, pl):
        t = fr.tys[pl[0]]
        for pr in pl[1]:
            k = pr[0]
            T = s.ty(t)
            if k == "d": t = T["e"] if "e" in T else (T["args"][0] if T["k"] == "adt" else None)
            elif k == "f": t = pr[2]
            elif k in ("i", "c"): t = T["e"]
            elif k == "s": t = t
            elif k == "v": pass
        return t
    def op_ty(s, fr, op):
        if op[0] in ("p", "m"): return s.place_ty(fr, op[1])
        if op[0] == "k": return op[1]["ty"]
        raise Unsupported("operand type %r" % (op[0],))

    # ----- constants
    def const(s, st, c):
        t = c["ty"]; v = c["v"]
        return s.cval(v, t)
    def cval(s, v, t):
        if v is None: raise Unsupported("const without value")
        T = s.ty(t) if t is not None else None
        if "i" in v: 
            return C(int(v["i"]))
        if "a" in v: return s.carr(v["a"], T)
        if "t" in v: return Agg([s.cval(x, (T["f"][i] if T and T["k"] == "tuple" else None)) for i, x in enumerate(v["t"])])
        if "s" in v:
            T2 = s.ty(v["s"])
            vi = v["v"]
            fs = tuple(s.cval(x, T2["v"][vi]["f"][i]) for i, x in enumerate(v["f"]))
            fm = s.specs.get(strip_crate(T2["name"]))
            if fm is not None:
                r = fm.lift(Agg(fs))
                if r is not None: return r
            if T2["kind"] == "enum": return Enum(C(vi), {vi: fs})
            return Agg(fs)
        if "ref" in v:
            key = id(v)
            m = s.constmemo.get(key)
            if m is None:
                et = T["e"] if T and "e" in T else None
                if v.get("slice") and isinstance(v["ref"], dict) and "a" in v["ref"]:
                    inner = s.carr(v["ref"]["a"], None)
                else: inner = s.cval(v["ref"], et)
                cid = newcell(); s.constcells[cid] = inner
                m = (Ref(cid), v); s.constmemo[key] = m
            return m[0]
        if "str" in v:
            key = id(v)
            m = s.constmemo.get(key)
            if m is None:
                cid = newcell(); s.constcells[cid] = Agg([C(b) for b in v["str"]])
                m = (Ref(cid), v); s.constmemo[key] = m
            return m[0]
        if "fn" in v: return FnV(v["fn"])
        if "zst" in v: return s.zst(v["zst"])
        if "static" in v:
            n = v["static"]
            if n not in s.constmemo:
                cid = newcell(); s.constcells[cid] = Opq("static " + n); s.constmemo[n] = (Ref(cid), v)
            return s.constmemo[n][0]
        return Opq("const")
    def carr(s, a, T):
        et = T["e"] if T and "e" in T else None
        if isinstance(a, dict): raise Unsupported("const array form")
        return Agg([C(int(x)) if isinstance(x, int) else s.cval(x, et) for x in a])
    def zst(s, t):
        T = s.ty(t)
        k = T["k"]
        if k == "fndef": return FnV(T.get("inst"), T)
        if k == "closure":
            i = T.get("inst")
            return Clo(i, Agg(()))
        if k == "tuple": return Agg([s.zst(x) for x in T["f"]])
        if k == "adt" and T["kind"] == "struct": return Agg([s.zst(x) for x in T["v"][0]["f"]])
        if k == "array": return Agg([])
        if k == "adt" and T["kind"] == "enum": return Enum(ZERO, {0: tuple(s.zst(x) for x in T["v"][0]["f"])})
        return Opq("zst")

    # ----- memory
    def getcell(s, st, c):
        v = st.cells.get(c)
        if v is None:
            v = s.constcells.get(c)
            if v is None: raise Unsupported("unknown cell")
        return v
    def resolve(s, st, fr, pl):
        cell = fr.base + pl[0]; path = ()
        for pr in pl[1]:
            k = pr[0]
            if k == "d":
                v = s.get(st, cell, path)
                if isinstance(v, Obj) and v.k == "box":
                    v = v.d
                if isinstance(v, Phi): v = s.phiref(v)
                if not isinstance(v, Ref): raise Unsupported("deref of %s" % type(v).__name__)
                cell, path = v.cell, v.path
            elif k == "f": path = path + (("f", pr[1]),)
            elif k == "v": path = path + (("v", pr[1]),)
            elif k == "i":
                i = st.simp(s.get(st, fr.base + pr[1], ()))
                path = path + (("i", i.cval() if i.is_const() else i),)
            elif k == "c":
                path = path + (("c", pr[1], pr[3]),)
            elif k == "s": path = path + (("ss", pr[1], pr[2], pr[3]),)
            elif k == "o": pass
            else: raise Unsupported("projection " + k)
        return cell, path
    def phiref(s, v):
        raise Unsupported("merged reference")
    def get(s, st, cell, path):
        v = s.getcell(st, cell)
        return s.walk(st, v, path)
    def walk(s, st, v, path):
        n = 0
        while n < len(path):
            e = path[n]; n += 1
            k = e[0]
            if isinstance(v, Phi):
                # push projection into both sides
                a = s.walk(st, v.a, path[n - 1:]); b = s.walk(st, v.b, path[n - 1:])
                return merge_val(v.c, a, b)
            if k == "f":
                if isinstance(v, FE): v = v.spec.limbs(v)
                if isinstance(v, Agg):
                    if e[1] >= len(v.f): raise Unsupported("field %d of %r" % (e[1], v))
                    v = v.f[e[1]]
                elif isinstance(v, Clo): v = v.up.f[e[1]]
                elif isinstance(v, Obj) and v.k == "box": v = v.d
                else: raise Unsupported("field of %s" % (type(v).__name__,))
            elif k == "v":
                if isinstance(v, Enum):
                    if n < len(path) and path[n][0] == "f":
                        i = path[n][1]; n += 1
                        if e[1] not in v.pay: raise Unsupported("variant payload missing")
                        v = v.pay[e[1]][i]
                    else: pass
                else: raise Unsupported("downcast of %s" % type(v).__name__)
            elif k == "i":
                v = s.index(st, v, e[1])
            elif k == "c":
                if not isinstance(v, (Agg, VecV)): raise Unsupported("const index")
                v = v.f[len(v.f) - e[1]] if e[2] else v.f[e[1]]
            elif k == "s":
                f = v.f[e[1]:e[1] + e[2]]
                v = Agg(f)
            elif k == "ss":
                if not isinstance(v, (Agg, VecV)): raise Unsupported("subslice")
                v = Agg(v.f[e[1]:len(v.f) - e[2]] if e[3] else v.f[e[1]:e[2]])
            elif k == "str": pass
            else: raise Unsupported("walk " + k)
        return v
    def index(s, st, v, i):
        if isinstance(v, Phi):
            return merge_val(v.c, s.index(st, v.a, i), s.index(st, v.b, i))
        if not isinstance(v, (Agg, VecV)): raise Unsupported("index of %s" % type(v).__name__)
        if isinstance(i, int):
            if i >= len(v.f): raise Unsupported("index out of range (unreached)")
            return v.f[i]
        r = v.f[-1]
        for j in range(len(v.f) - 2, -1, -1):
            r = merge_val(eq0(i - j), v.f[j], r)
        return r
    def put(s, st, cell, path, val):
        if not path:
            st.cells[cell] = val; return
        old = s.getcell(st, cell)
        st.cells[cell] = s.upd(st, old, path, val)
    def upd(s, st, v, path, val):
        if not path: return val
        e = path[0]; k = e[0]
        if isinstance(v, Phi): raise Unsupported("update of merged value")
        if k == "f":
            if isinstance(v, FE): v = v.spec.limbs(v)
            if v is UNINIT or isinstance(v, Opq):
                f = [UNINIT] * (e[1] + 1)
                f[e[1]] = s.upd(st, UNINIT, path[1:], val)
                return Agg(f)
            if isinstance(v, Clo): return Clo(v.inst, s.upd(st, v.up, path, val))
            if not isinstance(v, Agg): raise Unsupported("update field of %s" % type(v).__name__)
            f = list(v.f)
            while len(f) <= e[1]: f.append(UNINIT)
            f[e[1]] = s.upd(st, f[e[1]], path[1:], val)
            return Agg(f)
        if k == "v":
            if not isinstance(v, Enum): v = Enum(C(e[1]), {e[1]: ()})
            if len(path) > 1 and path[1][0] == "f":
                pay = dict(v.pay); fs = list(pay.get(e[1], ()))
                i = path[1][1]
                while len(fs) <= i: fs.append(UNINIT)
                fs[i] = s.upd(st, fs[i], path[2:], val)
                pay[e[1]] = tuple(fs)
                return Enum(v.disc, pay)
            return val
        if k == "i":
            i = e[1]; f = list(v.f)
            if isinstance(i, int): f[i] = s.upd(st, f[i], path[1:], val)
            else:
                for j in range(len(f)):
                    f[j] = merge_val(eq0(i - j), s.upd(st, f[j], path[1:], val), f[j])
            return type(v)(f)
        if k == "c":
            f = list(v.f); i = len(f) - e[1] if e[2] else e[1]
            f[i] = s.upd(st, f[i], path[1:], val)
            return type(v)(f)
        if k in ("s", "ss"):
            f = list(v.f)
            if k == "s": a, b = e[1], e[1] + e[2]
            else: a, b = e[1], (len(f) - e[2] if e[3] else e[2])
            sub = s.upd(st, Agg(f[a:b]), path[1:], val)
            f[a:b] = sub.f
            return type(v)(f)
        raise Unsupported("upd " + k)
    def load(s, st, ref):
        if isinstance(ref, Phi):
            return merge_val(ref.c, s.load(st, ref.a), s.load(st, ref.b))
        if isinstance(ref, Obj) and ref.k == "box": ref = ref.d
        if not isinstance(ref, Ref): raise Unsupported("load through %s" % type(ref).__name__)
        return s.get(st, ref.cell, ref.path)
    def store(s, st, ref, v):
        if not isinstance(ref, Ref): raise Unsupported("store through %s" % type(ref).__name__)
        s.put(st, ref.cell, ref.path, v)
    def alloc(s, st, v):
        c = newcell(); st.cells[c] = v
        return Ref(c)
    # slice helpers: value of a slice/array/vec behind a reference
    def seq(s, st, ref):
        v = s.load(st, ref) if isinstance(ref, (Ref, Phi)) or (isinstance(ref, Obj) and ref.k == "box") else ref
        while isinstance(v, Ref): v = s.load(st, v)
        if isinstance(v, (Agg, VecV)): return v.f
        raise Unsupported("sequence expected, got %s" % type(v).__name__)

    # ----- operands
    def opnd(s, st, fr, op):
        k = op[0]
        if k in ("p", "m"):
            cell, path = s.resolve(st, fr, op[1])
            v = s.get(st, cell, path)
            if isinstance(v, Poly): v = st.simp(v)
            return v
        if k == "k":
            if fr.fn.get("file") is None: pass
            return s.const(st, op[1])
        if k == "rc": return ONE
        raise Unsupported("operand " + k)
    def asint(s, v):
        if isinstance(v, Poly): return v
        raise Unsupported("integer expected, got %s" % type(v).__name__)

    # ----- integer ops
    def intinfo(s, t):
        T = s.ty(t)
        k = T["k"]
        if k == "bool": return 1, False
        if k == "uint": return T["w"], False
        if k == "int": return T["w"], True
        if k == "char": return 32, False
        return None, None
    def wrap(s, p, w, signed):
        """(wrapped value, overflow boolean)"""
        lo, hi = p.bounds()
        if signed: mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else: mn, mx = 0, (1 << w) - 1
        if lo is not None and hi is not None and lo >= mn and hi <= mx: return p, ZERO
        if signed:
            H, L = divmod2k(p + (1 << (w - 1)), w)
            L = L - (1 << (w - 1))
        else: H, L = divmod2k(p, w)
        if H.is_zero(): return L, ZERO
        if is_boolpoly(H): return L, H
        if is_boolpoly(-H): return L, -H
        return L, ONE - eq0(H)
    def binop(s, st, op, a, b, t, tb):
        w, sg = s.intinfo(t)
        o = op
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return s.cmp(st, o, a, b)
        if w is None:
            raise Unsupported("binop %s on %s" % (op, s.ty(t)["k"]))
        a = s.asint(a); b = s.asint(b)
        if o in ("Add", "AddUnchecked"): return s.wrap(arith("Add", a, b), w, sg)[0]
        if o in ("Sub", "SubUnchecked"): return s.wrap(arith("Sub", a, b), w, sg)[0]
        if o in ("Mul", "MulUnchecked"): return s.wrap(arith("Mul", a, b), w, sg)[0]
        if w == 1:
            if o == "BitAnd": return b_and(a, b)
            if o == "BitOr": return b_or(a, b)
            if o == "BitXor": return b_xor(a, b)
        if o == "BitAnd": return s.bitand(a, b, w, sg)
        if o == "BitOr": return s.bitor(a, b, w, sg)
        if o == "BitXor": return s.bitxor(a, b, w, sg)
        if o in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if not b.is_const():
                return s.symshift(st, o, a, b, w, sg)
            n = b.cval() % w
            if o.startswith("Shl"): return s.wrap(a.scale(1 << n), w, sg)[0]
            H, L = divmod2k(a, n) if n else (a, ZERO)
            return H
        if o == "Div" or o == "Rem":
            if b.is_const() and b.cval() > 0:
                d = b.cval()
                lo, hi = a.bounds()
                if lo is None or lo < 0: raise Unsupported("signed division")
                q, r = s.divn(a, d)
                return q if o == "Div" else r
            lo, hi = a.bounds(); bl, bh = b.bounds()
            if lo is None or lo < 0 or bl is None or bl < 0: raise Unsupported("signed division")
            q = Poly.atom(new_atom("quo", "var", 0, hi, key=("quo", a.key(), b.key())))
            r = Poly.atom(new_atom("rem", "var", 0, hi, key=("rem", a.key(), b.key())))
            FACTS.append(("eq0", a - q * b - r, "euclid")); FACTS.append(("ge0", b - 1 - r, "euclid"))
            return q if o == "Div" else r
        raise Unsupported("binop " + o)
    def symshift(s, st, o, a, b, w, sg):
        """shift by a bounded symbolic amount: selection over the concrete amounts"""
        lo, hi = b.bounds()
        if lo is None or hi is None or hi - lo > 256: raise Unsupported("unbounded symbolic shift")
        r = None
        for n in range(min(hi, w - 1), max(lo, 0) - 1, -1):
            v = s.wrap(a.scale(1 << n), w, sg)[0] if o.startswith("Shl") else (divmod2k(a, n)[0] if n else a)
            r = v if r is None else merge_val(eq0(b - n), v, r)
        return r
    def divn(s, a, d):
        if a.is_const(): return C(a.cval() // d), C(a.cval() % d)
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            return divmod2k(a, k) if k else (a, ZERO)
        lo, hi = a.bounds()
        # peel exact multiples
        q0 = {k: v // d for k, v in a.t.items()}
        r0 = Poly({k: v - d * q0[k] for k, v in a.t.items() if v - d * q0[k]})
        q0 = Poly({k: v for k, v in q0.items() if v})
        l, h = r0.bounds()
        if l is not None and h is not None and l >= 0 and h < d: return q0, r0
        at = new_atom("D%d" % d, "divn", None if l is None else l // d, None if h is None else h // d, defn=(r0, d), key=("divn", d, r0.key()))
        q = Poly.atom(at)
        r = r0 - q.scale(d)
        set_bounds(r, 0, d - 1)
        return q0 + q, r
    def cmp(s, st, o, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            raise Unsupported("pointer comparison")
        a = s.asint(a); b = s.asint(b)
        if o == "Eq":
            if is_boolpoly(a) and is_boolpoly(b) and not (a - b).is_const() and not a.is_const() and not b.is_const():
                return ONE - b_xor(a, b)
            return eq0(a - b)
        if o == "Ne": return ONE - s.cmp(st, "Eq", a, b)
        if o == "Lt": return lt0(a - b)
        if o == "Ge": return ONE - lt0(a - b)
        if o == "Gt": return lt0(b - a)
        if o == "Le": return ONE - lt0(b - a)
    def maskform(s, x, w):
        """x == (2^w-1)*b with b boolean -> b"""
        if x.is_zero(): return ZERO
        M = (1 << w) - 1
        if all(v % M == 0 for v in x.t.values()):
            q = Poly({k: v // M for k, v in x.t.items()})
            if is_boolpoly(q): return q
        return None
    def bmul(s, m, y):
        """boolean m times y, with bounds"""
        r = m * y
        lo, hi = y.bounds()
        if lo is not None and hi is not None: set_bounds(r, min(0, lo), max(0, hi))
        return r
    def bitand(s, a, b, w, sg):
        if a.is_const() and b.is_const(): return C(a.cval() & b.cval())
        if sg:
            lo, hi = a.bounds(); l2, h2 = b.bounds()
            if not (lo is not None and lo >= 0 and l2 is not None and l2 >= 0):
                # two's complement via unsigned
                if b.is_const() or a.is_const():
                    c, x = (b, a) if b.is_const() else (a, b)
                    if c.cval() >= 0 and lo is not None:
                        ux = divmod2k(x, w)[1]
                        return s.bitand(ux, c, w, False)
                raise Unsupported("signed and")
        for x, y in ((a, b), (b, a)):
            m = s.maskform(x, w)
            if m is not None: return s.bmul(m, y)
        if a == b: return a
        for x, y in ((a, b), (b, a)):
            if x.is_const():
                c = x.cval()
                # decompose mask into runs of ones
                runs = []; i = 0
                while c >> i:
                    if c >> i & 1:
                        j = i
                        while c >> j & 1: j += 1
                        runs.append((i, j)); i = j
                    else: i += 1
                if len(runs) <= 8:
                    r = ZERO
                    for i, j in runs:
                        t = divmod2k(y, i)[0] if i else y
                        t = divmod2k(t, j - i)[1]
                        r = r + t.scale(1 << i)
                    set_bounds(r, 0, c)
                    return r
        if is_boolpoly(a): return a * divmod2k(b, 1)[1]
        if is_boolpoly(b): return b * divmod2k(a, 1)[1]
        lo, hi = a.bounds(); l2, h2 = b.bounds()
        at = new_atom("and", "bv", 0, min(x for x in (hi, h2) if x is not None), key=("and",) + tuple(sorted((a.key(), b.key()), key=hash)), defn=("and", a, b))
        return Poly.atom(at)
    def disjoint(s, a, b):
        """a < 2^k and 2^k | b"""
        lo, hi = a.bounds()
        if hi is None or lo is None or lo < 0: return False
        k = hi.bit_length()
        return all(v % (1 << k) == 0 for v in b.t.values())
    def bitor(s, a, b, w, sg):
        if a.is_const() and b.is_const(): return C(a.cval() | b.cval())
        if a.is_zero(): return b
        if b.is_zero(): return a
        if s.disjoint(a, b) or s.disjoint(b, a):
            r = arith("Add", a, b)
            if not sg: set_bounds(r, 0, (1 << w) - 1)
            return r
        for x, y in ((a, b), (b, a)):
            m = s.maskform(x, w)
            if m is not None: return x + (ONE - m) * y
        if a == b: return a
        if is_boolpoly(a) and is_boolpoly(b): return b_or(a, b)
        # nonzero-ness of limb disjunctions: keep as an interned atom
        lo, hi = a.bounds(); l2, h2 = b.bounds()
        n = max(hi.bit_length(), h2.bit_length())
        at = new_atom("or", "bv", 0, (1 << n) - 1, key=("or",) + tuple(sorted((a.key(), b.key()), key=hash)), defn=("or", a, b))
        return Poly.atom(at)
    def bitxor(s, a, b, w, sg):
        if a.is_const() and b.is_const(): return C(a.cval() ^ b.cval())
        if a.is_zero(): return b
        if b.is_zero(): return a
        if a == b: return ZERO
        for x, y in ((a, b), (b, a)):
            m = s.maskform(x, w)
            if m is not None: return y + m * (C((1 << w) - 1) - y.scale(2))
        if is_boolpoly(a) and is_boolpoly(b): return b_xor(a, b)
        if s.disjoint(a, b) or s.disjoint(b, a): return a + b
        lo, hi = a.bounds(); l2, h2 = b.bounds()
        n = max(hi.bit_length(), h2.bit_length())
        at = new_atom("xor", "bv", 0, (1 << n) - 1, key=("xor",) + tuple(sorted((a.key(), b.key()), key=hash)), defn=("xor", a, b))
        return Poly.atom(at)

    # ----- rvalues
    def rvalue(s, st, fr, rv, dst_ty):
        k = rv[0]
        if k == "use": return s.opnd(st, fr, rv[1])
        if k == "ref" or k == "addr":
            cell, path = s.resolve(st, fr, rv[1])
            return Ref(cell, path)
        if k == "disc":
            cell, path = s.resolve(st, fr, rv[1])
            v = s.get(st, cell, path)
            if isinstance(v, Phi): v = merge_enum(v)
            if not isinstance(v, Enum): raise Unsupported("discriminant of %s" % type(v).__name__)
            t = s.place_ty(fr, rv[1])
            T = s.ty(t)
            vs = T.get("v") or []
            d = st.simp(v.disc)
            if all(i == x["disc"] for i, x in enumerate(vs)): return d
            if d.is_const(): return C(vs[d.cval()]["disc"])
            r = C(vs[-1]["disc"])
            for i in range(len(vs) - 1): r = merge_val(eq0(d - i), C(vs[i]["disc"]), r)
            return r
        if k == "len":
            cell, path = s.resolve(st, fr, rv[1])
            return s.lenof(st, s.get(st, cell, path))
        if k == "rep":
            v = s.opnd(st, fr, rv[1])
            n = rv[2]
            if not isinstance(n, int): raise Unsupported("repeat count")
            return Agg([v] * n)
        if k == "un":
            a = s.opnd(st, fr, rv[2]); t = s.op_ty(fr, rv[2])
            if isinstance(a, Opq): return a
            if rv[1] == "Not":
                w, sg = s.intinfo(t); a = s.asint(a)
                if w == 1: return ONE - a
                if sg: return -a - 1
                return C((1 << w) - 1) - a
            if rv[1] == "Neg":
                w, sg = s.intinfo(t)
                return s.wrap(-s.asint(a), w, sg)[0]
            if rv[1] == "PtrMetadata":
                return s.lenof(st, s.load(st, a))
            raise Unsupported("unop " + rv[1])
        if k == "bin":
            a = s.opnd(st, fr, rv[2]); b = s.opnd(st, fr, rv[3])
            if isinstance(a, (Ref, Opq)) or isinstance(b, (Ref, Opq)): return Opq("address bits")
            return s.binop(st, rv[1], a, b, s.op_ty(fr, rv[2]), None)
        if k == "chk":
            a = s.asint(s.opnd(st, fr, rv[2])); b = s.asint(s.opnd(st, fr, rv[3]))
            w, sg = s.intinfo(s.op_ty(fr, rv[2]))
            if rv[1] not in ("Add", "Sub", "Mul"): raise Unsupported("checked " + rv[1])
            r = arith(rv[1], a, b)
            lo, hi = r.bounds()
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if lo is not None and hi is not None and lo >= mn and hi <= mx: return Agg([r, ZERO])
            inr = b_and(ONE - lt0(r - mn), ONE - lt0(C(mx) - r))
            if s.valid(st, inr):
                # the interval may be recorded globally only when it does not depend on the path
                if not st.pc or s.solver.prove_bool(inr, ())[0]: set_bounds(r, mn, mx)
                return Agg([r, ZERO])
            v, ov = s.wrap(r, w, sg)
            if s.panic == "assume":
                if not st.pc: set_bounds(r, mn, mx)       # a run that does not panic stays in range
                st.assume(inr)
                return Agg([r, ZERO])
            return Agg([v, ov])
        if k == "cast": return s.cast(st, fr, rv[1], rv[2], rv[3])
        if k == "agg":
            a = rv[1]; ops = [s.opnd(st, fr, o) for o in rv[2]]
            kk = a[0]
            if kk in ("array", "tuple"): return Agg(ops)
            if kk == "adt":
                T = s.ty(a[1])
                if T["kind"] == "enum": return Enum(C(a[2]), {a[2]: tuple(ops)})
                if T["kind"] == "union": raise Unsupported("union")
                return Agg(ops)
            if kk == "closure":
                T = s.ty(a[1]) if isinstance(a[1], int) else None
                return Clo(T.get("inst") if T else None, Agg(ops))
            raise Unsupported("aggregate " + kk)
        raise Unsupported("rvalue " + k)
    def lenof(s, st, v):
        if isinstance(v, Phi): return merge_val(v.c, s.lenof(st, v.a), s.lenof(st, v.b))
        if isinstance(v, (Agg, VecV)): return C(len(v.f))
        raise Unsupported("len of %s" % type(v).__name__)
    def cast(s, st, fr, kind, op, t):
        v = s.opnd(st, fr, op)
        if kind == "IntToInt":
            w, sg = s.intinfo(t)
            if isinstance(v, Enum): v = v.disc
            v = s.asint(v)
            if w is None: raise Unsupported("cast target")
            return s.wrap(v, w, sg)[0]
        if kind.startswith("PointerCoercion"):
            if "ClosureFnPointer" in kind or "ReifyFnPointer" in kind or "UnsafeFnPointer" in kind: return v
            return v
        if kind in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            T = s.ty(t)
            if T["k"] in ("ref", "ptr") and isinstance(v, Ref): return v
            if kind == "Transmute" and isinstance(v, Poly) and T["k"] in ("uint", "int"):
                w, sg = s.intinfo(t); return s.wrap(v, w, sg)[0]
            if kind == "Transmute": return v
            return v
        if kind == "IntToFloat": return Obj("float", ("int", v))
        if kind == "FloatToInt" and isinstance(v, Obj) and v.k == "float":
            if v.d[0] == "int": return v.d[1]
            if v.d[0] == "sqrt":
                x = v.d[1]
                if x.is_const():
                    import math
                    n = x.cval()
                    # f64 conversion and sqrt are correctly rounded: reproduce with the same IEEE operation
                    return C(int(math.sqrt(float(n))))
                lo, hi = x.bounds()
                if lo is None or hi is None or lo < 0 or hi > 2**52: raise Unsupported("float sqrt of a symbolic integer")
                # IEEE sqrt is correctly rounded; below 2^52 its integer part is the integer square root
                r = Poly.atom(new_atom("isqrt", "var", 0, 2**26, key=("isqrt", x.key())))
                FACTS.append(("ge0", x - r * r, "f64 sqrt")); FACTS.append(("ge0", (r + 1) * (r + 1) - x - 1, "f64 sqrt"))
                return r
        raise Unsupported("cast " + kind)

    # ----- execution
    def call_fid(s, st, fid, args):
        fn = s.prog.fns.get(fid)
        if fn is None: raise Unsupported("unknown function " + str(fid))
        nm = fn["name"]
        if s.prog.is_local(fn) or fn.get("contractable"):
            c = s.find_contract(nm)
            if c is not None and nm not in s.disabled:
                s.used_contracts[nm] = s.used_contracts.get(nm, 0) + 1
                return c(s, st, fn, args)
        if not fn.get("blocks"):
            ct = s.prog.ctor(fn["def"])
            if ct is not None and len(args) == len(ct[1]): return Agg(args) if ct[0] is None else Enum(C(ct[0]), {ct[0]: tuple(args)})
            raise Unsupported("no body: " + nm)
        return s.run_fn(st, fid, fn, args)
    def find_contract(s, nm):
        return s.contracts.get(strip_crate(nm))
    def run_fn(s, st, fid, fn, args):
        s.depth += 1
        if s.depth > 200: raise Unsupported("recursion depth in " + fn["name"])
        key = fn["name"]
        s.used_fns[key] = s.used_fns.get(key, 0) + 1
        fr = Frame(); fr.fid = fid; fr.fn = fn; fr.tys = fn["locals"]
        n = len(fn["locals"])
        fr.base = _cell[0] + 1
        _cell[0] += n + 1
        if len(args) != fn["argc"]:
            if fn.get("spread") is not None: pass
            raise Unsupported("arity of " + fn["name"])
        for i in range(n): st.cells[fr.base + i] = UNINIT
        for i, a in enumerate(args): st.cells[fr.base + 1 + i] = a
        s.stack.append((fn["name"], fn["line"]))
        try:
            r = s.run_blocks(fr, st, 0, "E", 0)
        except BaseException:
            if not s.last: s.last = [(a[-70:], b) for a, b in s.stack[-7:]]
            raise
        finally:
            s.stack.pop(); s.depth -= 1
        if r is None: return None
        st2 = r
        v = st2.cells[fr.base]
        # `st` must be updated in place for the caller
        if st2 is not st:
            st.cells = st2.cells; st.pc = st2.pc; st.lits = st2.lits
        cells = st.cells
        for i in range(n): cells.pop(fr.base + i, None)
        return v
    def run_blocks(s, fr, st, bb, stop, nest):
        blocks = fr.fn["blocks"]
        while True:
            if bb == stop: return st
            if bb == "E": return st
            s.steps += 1
            if s.steps > s.maxsteps: raise Unsupported("step budget")
            if s.deadline and s.steps % 256 == 0:
                import time
                if time.time() > s.deadline: raise Unsupported("time budget")
            b = blocks[bb]
            s.stack[-1] = (fr.fn["name"], b["l"])
            for stm in b["s"]:
                k = stm[0]
                if k == "=":
                    pl = stm[1]
                    v = s.rvalue(st, fr, stm[2], None)
                    if not pl[1]: st.cells[fr.base + pl[0]] = v
                    else:
                        cell, path = s.resolve(st, fr, pl)
                        s.put(st, cell, path, v)
                elif k == "sd":
                    cell, path = s.resolve(st, fr, stm[1])
                    v = s.get(st, cell, path)
                    s.put(st, cell, path, Enum(C(stm[2]), dict(v.pay) if isinstance(v, Enum) else {}))
                elif k == "opaque":
                    raise Unsupported("statement " + str(stm[1:])[:80])
            t = b["t"]; k = t[0]
            if k == "goto": bb = t[1]; continue
            if k == "ret": bb = "E"; continue
            if k in ("unreach",):
                # must be unreachable
                return None
            if k == "resume": return None
            if k == "assert" and t[3] in ("misaligned pointer dereference", "null pointer dereference occurred"):
                bb = t[4]; continue          # debug checks on references and boxes: valid by construction in safe code
            if k == "assert":
                c = s.asint(s.opnd(st, fr, t[1]))
                g = c if t[2] else ONE - c
                if s.panic == "assume": st.assume(g)
                else:
                    g2 = st.simp(g)
                    if not (g2.is_const() and g2.cval() == 1):
                        s.prove(st, g, "no-panic", str(t[3])[:80])
                        st.assume(g)
                    else: s.record("no-panic", str(t[3])[:60], True, "interval")
                if st.pc and st.pc[-1].is_zero(): return None
                if st.simp(g).is_zero(): return None
                bb = t[4]; continue
            if k == "sw":
                v = s.opnd(st, fr, t[1])
                v = st.simp(s.asint(v))
                if v.is_const():
                    c = v.cval()
                    for val, tb in t[2]:
                        if int(val) == c: bb = tb; break
                    else: bb = t[3]
                    continue
                # symbolic fork
                idom, reach = s.prog.ipdom(fr.fid)
                J = idom.get(bb)
                if nest > s.maxfork: raise Unsupported("symbolic loop in %s (line %s)" % (fr.fn["name"], b["l"]))
                outs = []
                rest = ONE
                arms = []
                for val, tb in t[2]:
                    c = eq0(v - int(val)) if not (is_boolpoly(v)) else (v if int(val) == 1 else ONE - v if int(val) == 0 else ZERO)
                    arms.append((c, tb)); rest = rest * (ONE - c)
                if t[3] is not None and blocks[t[3]]["t"][0] != "unreach": arms.append((rest, t[3]))
                elif t[3] is not None and blocks[t[3]]["s"]: arms.append((rest, t[3]))
                for c, tb in arms:
                    c = st.simp(c)
                    if c.is_zero(): continue
                    st2 = st.fork()
                    st2.assume(c)
                    if len(st2.pc) > 0 and not s.quickfeas(st2): continue
                    r = s.run_blocks(fr, st2, tb, J if J is not None else "E", nest + 1)
                    if r is not None: outs.append((c, r))
                if not outs: return None
                if len(outs) == 1:
                    st_new = outs[0][1]
                else:
                    st_new = s.merge_states(st, outs)
                if st_new is not st:
                    st.cells = st_new.cells; st.pc = st_new.pc; st.lits = st_new.lits
                bb = J if J is not None else "E"
                continue
            if k == "call":
                args = [s.opnd(st, fr, a) for a in t[2]]
                cal = t[1]
                rty = s.place_ty(fr, t[3])
                r = s.do_call(st, fr, cal, args, t[2], rty, t[4])
                if r is None or t[4] is None: return None
                cell, path = s.resolve(st, fr, t[3])
                s.put(st, cell, path, r)
                bb = t[4]; continue
            raise Unsupported("terminator " + k)
    deadline = None
    def quickfeas(s, st):
        c = st.pc[-1]
        for d in st.pc[:-1]:
            d2 = d
            if (ONE - c) == d2: return False
        return s.solver.feasible_quick(st.pc)
    def merge_states(s, base, outs):
        n = len(base.pc)
        c0, acc = outs[-1]
        for c, o in reversed(outs[:-1]):
            cells = dict(acc.cells)
            oc = o.cells
            for k, v in oc.items():
                w = cells.get(k)
                if w is None: cells[k] = v
                elif w is not v: cells[k] = merge_val(c, v, w)
            acc = State(cells, base.pc, dict(base.lits))
        acc.pc = base.pc; acc.lits = dict(base.lits)
        if s.panic == "assume":       # what an arm's assertions leave behind still holds whenever that arm was taken
            for c, o in outs:
                for f in o.pc[n:]:
                    if f == c or f.is_const(): continue
                    g = ONE - c * (ONE - f)
                    if g.is_const() or len(g.t) > 40: continue
                    acc.assume(g)
        return acc
    def do_call(s, st, fr, cal, args, ops, rty, target):
        if "ptr" in cal:
            f = s.opnd(st, fr, cal["ptr"])
            if isinstance(f, FnV): return s.call_fid(st, f.inst, args)
            if isinstance(f, Clo): return s.call_closure(st, f, args)
            raise Unsupported("call through pointer")
        inst = cal.get("inst"); d = cal["def"]
        fn = s.prog.fns.get(inst) if inst else None
        if d in CALLS: return s.call_closure(st, args[0], list(args[1].f))
        if fn is not None and s.prog.is_local(fn) and fn.get("blocks"):
            return s.call_fid(st, inst, args)
        if fn is not None:
            c = s.find_contract(fn["name"])         # assumed contract of a dependency
            if c is not None:
                s.used_contracts[fn["name"]] = s.used_contracts.get(fn["name"], 0) + 1
                return c(s, st, fn, args)
        b = s.B.lookup(d, fn)
        ctx = CallCtx(s, st, fr, cal, fn, args, ops, rty)
        if b is not None:
            try: r = b(ctx)
            except s.B.Diverge: r = None                      # a closure called by the builtin never returns
            if r is not NotImplemented:
                s.used_builtins[d] = s.used_builtins.get(d, 0) + 1
                return r
        if target is None:
            s.do_panic(st, "call to " + d); return None
        if fn is not None and fn.get("blocks"):
            return s.call_fid(st, inst, args)
        raise Unsupported("call to %s" % d)
    def call_closure(s, st, clo, args):
        """clo: Clo | FnV | Ref to one of these"""
        env = clo
        v = clo
        while isinstance(v, Ref): env = v; v = s.load(st, v)
        if isinstance(v, FnV):
            return s.call_def(st, v, args)
        if not isinstance(v, Clo): raise Unsupported("closure call of %s" % type(v).__name__)
        inst = v.inst
        if isinstance(inst, dict): inst = inst.get("Fn")
        fn = s.prog.fns.get(inst)
        if fn is None or not fn.get("blocks"): raise Unsupported("closure body")
        T = s.ty(fn["locals"][1])
        if T["k"] == "ref": a0 = env if isinstance(env, Ref) else s.alloc(st, v)
        else: a0 = v
        if fn["argc"] == 1 + len(args): return s.run_fn(st, inst, fn, [a0] + list(args))
        if fn["argc"] == 2: return s.run_fn(st, inst, fn, [a0, Agg(args)])
        raise Unsupported("closure arity")
    def call_def(s, st, fv, args):
        fn = s.prog.fns.get(fv.inst)
        if fn is None: 
            raise Unsupported("fn item without body")
        d = fn["def"]
        if s.prog.is_local(fn) and fn.get("blocks"): return s.call_fid(st, fv.inst, args)
        c = s.find_contract(fn["name"])
        if c is not None:
            s.used_contracts[fn["name"]] = s.used_contracts.get(fn["name"], 0) + 1
            return c(s, st, fn, args)
        b = s.B.lookup(d, fn)
        if b is not None:
            r = b(CallCtx(s, st, None, {"def": d, "args": [], "inst": fv.inst}, fn, args, None, None))
            if r is not NotImplemented: return r
        # enum/struct constructors
        if fn.get("ctor"): pass
        return s.call_fid(st, fv.inst, args)

CALLS = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call", "core::ops::FnOnce::call_once", "core::ops::FnMut::call_mut", "core::ops::Fn::call")
def merge_enum(v):
    if isinstance(v, Phi): return merge_val(v.c, merge_enum(v.a), merge_enum(v.b))
    return v

class CallCtx:
    __slots__ = ("ex", "st", "fr", "cal", "fn", "args", "ops", "rty")
    def __init__(s, ex, st, fr, cal, fn, args, ops, rty):
        s.ex = ex; s.st = st; s.fr = fr; s.cal = cal; s.fn = fn; s.args = args; s.ops = ops; s.rty = rty
    def argty(s, i):
        """type of argument i (from the callee signature when known)"""
        if s.fn is not None and s.fn.get("locals"): return s.ex.ty(s.fn["locals"][1 + i])
        if s.ops is not None: return s.ex.ty(s.ex.op_ty(s.fr, s.ops[i]))
        return None

def strip_crate(nm):
    # <rvc_core::a::B as std::X>::f  ->  <a::B as std::X>::f ; only local crate prefixes are removed
    return _CR.sub("", nm)
