"""Contracts of the circom templates of /repo and the units that discharge them."""
import os, random, time
from .poly import Poly
from .parse import Program, CircomError
from .elab import Elab, Frame, flat
from .dom import *

ROOT = os.environ.get("CVC_ROOT", "/repo/packages/circuits/")
EC = ROOT + "eff_ecdsa_membership/"
BIG = 1 << 2048
# ---------------------------------------------------------------- curve arithmetic (oracle)
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def pneg(a): return a and (a[0], (-a[1]) % P)
def pmul(k, a):
    k %= N; r = None
    while k:
        if k & 1: r = padd(r, a)
        a = padd(a, a); k >>= 1
    return r
def xy(a): return a or (0, 0)
def lift(x):
    y2 = (x * x * x + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return (x, y) if y * y % P == y2 else None
assert pow(7, (P - 1) // 2, P) == P - 1          # no point with x = 0
assert pmul(N - 1, G) == pneg(G)                 # N * G is the identity
# no point with y = 0: -7 is not a cube (the order of the curve is odd)
assert pow(P - 7, (P - 1) // 3, P) != 1

class Unit:
    """one template put under contract"""
    def __init__(self, name, file, template, params, setup, post, contracts=(), modes=("sound", "complete"), ints=False, alias=False, bits=False, conc=None, bounded=None, static=None):
        self.name, self.file, self.template, self.params, self.setup, self.post = name, file, template, params, setup, post
        self.contracts, self.modes, self.ints, self.alias, self.bits, self.conc, self.bounded = dict(contracts), modes, ints, alias, bits, conc, bounded
        self.obls, self.err, self.used, self.secs, self.fn, self.branches = [], None, {}, 0.0, "%s (%s)" % (template, file.replace(ROOT, "")), 0
        self.usedb, self.solver_s, self.calls, self.usedc = {}, 0, 0, {}
        self.static, self.lazy, self.conc_contracts = static, False, {}

CACHE = {}
def program(f):
    if f not in CACHE: CACHE[f] = Program(f)
    return CACHE[f]

def run(u, budget=240):
    """discharge a unit: every case split, in every mode"""
    t0 = time.time(); u.obls, u.err = [], None
    try:
        prog = program(u.file)
        if u.static: u.static(u, prog); u.secs = time.time() - t0; return u
        plain = False
        for mode in u.modes:
            script = []; feasible = 0
            if mode == "complete" and plain: continue      # no hint, no constraint besides definitions: the two arguments are one
            plain = True
            while True:
                d = Sym(mode == "sound", script, u.contracts, u.alias, u.bits, u.template + (" soundness" if mode == "sound" else " completeness"))
                d.ints = u.ints; d.deadline = t0 + budget
                el = Elab(prog, d); st = None
                try:
                    ins, outs = el.signature(u.template, u.params)
                    i, st = u.setup(d, ins)
                    need = {(n, ix) for n, dm in ins.items() for ix in flat(dm)}
                    if need != set(i): raise CircomError("template %s does not have the inputs its contract names: %s" % (u.template, sorted(need ^ set(i))[:4]))
                    own = d.contracts.pop(u.template, None) if u.template in d.contracts else None
                    d.contracts = {k: v for k, v in u.contracts.items() if k != u.template}
                    o = el.inline(u.template, u.params, i, u.template)
                    u.post(d, i, o, st); feasible += 1
                except Infeasible: pass
                except Stop: feasible += 1
                plain = plain and d.plain
                u.obls += d.obls; u.solver_s += d.solver_s; u.calls += d.calls
                for k, v in d.used.items(): u.used[k] = u.used.get(k, 0) + v
                u.branches += 1
                script = [c for c, n, w in d.trail]
                while script and script[-1] == d.trail[len(script) - 1][1] - 1: script.pop()
                if not script: break
                script[-1] += 1
                if sum(1 for o in u.obls if not o.ok) > 6: break
            u.obls.append(Obl(feasible > 0, "vacuity", u.template, "the precondition is satisfiable with the constraints (%s)" % mode, "path enumeration"))
    except (Unsupported, CircomError) as e:
        u.obls.append(Obl(False, "extraction" if isinstance(e, CircomError) else "reach", u.template, str(e), "elaboration"))
        u.err = None if isinstance(e, CircomError) else "unsupported: %s" % e
    except (RecursionError, MemoryError): u.err = "unsupported: recursion or memory"; u.obls.append(Obl(False, "reach", u.template, u.err))
    u.secs = time.time() - t0
    return u
def good(u): return not u.err and u.obls and all(o.ok for o in u.obls)

# ---------------------------------------------------------------- points, algebraically
def curve_point(d, x, y, nm=""):
    X, Y = d.atom(x), d.atom(y)
    d.seen().update((x, y))
    d.ysq[y] = X * X * X + 7
    d.nonzero += [X, Y]
    return X, Y
def chord(d, p, q):
    l = (p[1] - q[1]) * d.inverse(p[0] - q[0])
    x = l * l - p[0] - q[0]
    return x, l * (p[0] - x) - p[1]
def tangent(d, p):
    l = p[0] * p[0] * 3 * d.inverse(p[1] * 2)
    x = l * l - p[0] * 2
    return x, l * (p[0] - x) - p[1]
def pins(**k): return {(n, ()): v for n, v in k.items()}
def add_incomplete_setup(d, ins):
    p = curve_point(d, "xP", "yP"); q = curve_point(d, "xQ", "yQ"); d.nonzero.append(p[0] - q[0])
    return pins(xP=p[0], yP=p[1], xQ=q[0], yQ=q[1]), chord(d, p, q)
def out_point(d, i, o, st):
    d.eq(o[("outX", ())], st[0], "outX is the x coordinate of the sum")
    d.eq(o[("outY", ())], st[1], "outY is the y coordinate of the sum")
def double_setup(d, ins):
    p = curve_point(d, "xP", "yP"); return pins(xP=p[0], yP=p[1]), tangent(d, p)
ADD_CASES = {
 "O + O": lambda d: ((0, 0), (0, 0), (0, 0)),
 "O + Q": lambda d: ((0, 0), curve_point(d, "xQ", "yQ"), "Q"),
 "P + O": lambda d: (curve_point(d, "xP", "yP"), (0, 0), "P"),
 "P + P": lambda d: (lambda p: (p, p, tangent(d, p)))(curve_point(d, "xP", "yP")),
 "P - P": lambda d: (lambda p: (p, (p[0], -p[1]), (0, 0)))(curve_point(d, "xP", "yP")),
 "P + Q": lambda d: (lambda p, q: (d.nonzero.append(p[0] - q[0]), (p, q, chord(d, p, q)))[1])(curve_point(d, "xP", "yP"), curve_point(d, "xQ", "yQ")),
}
def add_complete_setup(case):
    def f(d, ins):
        p, q, r = ADD_CASES[case](d)
        r = q if r == "Q" else p if r == "P" else r
        return pins(xP=p[0], yP=p[1], xQ=q[0], yQ=q[1]), r
    return f
def conc_add(rng, kind):
    def pt(): return pmul(rng.randrange(1, N), G)
    def small():
        while 1:
            a = lift(rng.choice([rng.randrange(1, 40), P - rng.randrange(1, 40), rng.randrange(P)]))
            if a: return a if rng.random() < .5 else pneg(a)
    a, b = rng.choice([pt, small])(), rng.choice([pt, small])()
    c = rng.randrange(12)
    if kind == "complete":
        if c == 0: a = None
        if c == 1: b = None
        if c == 2: a = b = None
        if c == 3: b = a
        if c == 4: b = pneg(a)
        if c in (5, 6):                          # y coordinates with a small relation: sums and differences to constants
            k = rng.choice([1, P - 1, 2, 0])
            y = (k - a[1]) % P; x3 = (y * y - 7) % P
            r = cuberoot(x3)
            if r is not None: b = (r, y)
        if c == 7:
            for k in (1, P - 1, 2, 3):
                r = cuberoot((k * k - 7) % P)
                if r is not None and rng.random() < .6: b = (r, k)
    if kind == "incomplete" and a[0] == b[0]: return None
    if kind == "double": return {"xP": a[0], "yP": a[1]}, dict(zip(("outX", "outY"), xy(padd(a, a))))
    (x1, y1), (x2, y2) = xy(a), xy(b)
    return {"xP": x1, "yP": y1, "xQ": x2, "yQ": y2}, dict(zip(("outX", "outY"), xy(padd(a, b))))
def cuberoot(a):
    if a == 0: return 0
    if pow(a, (P - 1) // 3, P) != 1: return None
    # P = 7 mod 9
    assert P % 9 == 7
    r = pow(a, (P + 2) // 9, P)
    return r if pow(r, 3, P) == a else None

# ---------------------------------------------------------------- points, as multiples of base points (ladders)
class Grp:
    """table of known points: normal forms of coordinates -> integer combination of base points"""
    def __init__(self, d): self.d = d; self.t = {}; d.grp = self; self.rel = []; self.n = 0
    def base(self, b, x, y): self.put(x, y, {b: Poly.const(1, BIG)})
    def put(self, x, y, g): self.t[(self.d.keyof(x), self.d.keyof(y))] = g
    def find(self, x, y):
        d = self.d
        bs = sorted(a for v in (x, y) if isinstance(v, Poly) for a in d.norm(v).atoms() if a in d.bools)
        bs = sorted(set(bs))
        if len(bs) > 4: return None
        out = {}
        for m in range(1 << len(bs)):
            asg = {b: Poly.const(m >> k & 1, P) for k, b in enumerate(bs)}
            v = [d.norm(w).subst(asg) if isinstance(w, Poly) else w for w in (x, y)]
            k = tuple(d.keyof(w) for w in v)
            if k == (0, 0): g = {}
            elif k in self.t: g = self.t[k]
            else:
                k2 = (k[0], d.keyof(-d.norm(v[1])))
                if k2 not in self.t: return None
                g = {b: -c for b, c in self.t[k2].items()}
            w = Poly.const(1, BIG)
            for j, b in enumerate(bs):
                a = Poly.atom(b, BIG); w = w * (a if m >> j & 1 else 1 - a)
            for b, c in g.items(): out[b] = out.get(b, Poly({}, BIG)) + c * w
        return {b: self.boolred(c) for b, c in out.items() if self.boolred(c).t}
    def boolred(self, v):
        r = Poly({}, BIG)
        for m, c in v.t.items(): r = r + Poly({tuple((a, 1 if a in self.d.bools else e) for a, e in m): c}, BIG)
        return r
    def range(self, v):
        """integer interval of a combination of booleans"""
        lo = hi = 0
        for m, c in v.t.items():
            if c > BIG // 2: c -= BIG
            if any(a not in self.d.bools for a, _ in m): return None
            if not m: lo += c; hi += c
            elif c > 0: hi += c
            else: lo += c
        return lo, hi
    def nonmult(self, g):
        """g is not the identity: a single base point of order N with a coefficient that no boolean values make a multiple of N"""
        if len(g) != 1: return False
        v = next(iter(g.values())); bs = sorted(v.atoms())
        if len(bs) <= 5 and all(b in self.d.bools for b in bs):
            for m in range(1 << len(bs)):
                x = v.subst({b: Poly.const(m >> k & 1, BIG) for k, b in enumerate(bs)}).c()
                if (x if x <= BIG // 2 else x - BIG) % N == 0: return False
            return True
        r = self.range(v)
        return r is not None and (r[0] > 0 or r[1] < 0) and (r[0] - 1) // N == r[1] // N
    def sum(self, a, b, s=1):
        o = dict(a)
        for k, c in b.items(): o[k] = o.get(k, Poly({}, BIG)) + c * s
        return {k: c for k, c in o.items() if c.t}
    def out(self, path, g):
        d = self.d
        if not g: return {("outX", ()): 0, ("outY", ()): 0}
        x, y = d.fresh(path + ".x"), d.fresh(path + ".y"); self.put(x, y, g)
        return {("outX", ()): x, ("outY", ()): y}
    def intatom(self, v):
        v = self.d.norm(v)
        if v.isconst(): return Poly.const(v.c(), BIG)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return Poly.atom(m[0][0], BIG)
        return Poly.atom("int" + str(hash(v.key())), BIG)
    def same(self, a, b):
        """equal modulo N, using the recorded relations (each: a polynomial that is a multiple of N, and an atom it is linear in)"""
        def redN(v):
            for at, val in self.rel: v = v.subst({at: val})
            return {m: (c if c <= BIG // 2 else c - BIG) % N for m, c in v.t.items() if (c if c <= BIG // 2 else c - BIG) % N}
        ks = set(a) | set(b)
        z = Poly({}, BIG)
        return all(redN(self.boolred(a.get(k, z) - b.get(k, z))) == {} for k in ks)
def show(g): return {k: str(v)[:200] for k, v in (g or {}).items()}
def g_in(d, i, a, b, path, what):
    g = d.grp.find(i[(a, ())], i[(b, ())])
    d.oblige(g is not None, "precondition", "%s of %s is a known multiple of the base points (or the identity)" % (what, path), path,
             info=None if g is not None else {"x": str(i[(a, ())])[:300], "y": str(i[(b, ())])[:300]})
    return g
def c_add_incomplete(d, el, params, i, path):
    p, q = g_in(d, i, "xP", "yP", path, "P"), g_in(d, i, "xQ", "yQ", path, "Q")
    for w, g in (("P", p), ("Q", q)): d.oblige(d.grp.nonmult(g), "precondition", "incomplete addition: %s is not the identity" % w, path, "interval", None if d.grp.nonmult(g) else show(g))
    for w, s in (("P and Q are different", -1), ("P and -Q are different", 1)):
        g = d.grp.sum(p, q, s)
        d.oblige(d.grp.nonmult(g), "precondition", "incomplete addition: " + w, path, "interval", None if d.grp.nonmult(g) else show(g))
    return d.grp.out(path, d.grp.sum(p, q))
def c_double(d, el, params, i, path):
    p = g_in(d, i, "xP", "yP", path, "P")
    d.oblige(d.grp.nonmult(p), "precondition", "doubling: P is not the identity", path, "interval")
    return d.grp.out(path, d.grp.sum(p, p))
def c_add_complete(d, el, params, i, path):
    p, q = g_in(d, i, "xP", "yP", path, "P"), g_in(d, i, "xQ", "yQ", path, "Q")
    return d.grp.out(path, d.grp.sum(p, q))
def c_mul(d, el, params, i, path):
    p = g_in(d, i, "xP", "yP", path, "P")
    d.oblige(d.grp.nonmult(p), "precondition", "scalar multiplication: P is not the identity", path, "interval")
    k = d.grp.intatom(i[("scalar", ())])
    return d.grp.out(path, {b: c * k for b, c in p.items()})
def c_k(d, el, params, i, path):
    if not hasattr(d, "grp"): return None
    bits = [d.boolean("%s.k[%d]" % (path, j)) for j in range(256)]
    s = d.grp.intatom(i[("s", ())])
    v = Poly.const(2**256, BIG)
    for j, b in enumerate(bits): v = v + Poly.atom(next(iter(b.atoms())), BIG) * (1 << j)
    ats = s.atoms()
    if len(ats) == 1: d.grp.rel.append((next(iter(ats)), v))       # s = 2^256 + sum 2^j k_j  modulo the group order
    return {("out", (j,)): b for j, b in enumerate(bits)}
EC_CONTRACTS = {"Secp256k1AddIncomplete": c_add_incomplete, "Secp256k1AddComplete": c_add_complete, "Secp256k1Double": c_double, "Secp256k1Mul": c_mul, "K": c_k}
def mul_setup(d, ins):
    g = Grp(d); x, y = curve_point(d, "xP", "yP"); g.base("P", x, y)
    s = d.atom("s"); d.seen().add("s")
    return {("scalar", ()): s, ("xP", ()): x, ("yP", ()): y}, {"P": Poly.atom("s", BIG)}
def mul_post(d, i, o, st, a="outX", b="outY", what="the output is scalar * P"):
    g = d.grp.find(o[(a, ())], o[(b, ())])
    ok = g is not None and d.grp.same(g, st)
    d.oblige(ok, "postcondition", what, info=None if ok else {"computed": show(g), "specified": show(st)})
def ecdsa_setup(d, ins):
    g = Grp(d); t = curve_point(d, "Tx", "Ty"); u = curve_point(d, "Ux", "Uy"); g.base("T", *t); g.base("U", *u)
    d.seen().add("s")
    return pins(s=d.atom("s"), Tx=t[0], Ty=t[1], Ux=u[0], Uy=u[1]), {"T": Poly.atom("s", BIG), "U": Poly.const(1, BIG)}
def ecdsa_setup_o(d, ins):
    g = Grp(d); t = curve_point(d, "Tx", "Ty"); g.base("T", *t); d.seen().add("s")
    return pins(s=d.atom("s"), Tx=t[0], Ty=t[1], Ux=0, Uy=0), {"T": Poly.atom("s", BIG)}
def ecdsa_post(d, i, o, st): mul_post(d, i, o, st, "pubKeyX", "pubKeyY", "the public key is s * T + U")

# ---------------------------------------------------------------- integers: the scalar recoding
TQ = (N - 2**256) % N
def k_setup(d, ins): d.seen().add("s"); return {("s", ()): d.atom("s")}, None
def bitatoms(d, vals, what):
    out = []
    for v in vals:
        ok = isinstance(v, Poly) and len(v.t) == 1 and next(iter(v.t.items()))[1] == 1 and len(next(iter(v.t))) == 1 and next(iter(v.t))[0][0] in d.bools
        if isinstance(v, int): d.oblige(v in (0, 1), "postcondition", what + " are bits"); out.append(v); continue
        d.oblige(ok, "postcondition", what + " are bits", info=None if ok else {"value": str(v)})
        out.append(next(iter(v.t))[0][0])
    return out
def k_post(d, i, o, st):
    bs = bitatoms(d, [o[("out", (j,))] for j in range(256)], "the outputs")
    s = d.canon(i[("s", ())])
    terms = [(1 << j, b) for j, b in enumerate(bs) if not isinstance(b, int)]; const = sum((1 << j) * b for j, b in enumerate(bs) if isinstance(b, int))
    d.prove(lambda z: z3.Or([z.isum(terms) + const == z.val(s) + TQ - N * t for t in range(-1, 3)]), "postcondition", "the bits are those of a number congruent to s - 2^256 modulo the group order")
def canon_setup(d, ins): d.seen().add("in"); return {("in", ()): d.atom("in")}, None
def canon_post(d, i, o, st):
    bs = bitatoms(d, [o[("out", (j,))] for j in range(256)], "the outputs")
    v = d.canon(i[("in", ())])
    d.prove(lambda z: z.isum([(1 << j, b) for j, b in enumerate(bs)]) == z.val(v), "postcondition", "the bits are those of the canonical representative of the input")
def c_canonbits(d, el, params, i, path):
    v = i[("in", ())]
    if getattr(d, "ints", False):
        v = d.canon(v if isinstance(v, Poly) else Poly.const(v, P))
        bits = [d.boolean("%s.out[%d]" % (path, k)) for k in range(256)]; g = [next(iter(b.atoms())) for b in bits]
        for k, a in enumerate(g): d.bitgroups[a] = (path, k)
        d.rels.append(("cbits", v, [(1 << k, a) for k, a in enumerate(g)], 256))
        return {("out", (k,)): b for k, b in enumerate(bits)}
    if d.bitmode: return None
    return {("out", (k,)): d.fn("bit", [k, v], True) for k in range(256)}
def conc_k(rng):
    b = [0, 1, N - 1, N, N + 1, P - 1, 2**128 - 1, 2**128, 2**256 - N, 2**256 - N - 1, 2**128 - (TQ & (2**128 - 1)), 2 * N - 2**256, 2**129, N >> 1, TQ, P - N]
    s = rng.choice([rng.randrange(P), rng.choice(b) + rng.randrange(-3, 4), rng.randrange(2**128), rng.randrange(2**130), P - rng.randrange(2**130), rng.randrange(2**rng.randrange(1, 257))]) % P
    return {"s": s}, lambda o: (sum(o[("out", (j,))] << j for j in range(256)) - s - TQ) % N == 0 and all(o[("out", (j,))] in (0, 1) for j in range(256))
def conc_mul(rng):
    k = rng.choice([rng.randrange(P), rng.randrange(20), N - rng.randrange(20), N + rng.randrange(20), rng.randrange(2**128, 2**130), P - 1 - rng.randrange(5)]) % P
    a = pmul(rng.randrange(1, N), G) if rng.random() < .7 else G
    return {"scalar": k, "xP": a[0], "yP": a[1]}, dict(zip(("outX", "outY"), xy(pmul(k, a))))
def conc_ecdsa(rng):
    s = rng.choice([rng.randrange(N), rng.randrange(1, 6)]); t = pmul(rng.randrange(1, N), G); c = rng.randrange(6)
    u = pmul(rng.randrange(1, N), G)
    if c == 0: u = pneg(pmul(s, t))
    if c == 1: u = pmul(s, t)
    if c == 2: u = None
    (ux, uy) = xy(u); r = xy(padd(pmul(s, t), u))
    return {"s": s, "Tx": t[0], "Ty": t[1], "Ux": ux, "Uy": uy}, {"pubKeyX": r[0], "pubKeyY": r[1]}
def conc_canon(rng):
    v = rng.choice([rng.randrange(P), rng.randrange(2**33), P - 1 - rng.randrange(4), 2**32 + 977 + rng.randrange(-2, 2)])
    return {"in": v}, lambda o: sum(o[("out", (j,))] << j for j in range(256)) == v

# ---------------------------------------------------------------- Poseidon
def poseidon_setup(d, ins):
    a, b = d.atom("a"), d.atom("b"); d.seen().update("ab")
    return {("inputs", (0,)): a, ("inputs", (1,)): b}, (a, b)
def poseidon_post(d, i, o, st):
    from rvc.suites.poseidon import reference, RC, MDS
    def sbox(x):
        x = d.aliased(x) if isinstance(x, Poly) else x
        return x * x * x * x * x
    d.eq(o[("out", ())], reference(st[0], st[1], sbox=sbox, red=lambda v: v), "out is element 1 of the Poseidon permutation of (3, a, b)")
def conc_poseidon(rng):
    from rvc.suites.poseidon import reference
    a, b = [rng.choice([rng.randrange(P), rng.randrange(3), P - 1]) for _ in range(2)]
    return {"inputs": [a, b]}, {"out": reference(a, b)}
def c_poseidon(d, el, params, i, path):
    if params: return None
    return {("out", ()): d.fn("Poseidon", [i[("inputs", (0,))], i[("inputs", (1,))]])}
# ---------------------------------------------------------------- Merkle paths
def root_of(d, leaf, idx, sib):
    h = leaf
    for b, s in zip(idx, sib):
        l, r = d.define("", d.add(d.mulv(d.sub(s, h), b), h)), d.define("", d.add(d.mulv(d.sub(h, s), b), s))
        h = d.fn("Poseidon", [l, r])
    return h
def merkle_setup(n):
    def f(d, ins):
        names = ["leaf"] + ["b%d" % k for k in range(n)] + ["s%d" % k for k in range(n)]
        d.seen().update(names)
        if not d.sound: d.bools.update("b%d" % k for k in range(n))
        i = {("leaf", ()): d.atom("leaf")}
        for k in range(n): i[("pathIndices", (k,))] = d.atom("b%d" % k); i[("siblings", (k,))] = d.atom("s%d" % k)
        return i, n
    return f
def merkle_post(d, i, o, n):
    for k in range(n): d.oblige("b%d" % k in d.bools, "postcondition", "path index %d is forced to be a bit" % k)
    d.eq(o[("root", ())], root_of(d, i[("leaf", ())], [i[("pathIndices", (k,))] for k in range(n)], [i[("siblings", (k,))] for k in range(n)]), "root is the Poseidon Merkle root of the path from the leaf")
def c_merkle(d, el, params, i, path):
    n = params[0]
    bs = [i[("pathIndices", (k,))] for k in range(n)]
    for k, b in enumerate(bs):
        if isinstance(b, int) : b = Poly.const(b, P)
        if d.sound: d.setzero(b * b - b)
        else: d.oblige(d.known_zero(b * b - b), "precondition", "path index %d is a bit" % k, path)
    return {("root", ()): d.fn("MerkleRoot", [i[("leaf", ())]] + [x for k in range(n) for x in (bs[k], i[("siblings", (k,))])])}
def merkle_value(leaf, idx, sib):
    from rvc.suites.poseidon import reference
    for b, s in zip(idx, sib): leaf = reference(s, leaf) if b else reference(leaf, s)
    return leaf
def conc_merkle(n):
    def f(rng):
        leaf = rng.randrange(P); idx = [rng.randrange(2) for _ in range(n)]; sib = [rng.choice([rng.randrange(P), 0]) for _ in range(n)]
        if rng.random() < .3 and n:
            idx[rng.randrange(n)] = rng.choice([2, P - 1, rng.randrange(P)]); return {"leaf": leaf, "pathIndices": idx, "siblings": sib}, "refuse"
        return {"leaf": leaf, "pathIndices": idx, "siblings": sib}, {"root": merkle_value(leaf, idx, sib)}
    return f
# ---------------------------------------------------------------- membership
MEMBER_IN = ("s", "root", "Tx", "Ty", "Ux", "Uy")
def member_setup(n, leaf):
    def f(d, ins):
        d.seen().update(MEMBER_IN)
        i = {(k, ()): d.atom(k) for k in MEMBER_IN}
        t = curve_point(d, "Tx", "Ty"); u = curve_point(d, "Ux", "Uy"); d.known = {d.keyof(x): True for x in (*t, *u)}
        for k in range(n):
            i[("pathIndices", (k,))] = d.atom("b%d" % k); i[("siblings", (k,))] = d.atom("s%d" % k); d.seen().update(("b%d" % k, "s%d" % k))
            if not d.sound: d.bools.add("b%d" % k)
        key = [d.fn("pubKey%s" % c, [i[(k, ())] for k in ("s", "Tx", "Ty", "Ux", "Uy")]) for c in "XY"]
        want = lambda: d.fn("MerkleRoot", [leaf(d, key)] + [x for k in range(n) for x in (i[("pathIndices", (k,))], i[("siblings", (k,))])])
        if not d.sound: d.setzero(i[("root", ())] - want())
        return i, want
    return f
def member_post(n):
    def f(d, i, o, want):
        if not d.sound: return d.oblige(True, "postcondition", "every constraint holds for a member's signature")
        for k in range(n): d.oblige(not d.norm(d.atom("b%d" % k) * d.atom("b%d" % k) - d.atom("b%d" % k)).t, "postcondition", "path index %d is forced to be a bit" % k)
        d.eq(i[("root", ())], want(), "root is the Merkle root over the path from the leaf of s * T + U")
    return f
def c_ecdsa(d, el, params, i, path):
    if not hasattr(d, "known"): return None
    for k in ("Tx", "Ty", "Ux", "Uy"): d.oblige(d.keyof(i[(k, ())]) in d.known, "precondition", "T and U are the given curve points", path)
    a = [i[(k, ())] for k in ("s", "Tx", "Ty", "Ux", "Uy")]
    return {("pubKeyX", ()): d.fn("pubKeyX", a), ("pubKeyY", ()): d.fn("pubKeyY", a)}
def leaf_pub(d, key): return d.fn("Poseidon", key)
def addr_bits(d, key): return [d.fn("bit", [k, key[1]], True) for k in range(256)] + [d.fn("bit", [k, key[0]], True) for k in range(256)]
def leaf_addr(d, key): return d.fn("Address", addr_bits(d, key))
def c_toaddr(d, el, params, i, path): return {("address", ()): d.fn("Address", [i[("pubkeyBits", (k,))] for k in range(512)])}
def to_addr_setup(d, ins):
    names = ("s", "Tx", "Ty", "Ux", "Uy"); d.seen().update(names)
    i = {(k, ()): d.atom(k) for k in names}
    t = curve_point(d, "Tx", "Ty"); u = curve_point(d, "Ux", "Uy"); d.known = {d.keyof(x): True for x in (*t, *u)}
    key = [d.fn("pubKey%s" % c, [i[(k, ())] for k in names]) for c in "XY"]
    return i, leaf_addr(d, key)
def to_addr_post(d, i, o, want): d.eq(o[("addr", ())], want, "addr is the address of s * T + U")
MEMBER = {"EfficientECDSA": c_ecdsa, "Poseidon": c_poseidon, "MerkleTreeInclusionProof": c_merkle, "PubkeyToAddress": c_toaddr, "Num2BitsCanonical": c_canonbits}
def signature(rng):
    """a valid efficient-ECDSA statement: s, T, U and the key"""
    from .keccak import keccak256
    sk, k, m = [rng.randrange(1, N) for _ in range(3)]
    R = pmul(k, G); r = R[0] % N; s = pow(k, -1, N) * (m + r * sk) % N; ri = pow(r, -1, N)
    T = pmul(ri, R); U = pmul(-m * ri, G); Q = pmul(sk, G)
    assert padd(pmul(s, T), U) == Q
    return s, T, U, Q
def conc_member(n, leaf):
    edges = [("root", 0), ("root", 1), ("root", P - 1), ("s", 0), ("s", 1), ("s", P - 1)] + [("pathIndices", k) for k in (0, n - 1)] + [("siblings", k) for k in (0, n - 1)]
    def f(rng):
        s, T, U, Q = signature(rng); idx = [rng.randrange(2) for _ in range(n)]; sib = [rng.randrange(P) for _ in range(n)]
        c = rng.randrange(4); root = merkle_value(leaf(Q), idx, sib)
        i = {"s": s, "root": root, "Tx": T[0], "Ty": T[1], "Ux": U[0], "Uy": U[1], "pathIndices": idx, "siblings": sib}
        if c == 0: return i, {}
        if edges:
            k, v = edges.pop(0)
            if k in ("root", "s"): i[k] = v
            elif k == "siblings": i[k][v] += 1
            else: i[k][v] ^= 1
            return i, "refuse"
        k = rng.choice(["s", "root", "pathIndices", "siblings"] if n else ["s", "root"])
        if k in ("s", "root"):
            v = i[k]; i[k] = rng.choice([(i[k] + 1) % N, (i[k] - 1) % P, 0, 1, P - 1, rng.randrange(P)])
            if i[k] % (N if k == "s" else P) == v: return None
        elif k == "siblings": i[k][rng.randrange(n)] += 1
        else: i[k][rng.randrange(n)] ^= 1
        return i, "refuse"
    return f
def address_of(Q):
    from .keccak import keccak256
    return int.from_bytes(keccak256(Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big"))[12:], "big")
def conc_toaddr_contract(i):
    v = [sum(i[("pubkeyBits", (256 * c + k,))] << k for k in range(256)) for c in (1, 0)]
    return {("address", ()): address_of(v)}
def conc_round(r):
    def f(rng):
        from .keccak import round_bits
        v = [rng.randrange(2) for _ in range(1600)]
        return {"in": v}, {"out": round_bits(v, r, lambda x, y: x ^ y, lambda x, y: x & y, 1)}
    return f
def conc_keccak(rng):
    from .keccak import keccak256
    v = [rng.randrange(2) for _ in range(512)]
    h = keccak256(bytes(sum(v[8 * k + j] << j for j in range(8)) for k in range(64)))
    return {"in": v}, {"out": [h[k // 8] >> k % 8 & 1 for k in range(256)]}
def conc_keccakf(rng):
    from .keccak import permute
    v = [rng.randrange(2) for _ in range(1600)]
    return {"in": v}, {"out": permute(v)}
def conc_toaddr(rng):
    s, T, U, Q = signature(rng)
    return {"s": s, "Tx": T[0], "Ty": T[1], "Ux": U[0], "Uy": U[1]}, {"addr": address_of(Q)}

# ---------------------------------------------------------------- Keccak
def bits_in(d, name, n):
    out = []
    for k in range(n):
        a = "%s%d" % (name, k); d.bools.add(a); d.seen().add(a); out.append(d.atom(a))
    return out
def round_setup(d, ins):
    v = bits_in(d, "i", 1600); return {("in", (k,)): x for k, x in enumerate(v)}, v
def round_post(r):
    def f(d, i, o, v):
        from .keccak import round_bits
        anf = lambda x: d.anfof(next(iter(x.atoms()))) if isinstance(x, Poly) else (frozenset([frozenset()]) if x else frozenset())
        want = round_bits([anf(x) for x in v], r, lambda a, b: a ^ b, anfmul, frozenset([frozenset()]))
        bad = [k for k in range(1600) if not (isinstance(o[("out", (k,))], int) or len(o[("out", (k,))].t) == 1 and set(o[("out", (k,))].atoms()) <= d.bools) or anf(o[("out", (k,))]) != want[k]]
        d.oblige(not bad, "postcondition", "all 1600 output bits are those of round %d of Keccak-f[1600]" % r, info={"first wrong bits": bad[:10]} if bad else None)
    return f
def c_round(d, el, params, i, path):
    st = [i[("in", (k,))] for k in range(1600)]
    h = d.fn("state", st)
    return {("out", (k,)): d.fn("R%d_%d" % (params[0], k), [h], True) for k in range(1600)}
def rounds(d, st):
    for r in range(24):
        h = d.fn("state", st); st = [d.fn("R%d_%d" % (r, k), [h], True) for k in range(1600)]
    return st
def keccakf_post(d, i, o, v):
    w = rounds(d, v); bad = [k for k in range(1600) if d.keyof(o[("out", (k,))]) != d.keyof(w[k])]
    d.oblige(not bad, "postcondition", "the output is the 24 rounds in order", info={"first wrong bits": bad[:10]} if bad else None)
def c_keccakf(d, el, params, i, path):
    h = d.fn("state", [i[("in", (k,))] for k in range(1600)])
    return {("out", (k,)): d.fn("KF_%d" % k, [h], True) for k in range(1600)}
def padded(d, bits):
    """multi-rate padding with Keccak's (not SHA-3's) domain bit, one block of 1088 bits, absorbed into the zero state"""
    b = list(bits) + [1] + [0] * (1088 - len(bits) - 2) + [1]
    assert len(b) == 1088
    return b + [0] * 512
def kf(d, st):
    h = d.fn("state", st); return [d.fn("KF_%d" % k, [h], True) for k in range(1600)]
def keccak_setup(n):
    def f(d, ins):
        v = bits_in(d, "i", n); return {("in", (k,)): x for k, x in enumerate(v)}, v
    return f
def keccak_post(n):
    def f(d, i, o, v):
        w = kf(d, padded(d, v)); bad = [k for k in range(n) if d.keyof(o[("out", (k,))]) != d.keyof(w[k])]
        d.oblige(not bad, "postcondition", "the output is the first %d bits of the permuted padded block" % n, info={"first wrong bits": bad[:10]} if bad else None)
    return f
def addr_setup(d, ins):
    v = bits_in(d, "i", 512); return {("pubkeyBits", (k,)): x for k, x in enumerate(v)}, v
def addr_post(d, i, o, v):
    # bytes of x then y, each coordinate with its most significant byte first; within a byte the state takes the low bit first
    msg = []
    for c in (v[256:], v[:256]):
        for byte in range(32): msg += [c[8 * (31 - byte) + j] for j in range(8)]
    dig = kf(d, padded(d, msg))
    want = 0
    for byte in range(12, 32):
        for j in range(8): want = d.add(want, d.mulv(1 << (8 * (31 - byte) + j), dig[8 * byte + j]))
    d.eq(o[("address", ())], want, "address is the last 20 bytes of Keccak-256 of the 64 key bytes, as a big-endian number")
def conc_addr(rng):
    Q = pmul(rng.randrange(1, N), G)
    return {"pubkeyBits": [Q[1] >> k & 1 for k in range(256)] + [Q[0] >> k & 1 for k in range(256)]}, {"address": address_of(Q)}

KC = {"KeccakfRound": c_round, "Keccakf": c_keccakf}
def gadgets():
    a, db = EC + "secp256k1/add.circom", EC + "secp256k1/double.circom"
    us = [Unit("Secp256k1AddIncomplete", a, "Secp256k1AddIncomplete", [], add_incomplete_setup, out_point, conc=lambda r: conc_add(r, "incomplete")),
          Unit("Secp256k1Double", db, "Secp256k1Double", [], double_setup, out_point, conc=lambda r: conc_add(r, "double"))]
    for c in ADD_CASES: us.append(Unit("Secp256k1AddComplete %s" % c, a, "Secp256k1AddComplete", [], add_complete_setup(c), out_point, conc=lambda r: conc_add(r, "complete")))
    return us
def canonical():
    f = EC + "secp256k1/bits.circom"
    return [Unit("Num2BitsCanonical", f, "Num2BitsCanonical", [], canon_setup, canon_post, ints=True, conc=conc_canon)] if os.path.exists(f) else []
def ladder():
    m = EC + "secp256k1/mul.circom"; e = EC + "eff_ecdsa.circom"
    return canonical() + [Unit("K", m, "K", [], k_setup, k_post, {"Num2BitsCanonical": c_canonbits}, ints=True, conc=conc_k),
            Unit("Secp256k1Mul", m, "Secp256k1Mul", [], mul_setup, mul_post, EC_CONTRACTS, conc=conc_mul),
            Unit("EfficientECDSA", e, "EfficientECDSA", [], ecdsa_setup, ecdsa_post, EC_CONTRACTS, conc=conc_ecdsa),
            Unit("EfficientECDSA U = O", e, "EfficientECDSA", [], ecdsa_setup_o, ecdsa_post, EC_CONTRACTS, conc=conc_ecdsa)]
def poseidon():
    return [Unit("Poseidon", ROOT + "poseidon/poseidon.circom", "Poseidon", [], poseidon_setup, poseidon_post, alias=True, conc=conc_poseidon)]
def merkle():
    return [Unit("MerkleTreeInclusionProof(%d)" % n, EC + "tree.circom", "MerkleTreeInclusionProof", [n], merkle_setup(n), merkle_post, {"Poseidon": c_poseidon}, conc=conc_merkle(n)) for n in (20, 1, 2, 3, 10, 32)]
def membership():
    us = []
    from rvc.suites.poseidon import reference
    lp = lambda Q: reference(Q[0], Q[1])
    for t, f, lf, cl in (("PubKeyMembership", "pubkey_membership", leaf_pub, lp), ("AddrMembership", "addr_membership", leaf_addr, address_of)):
        for n in (20, 1, 2, 10):
            us.append(Unit("%s(%d)" % (t, n), EC + f + ".circom", t, [n], member_setup(n, lf), member_post(n), MEMBER, conc=conc_member(n, cl)))
            us[-1].conc_contracts = {"PubkeyToAddress": conc_toaddr_contract}
            us[-1].lazy = n != 20
    us.append(Unit("EfficientECDSAToAddr", EC + "eff_ecdsa_to_addr.circom", "EfficientECDSAToAddr", [], to_addr_setup, to_addr_post, MEMBER, conc=conc_toaddr))
    us[-1].conc_contracts = {"PubkeyToAddress": conc_toaddr_contract}
    return us
def main_check(template):
    """the compiled circuit: which template, which depth, which signals are public, and their order in the public-input vector"""
    def f(u, prog):
        def ob(ok, msg, info=None): u.obls.append(Obl(bool(ok), "public inputs", u.template, msg, "elaboration", info))
        if prog.main is None: return ob(False, "the instance has no main component")
        pub, e = prog.main
        ok = e[0] == "call" and e[1] == template
        ob(ok, "the main component is %s" % template, str(e)[:200])
        if not ok: return
        d = Conc(); el = Elab(prog, d); fr = Frame(el, ("template", "main", [], [], u.file), [], "main")
        args = [fr.const(x) for x in e[2]]
        ob(args == [20], "the tree has 20 levels (the depth the witness input and the published circuit have)", str(args))
        ins, outs = el.signature(template, args)
        order = [n for n in ins if n in pub]
        vec = lambda names: {n: 100 + "root Tx Ty Ux Uy s".split().index(n) if n in ("root", "Tx", "Ty", "Ux", "Uy", "s") else n for n in names}
        demo = {"statement": vec("root Tx Ty Ux Uy".split()), "public vector the verifier serializes": [100, 101, 102, 103, 104], "public vector the circuit is compiled with": list(outs) + list(vec(order).values())}
        ob(not outs, "the circuit has no output (outputs would precede the public inputs)", demo)
        ob(set(pub) <= set(ins), "every public signal is an input", str(pub))
        ob(order == ["root", "Tx", "Ty", "Ux", "Uy"], "the public signals, in the order of their declaration, are root, Tx, Ty, Ux, Uy: the order in which the verifier serializes them, and the rest of the statement stays private", demo)
        ob(all(ins[n] == [] for n in order), "every public signal is one field element")
    return f
def mains():
    return [Unit("main %s" % t, ROOT + "instances/%s.circom" % f, t, [20], None, None, static=main_check(t)) for t, f in (("PubKeyMembership", "pubkey_membership"), ("AddrMembership", "addr_membership"))]
def keccak():
    k = EC + "to_address/vocdoni-keccak/keccak.circom"; e = EC + "to_address/zk-identity/eth.circom"
    us = [Unit("KeccakfRound(%d)" % r, k, "KeccakfRound", [r], round_setup, round_post(r), bits=True, conc=conc_round(r)) for r in range(24)]
    us.append(Unit("Keccakf", k, "Keccakf", [], round_setup, keccakf_post, KC, bits=True, conc=conc_keccakf))
    us.append(Unit("Keccak(512, 256)", k, "Keccak", [512, 256], keccak_setup(512), keccak_post(256), KC, bits=True, conc=conc_keccak))
    for u in us: u.lazy = True
    us.append(Unit("PubkeyToAddress", e, "PubkeyToAddress", [], addr_setup, addr_post, KC, bits=True, conc=conc_addr))
    return us
