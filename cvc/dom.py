"""Domains over which templates are elaborated. `Sym` is the symbolic one; `Conc` computes with numbers."""
import time
import z3
from .poly import Poly
from .parse import CircomError

P = 2**256 - 2**32 - 977                       # the circuits are compiled with --prime secq256k1
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141   # order of secp256k1

class Infeasible(Exception): pass
class Unsupported(Exception): pass
class Stop(Exception): pass

def binsig(*names):
    return ({n: [] for n in names}, {"out": []})

LIBSIG = {"IsZero": lambda: binsig("in"), "IsEqual": lambda: ({"in": [2]}, {"out": []}), "AND": lambda: binsig("a", "b"), "OR": lambda: binsig("a", "b"),
          "XOR": lambda: binsig("a", "b"), "NAND": lambda: binsig("a", "b"), "NOR": lambda: binsig("a", "b"), "NOT": lambda: binsig("in"),
          "LessThan": lambda n: ({"in": [2]}, {"out": []}), "LessEqThan": lambda n: ({"in": [2]}, {"out": []}), "GreaterThan": lambda n: ({"in": [2]}, {"out": []}),
          "GreaterEqThan": lambda n: ({"in": [2]}, {"out": []}), "ForceEqualIfEnabled": lambda: ({"enabled": [], "in": [2]}, {}),
          "Num2Bits": lambda n: ({"in": []}, {"out": [n]}), "Bits2Num": lambda n: ({"in": [n]}, {"out": []}),
          "MultiMux1": lambda n: ({"c": [n, 2], "s": []}, {"out": [n]}), "Mux1": lambda: ({"c": [2], "s": []}, {"out": []}), "Switcher": lambda: ({"sel": [], "L": [], "R": []}, {"outL": [], "outR": []}),
          "Xor3": lambda n: ({"a": [n], "b": [n], "c": [n]}, {"out": [n]}), "ShR": lambda n, r: ({"in": [n]}, {"out": [n]})}
CMP = {"LessThan": ("<", 0, 1), "GreaterThan": ("<", 1, 0), "LessEqThan": ("<=", 0, 1), "GreaterEqThan": ("<=", 1, 0)}

class Base:
    def __init__(self, p=P): self.p = p
    def libsig(self, name, params):
        if name not in LIBSIG: raise CircomError("no contract for library template " + name)
        try: return LIBSIG[name](*params)
        except TypeError: raise CircomError("parameters of " + name)
    # the polynomial library templates are their defining equations
    def gates(self, name, params, i):
        g = lambda n, *ix: i[(n, tuple(ix))]
        if name == "AND": return {("out", ()): self.mulv(g("a"), g("b"))}
        if name == "NAND": return {("out", ()): self.sub(1, self.mulv(g("a"), g("b")))}
        if name == "OR": return {("out", ()): self.sub(self.add(g("a"), g("b")), self.mulv(g("a"), g("b")))}
        if name == "NOR": return {("out", ()): self.sub(1, self.sub(self.add(g("a"), g("b")), self.mulv(g("a"), g("b"))))}
        if name == "XOR": return {("out", ()): self.sub(self.add(g("a"), g("b")), self.mulv(2, self.mulv(g("a"), g("b"))))}
        if name == "NOT": return {("out", ()): self.sub(1, g("in"))}
        if name == "Switcher": return {("outL", ()): self.mux(g("L"), g("R"), g("sel")), ("outR", ()): self.mux(g("R"), g("L"), g("sel"))}
        if name == "Mux1": return {("out", ()): self.mux(g("c", 0), g("c", 1), g("s"))}
        if name == "MultiMux1": return {("out", (k,)): self.mux(g("c", k, 0), g("c", k, 1), g("s")) for k in range(params[0])}
        if name == "Xor3":
            r = {}
            for k in range(params[0]):
                x = self.gates("XOR", [], {("a", ()): g("a", k), ("b", ()): g("b", k)})[("out", ())]
                x = self.define("", x)
                r[("out", (k,))] = self.gates("XOR", [], {("a", ()): x, ("b", ()): g("c", k)})[("out", ())]
            return r
        if name == "ShR": return {("out", (k,)): g("in", k + params[1]) if k + params[1] < params[0] else 0 for k in range(params[0])}
        if name == "Bits2Num":
            r = 0
            for k in range(params[0]): r = self.add(r, self.mulv(2**k, g("in", k)))
            return {("out", ()): r}
        return None
    def mux(self, a, b, s): return self.add(self.mulv(self.sub(b, a), s), a)
    def add(self, a, b):
        return (a + b) % self.p if isinstance(a, int) and isinstance(b, int) else a + b
    def sub(self, a, b):
        return (a - b) % self.p if isinstance(a, int) and isinstance(b, int) else a - b
    def mulv(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a * b % self.p
        if isinstance(a, int): return b * a
        if isinstance(b, int): return a * b
        return self.mul(a, b)

class Conc(Base):
    """runs the witness computation on numbers; `force` overrides what `<--` computes; `bad` collects the violated constraints"""
    sound = False
    def __init__(self, p=P, force=None):
        Base.__init__(self, p); self.force = force or {}; self.bad = []; self.hints = []; self.n = 0; self.contracts = {}
    def free(self, path): raise Unsupported("")
    def unassigned(self, path): return self.force.get(path, 0)
    def define(self, path, v):
        return v
    def hinted(self, path, v):
        self.hints.append((path, v, None)); return self.force.get(path, v)
    def mul(self, a, b): return a * b % self.p
    def branch_zero(self, v): return v == 0
    def bitop(self, op, a, b): raise Unsupported(op)
    def constrain(self, d, where, path):
        if d % self.p: self.bad.append((where, path))
    def div(self, a, b): return a * pow(b, -1, self.p) % self.p if b else 0
    def component(self, el, name, params, i, path):
        if name in self.contracts: return self.contracts[name](i)
        if name in el.prog.defs: return None
        r = self.gates(name, params, i)
        if r is not None: return r
        if name == "IsZero": return {("out", ()): int(i[("in", ())] == 0)}
        if name == "IsEqual": return {("out", ()): int(i[("in", (0,))] == i[("in", (1,))])}
        if name in CMP:
            op, a, b = CMP[name]; n = params[0]
            a, b = i[("in", (a,))], i[("in", (b,))]
            if op == "<=": b = (b + 1) % self.p
            t = (a + 2**n - b) % self.p              # what LessThan decomposes into n+1 bits
            if t >> (n + 1): self.bad.append((name, path))
            return {("out", ()): 1 - ((t >> n) & 1)}
        if name == "Num2Bits":
            v = self.force.get(path, i[("in", ())])
            if v % self.p != i[("in", ())] or v >> params[0]: self.bad.append(("Num2Bits(%d)" % params[0], path))
            self.hints.append((path, i[("in", ())], params[0]))
            return {("out", (k,)): (v >> k) & 1 for k in range(params[0])}
        if name == "ForceEqualIfEnabled":
            if i[("enabled", ())] * (i[("in", (0,))] - i[("in", (1,))]) % self.p: self.bad.append((name, path))
            return {}
        raise CircomError("no contract for library template " + name)

class ForcedConc(Conc):
    """`<--` signals take forced values where given"""
    pass

class Obl:
    __slots__ = ("ok", "msg", "how", "line", "fn", "kind", "info")
    def __init__(self, ok, kind, fn, msg, how="normal form", info=None): self.ok, self.kind, self.fn, self.msg, self.how, self.info, self.line = ok, kind, fn, msg, how, info, 0
    def __repr__(self): return "%s %s: %s [%s]" % ("ok" if self.ok else "FAILED", self.fn, self.msg, self.kind)

class Sym(Base):
    """symbolic: polynomials over F_p in the free values.
    sound=True: `<--` is unconstrained and `===` is assumed; sound=False: `<--` is computed and `===` must be proved."""
    def __init__(self, sound, script, contracts=None, alias=False, bits=False, name=""):
        Base.__init__(self, P)
        self.sound = sound; self.script = script; self.pos = 0; self.trail = []
        self.contracts = contracts or {}
        self.alias, self.bitmode, self.name = alias, bits, name
        self.sub_, self.nonzero, self.zero, self.bools, self.ysq, self.inv = {}, [], [], set(), {}, []
        self.invd = {}; self.obls = []; self.fns = {}; self.alias_ = {}; self.unknown = []
        self.anf = {}; self.anfid = {}
        self.rels = []; self.nat = 0; self.solver_s = 0; self.calls = 0; self.used = {}
        self.ghost = {}; self.bitgroups = {}; self.canon_ = {}; self.qr = {}
        self.deadline = time.time() + 300; self.plain = True
    # --- atoms
    def atom(self, name):
        return Poly.atom(name, self.p)
    def new(self, base):
        self.nat += 1; return "%s" % base if base not in self.seen() else "%s'%d" % (base, self.nat)
    def seen(self):
        if not hasattr(self, "_seen"): self._seen = set()
        return self._seen
    def fresh(self, base):
        a = self.new(base); self.seen().add(a); return self.atom(a)
    def boolean(self, base):
        a = self.fresh(base)
        for x in a.atoms(): self.bools.add(x)
        return a
    def free(self, path):
        self.plain = False
        a = self.fresh(path); self.unknown.extend(a.atoms()); return a
    def unassigned(self, path):
        return self.free(path) if self.sound else 0
    def fn(self, name, args, boolean=False):
        """an uninterpreted function of the (normal forms of the) arguments"""
        k = (name,) + tuple(self.keyof(a) for a in args)
        if k not in self.fns:
            a = "%s#%d" % (name, len(self.fns)); self.fns[k] = a
            if boolean: self.bools.add(a)
        return self.atom(self.fns[k])
    def keyof(self, v):
        if isinstance(v, (str, bool)) or v is None: return v
        if isinstance(v, int): return v % self.p
        if isinstance(v, (list, tuple)): return tuple(self.keyof(x) for x in v)
        v = self.norm(v)
        return v.c() if v.isconst() else v.key()
    # --- choices
    def choose(self, n=2, why=""):
        if time.time() > self.deadline: raise Unsupported("time budget")
        if self.pos < len(self.script): c = self.script[self.pos]
        else: c = 0; self.script.append(0)
        self.trail.append((c, n, why)); self.pos += 1
        if len(self.trail) > 64: raise Unsupported("too many case splits")
        return c
    # --- normal form
    def norm(self, v):
        if isinstance(v, int): return Poly.const(v, self.p)
        for _ in range(64):
            w = v.subst(self.sub_) if self.sub_ else v
            w = self.reduce(w)
            if w.t == v.t: return w
            v = w
        raise Unsupported("substitution does not settle")
    def reduce(self, v):
        hit = False
        for m in v.t:
            for a, e in m:
                if e > 1 and (a in self.bools or a in self.ysq): hit = True; break
            if hit: break
        if not hit: return v
        out = Poly({}, self.p)
        for m, c in v.t.items():
            x = {}; mul = []
            for a, e in m:
                if a in self.bools: x[a] = 1
                elif a in self.ysq and e > 1:
                    if e & 1: x[a] = 1
                    mul += [self.ysq[a]] * (e // 2)
                else: x[a] = e
            y = Poly({tuple(sorted(x.items())): c}, self.p)
            for q in mul: y = y * q
            out = out + y
        return self.reduce(out)
    def clear(self, v):
        """multiply away the inverses (of provably nonzero values)"""
        v = self.norm(v)
        for a, d in reversed(self.inv):
            k = v.degree(a)
            if not k: continue
            out = Poly({}, self.p)
            d = self.norm(d)
            pw = [Poly.const(1, self.p)]
            for _ in range(k): pw.append(self.norm(pw[-1] * d))
            for e, c in v.coeffs(a).items(): out = out + c * pw[k - e]
            v = self.norm(out)
        return v
    def iszero(self, v):
        return not self.clear(v).t
    def isnonzero(self, v):
        v = self.clear(v)
        if v.isconst(): return bool(v.t)
        todo = True
        nz = [x for x in (self.clear(n) for n in self.nonzero) if not x.isconst()]
        while todo and not v.isconst():
            todo = False
            for n in nz:
                q = v.divide(n)
                if q is not None: v = q; todo = True; break
        return v.isconst() and bool(v.t)
    def inverse(self, v):
        v = self.norm(v)
        if v.isconst(): return Poly.const(pow(v.c(), -1, self.p), self.p)
        l = v.t[v.lead()]; i = pow(l, -1, self.p); m = v * i
        k = m.key()
        if k not in self.invd:
            a = "inv#%d" % len(self.inv); self.invd[k] = a; self.inv.append((a, m))
        return self.atom(self.invd[k]) * i
    def setzero(self, v):
        """assume v = 0"""
        v = self.clear(v)
        if not v.t: return
        if v.isconst(): raise Infeasible()
        if self.isnonzero(v): raise Infeasible()
        # a boolean: c * (a^2 - a)
        ats = sorted(v.atoms())
        if len(ats) == 1 and ats[0] not in self.bools:
            a = ats[0]; co = v.coeffs(a)
            if set(co) == {1, 2} and not self.iszero(co[2]) and self.iszero(co[1] + co[2]): self.bools.add(a); return self.check()
        # b1 * b2 = 0 and the like stay as facts; solve for an unknown where the coefficient is nonzero
        for a in [u for u in reversed(self.unknown) if u in ats] + [x for x in ats if x not in self.unknown and x not in self.bools and x not in self.ysq]:
            if a in self.bools: continue
            if v.degree(a) != 1 or any(dict(m).get(a) for i, d in self.inv for m in d.t): continue
            co = v.coeffs(a); A = co[1]; B = co.get(0, Poly({}, self.p))
            if a not in self.unknown and not A.isconst(): continue
            if not self.isnonzero(A):
                if a not in self.unknown: continue
                if self.fork(A):
                    return self.setzero(B)
            return self.bind(a, self.norm(-B * self.inverse(A)))
        self.zero.append(v); self.check()
    def bind(self, a, val):
        self.sub_ = {k: x.subst({a: val}) for k, x in self.sub_.items()}
        self.sub_[a] = val
        self.check()
    def check(self):
        for n in self.nonzero:
            if self.iszero(n): raise Infeasible()
        zs, self.zero = self.zero, []
        for z in zs:
            z = self.clear(z)
            if not z.t: continue
            if z.isconst(): raise Infeasible()
            self.zero.append(z)
    def fork(self, v, why=""):
        """True on the branch where v = 0"""
        v = self.clear(v)
        if v.isconst(): return not v.t
        if self.isnonzero(v): return False
        for z in self.zero:
            if self.iszero(v - z) or self.iszero(v + z): return True
        if self.choose(2, "%s = 0" % v) == 0:
            self.setzero(v); return True
        self.nonzero.append(v); self.check(); return False
    def branch_zero(self, v):
        if getattr(self, "ints", False): raise Unsupported("branch in integer mode")
        return self.fork(v)
    # --- hooks of the elaborator
    def mul(self, a, b):
        if self.alias: a, b = self.aliased(a), self.aliased(b)
        r = a * b
        if len(r.t) > 20000: raise Unsupported("polynomial too large")
        return r
    def aliased(self, v):
        if len(v.t) <= 1: return v
        v = self.norm(v)
        if len(v.t) <= 1: return v
        k = v.key()
        if k not in self.alias_: self.alias_[k] = "L#%d" % len(self.alias_)
        return self.atom(self.alias_[k])
    def hinted(self, path, v): return self.define(path, v)
    def define(self, path, v):
        if isinstance(v, int): return v % self.p
        if self.sub_ or self.bools or self.ysq: v = self.norm(v)
        if v.isconst(): return v.c()
        if self.bitmode: v = self.bitnorm(v)
        return v
    def div(self, a, b):
        a, b = [x if isinstance(x, Poly) else Poly.const(x, self.p) for x in (a, b)]
        if self.fork(b): return 0                   # the witness calculator's inverse of zero is zero
        return a * self.inverse(b)
    def constrain(self, d, where, path):
        self.plain = False
        if isinstance(d, int): d = Poly.const(d, self.p)
        if getattr(self, "ints", False): return self.int_constrain(d, where, path)
        if self.sound: self.setzero(d)
        else: self.oblige(self.known_zero(d), "constraint", "constraint at %s holds for the computed witness" % where, path)
    def known_zero(self, d):
        d = self.clear(d)
        if not d.t: return True
        for z in self.zero:
            l = pow(z.t[z.lead()], -1, self.p); k = d.t.get(z.lead(), 0) * l % self.p
            if not (d - z * k).t: return True
        return False
    def oblige(self, ok, kind, msg, path="", how="normal form", info=None):
        self.obls.append(Obl(bool(ok), kind, self.name, msg + (" [%s]" % path if path else ""), how, info or (None if ok else self.context())))
        if not ok: raise Stop()
    def context(self):
        return {"path": [("%s" if c == 0 else "not(%s)") % w for c, n, w in self.trail], "substitutions": {k: str(v)[:300] for k, v in list(self.sub_.items())[:40]}}
    def eq(self, a, b, msg):
        d = self.sub(a, b)
        if isinstance(d, int): d = Poly.const(d, self.p)
        self.oblige(self.known_zero(d), "postcondition", msg, info={"left": str(self.clear(self.norm(a)))[:600], "right": str(self.clear(self.norm(b)))[:600], **self.context()} if not self.known_zero(d) else None)
    # --- components
    def component(self, el, name, params, i, path):
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, el, params, i, path)
            if r is not None:
                self.used[name] = self.used.get(name, 0) + 1; return r
        if name in el.prog.defs: return None
        self.used["circomlib " + name] = self.used.get("circomlib " + name, 0) + 1
        r = self.gates(name, params, i)
        if r is not None: return {k: self.define(path, v) for k, v in r.items()}
        lift = lambda v: v if isinstance(v, Poly) else Poly.const(v, self.p)
        self.plain = False
        if getattr(self, "ints", False): return self.int_lib(name, params, {k: lift(v) for k, v in i.items()}, path)
        if name in ("IsZero", "IsEqual"):
            v = lift(i[("in", ())]) if name == "IsZero" else lift(self.sub(i[("in", (0,))], i[("in", (1,))]))
            return {("out", ()): 1 if self.fork(v, path) else 0}
        if name == "Num2Bits":
            # some bits that sum to the input modulo p: which ones is left open (unless the width makes them unique)
            n = params[0]; v = i[("in", ())]
            if 2**n <= self.p: return {("out", (k,)): self.fn("bit%d" % k, [n, v], True) for k in range(n)} if self.sound else self.bits_complete(n, v, path)
            if self.sound: return {("out", (k,)): self.boolean("%s.out[%d]" % (path, k)) for k in range(n)}
            return self.bits_complete(n, v, path)
        if name == "ForceEqualIfEnabled":
            self.constrain(self.mulv(i[("enabled", ())], self.sub(i[("in", (0,))], i[("in", (1,))])), name, path); return {}
        raise Unsupported("circomlib %s outside integer mode" % name)
    def bits_complete(self, n, v, path):
        if 2**n < self.p: raise Unsupported("range of the input of Num2Bits(%d)" % n)
        return {("out", (k,)): self.fn("bit", [k, v], True) for k in range(n)}
    # --- bits: values are single atoms, each standing for a function of the input bits in algebraic normal form
    def bitnorm(self, v):
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return v
        ats = sorted(v.atoms())
        if len(ats) > 4 or any(a not in self.bools for a in ats): return v
        # truth table -> ANF by Moebius transform
        tt = []
        for x in range(1 << len(ats)):
            s = 0
            for m, c in v.t.items():
                if all(x >> ats.index(a) & 1 for a, _ in m): s += c
            s %= self.p
            if s not in (0, 1): return v
            tt.append(s)
        for j in range(len(ats)):
            for x in range(1 << len(ats)):
                if x >> j & 1: tt[x] ^= tt[x ^ (1 << j)]
        f = frozenset()
        fs = [self.anfof(a) for a in ats]
        for x in range(1 << len(ats)):
            if not tt[x]: continue
            g = frozenset([frozenset()])
            for j in range(len(ats)):
                if x >> j & 1: g = anfmul(g, fs[j])
            f = f ^ g
        return self.anfatom(f)
    def anfof(self, a):
        return self.anf.get(a) or frozenset([frozenset([a])])
    def anfatom(self, f):
        if not f: return 0
        if f == frozenset([frozenset()]): return 1
        if len(f) == 1:
            (m,) = f
            if len(m) == 1: return self.atom(next(iter(m)))
        if len(f) > 4000: raise Unsupported("boolean function too large")
        if f not in self.anfid:
            a = "b#%d" % len(self.anfid); self.anfid[f] = a; self.anf[a] = f; self.bools.add(a)
        return self.atom(self.anfid[f])
    def bit(self, f): return self.anfatom(f)
    # --- integers: canonical representatives, comparisons and carries, decided by z3 (linear integer arithmetic)
    def int_lib(self, name, params, i, path):
        if name in ("IsZero", "IsEqual"):
            v = i[("in", ())] if name == "IsZero" else i[("in", (0,))] - i[("in", (1,))]
            e = self.boolean(path + ".out"); self.rels.append(("eq", e, self.canon(v))); return {("out", ()): e}
        if name in CMP:
            op, a, b = CMP[name]; n = params[0]
            a, b = self.canon(i[("in", (a,))]), self.canon(i[("in", (b,))])
            if n > 252: raise CircomError("%s(%d): at most 252 bits" % (name, n))
            for w, x in (("left", a), ("right", b)):
                self.prove(lambda z, x=x: z.val(x) < (1 << n) + (1 if op == "<=" and w == "right" and False else 0), "precondition", "%s operand of %s(%d) has at most %d bits" % (w, name, n, n), path)
            e = self.boolean(path + ".out"); self.rels.append((op, e, a, b)); return {("out", ()): e}
        if name == "Num2Bits":
            n = params[0]; v = self.canon(i[("in", ())])
            bits = [self.boolean("%s.out[%d]" % (path, k)) for k in range(n)]
            g = [next(iter(b.atoms())) for b in bits]
            for k, a in enumerate(g): self.bitgroups[a] = (path, k)
            if not self.sound: self.prove(lambda z: z.val(v) < 1 << n, "completeness", "the input of Num2Bits(%d) has at most %d bits" % (n, n), path)
            self.rels.append(("bits" if self.sound else "cbits", v, [(1 << k, a) for k, a in enumerate(g)], n))
            return {("out", (k,)): b for k, b in enumerate(bits)}
        if name == "ForceEqualIfEnabled":
            self.constrain(self.mul(i[("enabled", ())], i[("in", (0,))] - i[("in", (1,))]), name, path); return {}
        raise Unsupported("circomlib %s in integer mode" % name)
    def canon(self, v):
        v = self.norm(v)
        k = v.key()
        if k not in self.canon_: self.canon_[k] = (len(self.canon_), v)
        return self.canon_[k]
    def int_constrain(self, d, where, path):
        d = self.norm(d)
        if self.sound:
            if d.isconst():
                if d.t: raise Infeasible()
                return
            self.rels.append(("zero", self.canon(d)))
        else:
            if not d.t: return self.oblige(True, "completeness", "constraint at %s holds for the computed witness" % where, path)
            c = self.canon(d)
            self.prove(lambda z: z.val(c) == 0, "completeness", "constraint at %s holds for the computed witness" % where, path)
    def bitop(self, op, a, b):
        if not getattr(self, "ints", False) or not isinstance(b, int): raise Unsupported("operator %s on signals" % op)
        if op == "&" and (b & (b + 1)) == 0: k, r = b + 1, True
        elif op == ">>" and b < 512: k, r = 1 << b, False
        elif op == "%" and b > 0: k, r = b, True
        elif op == "\\" and b > 0: k, r = b, False
        else: raise Unsupported("operator %s on signals" % op)
        c = self.canon(a)
        if (c[0], k) not in self.qr:
            q, m = self.fresh("quot#%d" % len(self.qr)), self.fresh("rem#%d" % len(self.qr))
            self.qr[(c[0], k)] = (q, m); self.rels.append(("divmod", c, k, next(iter(q.atoms())), next(iter(m.atoms()))))
        return self.qr[(c[0], k)][1 if r else 0]
    def prove(self, goal, kind, msg, path=""):
        z = ZCtx(self)
        g = goal(z)
        s = z3.Solver(); s.set("timeout", 60000)
        z.emit(s)
        s.add(z3.Not(g))
        t = time.time(); r = s.check(); self.solver_s += time.time() - t; self.calls += 1
        info = None
        if r == z3.sat:
            m = s.model(); info = {"model": {a: str(m.eval(x, model_completion=True)) for a, x in z.at.items()}}
            runs = {}
            for (g0, lo, hi), x in z.runs.items(): runs["%s[%d:%d]" % (g0, lo, hi)] = str(m.eval(x, model_completion=True))
            info["model"].update(runs)
        self.oblige(r == z3.unsat, kind, msg, path, "z3" if r == z3.unsat else "z3: %s" % r, info)

def anfmul(a, b):
    r = set()
    for x in a:
        for y in b: r ^= {x | y}
    return frozenset(r)

class ZCtx:
    """the integer relations of a Sym as linear arithmetic: atoms are integers in [0, p), booleans in {0, 1}; the bits of one decomposition
    are grouped into runs wherever every use weighs them by consecutive powers of two"""
    def __init__(self, d):
        self.d = d; self.at = {}; self.runs = {}; self.cons = []; self.cv = {}; self.extra = []
        self.groups = {}
        for a, (g, k) in d.bitgroups.items(): self.groups.setdefault(g, {})[k] = a
    def val(self, c):
        if c[0] not in self.cv:
            self.cv[c[0]] = (z3.Int("c%d" % c[0]), c[1])
        return self.cv[c[0]][0]
    def isum(self, terms):
        """an integer combination of bit atoms: [(coefficient, atom)]"""
        self.extra.append(list(terms)); k = len(self.extra) - 1
        v = z3.Int("sum%d" % k)
        return v
    def atomv(self, a):
        if a not in self.at:
            x = z3.Int("a_" + a); self.at[a] = x
            self.cons.append(z3.And(x >= 0, x <= (1 if a in self.d.bools else self.d.p - 1)))
        return self.at[a]
    def emit(self, s):
        d = self.d
        # collect the linear uses of bits
        for r in d.rels:
            if r[0] == "eq": self.val(r[2])
            elif r[0] in ("<", "<="): self.val(r[2]); self.val(r[3])
            elif r[0] in ("bits", "cbits", "zero", "divmod"): self.val(r[1])
        uses = []
        for v, poly in self.cv.values():
            u = {}
            for m, c in poly.t.items():
                if len(m) == 1 and m[0][1] == 1: u[m[0][0]] = c if c <= d.p // 2 else c - d.p
                else:
                    for a, _ in m: uses.append({a: None})
            uses.append(u)
        sums = []
        for r in d.rels:
            if r[0] in ("bits", "cbits"): uses.append({a: c for c, a in r[2]})
            if r[0] == "eq" or r[0] in ("<", "<="):
                for a in r[1].atoms(): uses.append({a: None})
        for e in self.extra:
            u = {}
            for c, a in e: u[a] = u.get(a, 0) + c
            uses.append(u)
        cut = {}
        for g, mem in self.groups.items():
            n = max(mem) + 1; cuts = {0, n}
            for u in uses:
                if not any(a in u for a in mem.values()): continue
                for k in range(n):
                    c = u.get(mem.get(k), 0)
                    if c is None: cuts |= {k, k + 1}
                    elif k and (u.get(mem.get(k - 1), 0) or 0) * 2 != c: cuts.add(k)
            cs = sorted(cuts)
            for lo, hi in zip(cs, cs[1:]):
                x = z3.Int("r_%s_%d_%d" % (g, lo, hi)); self.runs[(g, lo, hi)] = x
                self.cons.append(z3.And(x >= 0, x < 1 << (hi - lo)))
                if hi == lo + 1: self.at[mem[lo]] = x
                for k in range(lo, hi): cut[mem[k]] = (x, k == lo, hi - lo)
        def lin(u):
            e = []
            for a, c in u.items():
                if a in cut:
                    x, first, _ = cut[a]
                    if first and c: e.append(c * x)
                elif c: e.append(c * self.atomv(a))
            return e
        for k, e in enumerate(self.extra):
            u = {}
            for c, a in e: u[a] = u.get(a, 0) + c
            self.cons.append(z3.Int("sum%d" % k) == z3.Sum(lin(u) + [z3.IntVal(0)]))
        for i, (v, poly) in self.cv.items():
            es = lin({m[0][0]: (c if c <= d.p // 2 else c - d.p) for m, c in poly.t.items() if len(m) == 1 and m[0][1] == 1})
            for m, c in poly.t.items():
                c = c if c <= d.p // 2 else c - d.p
                if not m: es.append(z3.IntVal(c))
                elif len(m) > 1 or m[0][1] > 1:
                    bs = [a for a, e in m if a in d.bools]; rest = [(a, e) for a, e in m if a not in d.bools]
                    if len(rest) > 1 or (rest and rest[0][1] > 1): raise Unsupported("nonlinear integer term %s" % (m,))
                    w = self.atomv(rest[0][0]) if rest else z3.IntVal(1)
                    es.append(z3.If(z3.And([self.atomv(b) == 1 for b in bs]), c * w, 0))
            lo, hi = self.bounds(poly)
            e = z3.Sum(es + [z3.IntVal(0)])
            if lo is not None and lo >= 0 and hi < d.p: self.cons.append(v == e)
            else:
                t = z3.Int("t%d" % i)
                self.cons.append(z3.And(v >= 0, v < d.p, e == v + d.p * t))
                if lo is not None: self.cons.append(z3.And(t >= lo // d.p, t <= hi // d.p))
        for r in d.rels:
            if r[0] == "eq": self.cons.append((self.one(r[1]) == 1) == (self.val(r[2]) == 0))
            elif r[0] == "<": self.cons.append((self.one(r[1]) == 1) == (self.val(r[2]) < self.val(r[3])))
            elif r[0] == "<=": self.cons.append((self.one(r[1]) == 1) == (self.val(r[2]) <= self.val(r[3])))
            elif r[0] == "zero": self.cons.append(self.val(r[1]) == 0)
            elif r[0] in ("bits", "cbits"):
                tot = z3.Sum(lin({a: c for c, a in r[2]}) + [z3.IntVal(0)])
                if r[0] == "cbits" or 1 << r[3] <= d.p: self.cons.append(tot == self.val(r[1]))
                else:
                    t = z3.Int("tb%d" % r[1][0]); self.cons.append(z3.And(t >= 0, t <= (1 << r[3]) // d.p, tot == self.val(r[1]) + d.p * t))
            elif r[0] == "divmod":
                q, m = self.atomv(r[3]), self.atomv(r[4]); self.cons.append(z3.And(self.val(r[1]) == q * r[2] + m, q >= 0, m >= 0, m < r[2]))
        for c in self.cons: s.add(c)
    def one(self, e): return self.atomv(next(iter(e.atoms())))
    def bounds(self, poly):
        lo = hi = 0
        for m, c in poly.t.items():
            c = c if c <= self.d.p // 2 else c - self.d.p
            if not m: lo += c; hi += c; continue
            w = 1
            for a, e in m:
                if a not in self.d.bools: w *= (self.d.ranges.get(a, self.d.p) - 1) ** e if hasattr(self.d, "ranges") else (self.d.p - 1) ** e
            if c > 0: hi += c * w
            else: lo += c * w
        return lo, hi
