"""Polynomials over F_p in named atoms: {monomial: coefficient}, a monomial being a sorted tuple of (atom, exponent)."""

class Poly:
    __slots__ = ("t", "p", "h")
    def __init__(self, t, p): self.t = t; self.p = p; self.h = None
    @staticmethod
    def atom(a, p): return Poly({((a, 1),): 1}, p)
    @staticmethod
    def const(c, p): c %= p; return Poly({(): c} if c else {}, p)
    def lift(self, o): return o if isinstance(o, Poly) else Poly.const(o, self.p)
    def __add__(self, o):
        o = self.lift(o)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + c) % self.p
            if v: r[m] = v
            else: r.pop(m, None)
        return Poly(r, self.p)
    __radd__ = __add__
    def __neg__(self): return Poly({m: self.p - c for m, c in self.t.items()}, self.p)
    def __sub__(self, o): return self + (-self.lift(o))
    def __rsub__(self, o): return self.lift(o) + (-self)
    def __mul__(self, o):
        if isinstance(o, int):
            o %= self.p
            if o == 0: return Poly({}, self.p)
            return Poly({m: c * o % self.p for m, c in self.t.items()}, self.p)
        if len(self.t) > len(o.t): self, o = o, self
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2); r[m] = (r.get(m, 0) + c1 * c2) % self.p
        return Poly({m: c for m, c in r.items() if c}, self.p)
    __rmul__ = __mul__
    def key(self):
        if self.h is None: self.h = tuple(sorted(self.t.items()))
        return self.h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self): return hash(self.key())
    def isconst(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def c(self): return self.t.get((), 0)
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s
    def subst(self, d):
        """d: atom -> Poly; applied to a fixed point by the caller's ordering (values of d do not contain keys of d)"""
        if not any(a in d for m in self.t for a, _ in m): return self
        r = Poly({}, self.p)
        rest = {}
        for m, c in self.t.items():
            if any(a in d for a, _ in m):
                x = Poly({tuple((a, e) for a, e in m if a not in d): c}, self.p)
                for a, e in m:
                    if a in d:
                        for _ in range(e): x = x * d[a]
                r = r + x
            else: rest[m] = c
        return r + Poly(rest, self.p)
    def degree(self, a): return max((e for m in self.t for b, e in m if b == a), default=0)
    def coeffs(self, a):
        """coefficients of the powers of atom a"""
        out = {}
        for m, c in self.t.items():
            e = 0; k = m
            for i, (b, f) in enumerate(m):
                if b == a: e = f; k = m[:i] + m[i + 1:]; break
            out.setdefault(e, {})[k] = c
        return {e: Poly(t, self.p) for e, t in out.items()}
    def lead(self):
        return max(self.t, key=lambda m: (sum(e for _, e in m), m))
    def divide(self, d):
        """exact quotient by d, or None"""
        q = Poly({}, self.p); r = self; ld = d.lead(); inv = pow(d.t[ld], -1, self.p); n = 0
        while r.t:
            lm = r.lead(); m = mdiv(lm, ld)
            n += 1
            if m is None or n > 2000: return None
            x = Poly({m: r.t[lm] * inv % self.p}, self.p)
            q = q + x; r = r - x * d
        return q
    def __repr__(self):
        s = []
        for m, c in sorted(self.t.items(), key=lambda x: str(x[0]))[:12]:
            cc = c if c < self.p // 2 else c - self.p
            s.append("*".join(([str(cc)] if cc != 1 or not m else []) + ["%s%s" % (a, "^%d" % e if e > 1 else "") for a, e in m]))
        return (" + ".join(s) or "0") + (" + ..." if len(self.t) > 12 else "")

def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))

def mdiv(a, b):
    d = dict(a)
    for x, e in b:
        k = d.get(x, 0) - e
        if k < 0: return None
        if k: d[x] = k
        else: d.pop(x)
    return tuple(sorted(d.items()))
