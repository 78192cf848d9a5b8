"""Exact decisions about expressions in one field variable u (plus one square root y of a function of u, comparisons,
quadratic-residue bits and parity bits): everywhere zero / nowhere zero, for every u in F_p.

An expression is evaluated as a rational function a(u) + b(u) y under each assignment of its residue and parity bits; the
finitely many u at which some comparison holds, a denominator vanishes or a candidate value is zero are found by polynomial
root finding over F_p and the expression is computed there directly, for both square roots."""
import random
from .poly import *
from . import poly as P
from .exec import Unsupported

def trim(a):
    while a and not a[-1]: a.pop()
    return a
def padd(a, b, p):
    n = max(len(a), len(b)); return trim([((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % p for i in range(n)])
def psc(a, c, p): return trim([x * c % p for x in a])
def pmul(a, b, p):
    if not a or not b: return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    return trim([x % p for x in r])
def pdivmod(a, b, p):
    a = list(a); q = [0] * max(0, len(a) - len(b) + 1); iv = pow(b[-1], -1, p)
    for i in range(len(a) - len(b), -1, -1):
        c = a[i + len(b) - 1] * iv % p; q[i] = c
        if c:
            for j, y in enumerate(b): a[i + j] = (a[i + j] - c * y) % p
    return trim(q), trim(a)
def pgcd(a, b, p):
    while b: a, b = b, pdivmod(a, b, p)[1]
    return psc(a, pow(a[-1], -1, p), p) if a else a
def pev(a, x, p):
    r = 0
    for c in reversed(a): r = (r * x + c) % p
    return r
def ppow(b, e, f, p):
    r = [1]
    while e:
        if e & 1: r = pdivmod(pmul(r, b, p), f, p)[1]
        b = pdivmod(pmul(b, b, p), f, p)[1]; e >>= 1
    return r
ROOTS = {}
def roots(f, p):
    """all roots in F_p of a nonzero polynomial"""
    k = (tuple(f), p)
    if k in ROOTS: return ROOTS[k]
    r = set(); f = list(f)
    if len(f) > 1:
        f = psc(f, pow(f[-1], -1, p), p)
        g = pgcd(f, padd(ppow([0, 1], p, f, p), [0, p - 1], p), p) if len(f) > 2 else f
        rng = random.Random(1); st = [g]
        while st:
            g = st.pop()
            if len(g) <= 1: continue
            if len(g) == 2: r.add(-g[0] * pow(g[1], -1, p) % p); continue
            h = pgcd(g, padd(ppow([rng.randrange(p), 1], (p - 1) // 2, g, p), [p - 1], p), p)
            if len(h) in (0, 1, len(g)): st.append(g)
            else: st.append(h); st.append(pdivmod(g, h, p)[0])
    ROOTS[k] = r; return r

class Rat:
    """(a + b y) / d ; y^2 = yn / yd   (polynomials in u)"""
    __slots__ = ("a", "b", "d")
    def __init__(s, a, b, d): s.a = a; s.b = b; s.d = d
class Dom:
    def __init__(s, prob, bits):
        s.P = prob; s.p = prob.p; s.bits = bits; s.exc = set(); s.y2 = None; s.memo = {}
    def c(s, v): return Rat(trim([v % s.p]), [], [1])
    def u(s): return Rat([0, 1], [], [1])
    def norm(s, r):
        p = s.p; g = pgcd(pgcd(r.a, r.b, p), r.d, p)
        if len(g) > 1:
            s.exc |= roots(g, p)
            r = Rat(pdivmod(r.a, g, p)[0] if r.a else [], pdivmod(r.b, g, p)[0] if r.b else [], pdivmod(r.d, g, p)[0])
        return r
    def add(s, x, y):
        p = s.p; m = pmul
        return s.norm(Rat(padd(m(x.a, y.d, p), m(y.a, x.d, p), p), padd(m(x.b, y.d, p), m(y.b, x.d, p), p), m(x.d, y.d, p)))
    def neg(s, x): return Rat(psc(x.a, s.p - 1, s.p), psc(x.b, s.p - 1, s.p), x.d)
    def mul(s, x, y):
        p = s.p; m = pmul
        if not x.b and not y.b: return s.norm(Rat(m(x.a, y.a, p), [], m(x.d, y.d, p)))
        yn, yd = s.y2
        bb = m(x.b, y.b, p)
        a = padd(m(m(x.a, y.a, p), yd, p), m(bb, yn, p), p); b = m(padd(m(x.a, y.b, p), m(x.b, y.a, p), p), yd, p)
        return s.norm(Rat(a, b, m(m(x.d, y.d, p), yd, p)))
    def isz(s, x): return not x.a and not x.b
    def nrm(s, x):
        """numerator of the norm: vanishes wherever x does"""
        p = s.p
        if not x.b: return x.a
        yn, yd = s.y2
        return padd(pmul(pmul(x.a, x.a, p), yd, p), psc(pmul(pmul(x.b, x.b, p), yn, p), p - 1, p), p)
    def inv(s, x):
        p = s.p; n = s.nrm(x)
        if not n:
            if s.isz(x): return s.c(0)
            raise Unsupported("zero divisor")
        s.exc |= roots(n, p)
        if not x.b: return Rat(x.d, [], x.a)
        yn, yd = s.y2
        return s.norm(Rat(pmul(pmul(x.d, x.a, p), yd, p), psc(pmul(pmul(x.d, x.b, p), yd, p), p - 1, p), n))
    def pw(s, x, e):
        if e < 0: return s.pw(s.inv(x), -e)
        r = s.c(1)
        while e:
            if e & 1: r = s.mul(r, x)
            e >>= 1
            if e: x = s.mul(x, x)
        return r
    def poly(s, q):
        r = s.c(0)
        for k, v in q.t.items():
            t = s.c(v)
            for a, e in k:
                if not isinstance(e, int) or abs(e) > 64: raise Unsupported("exponent")
                t = s.mul(t, s.pw(s.atom(a), e))
            r = s.add(r, t)
        return r
    def atom(s, a):
        if a in s.memo: return s.memo[a]
        A = ATOMS[a]; pr = s.P
        if a == pr.u: r = s.u()
        elif a in pr.isq or a in pr.odd:
            if a not in s.bits: raise NeedBit(a)
            r = s.c(s.bits[a])
        elif a in pr.ys:
            num, den, bit = pr.ys[a]
            if s.y2 is not None: raise Unsupported("two square roots")
            x = s.mul(s.poly(num), s.inv(s.poly(den)))
            if x.b: raise Unsupported("nested square root")
            if not s.atom(bit).a: x = s.mul(x, s.c(pr.Z))
            s.exc |= roots(x.d, s.p); s.y2 = (x.a, x.d)
            r = Rat([], [1], [1])
        elif A.kind in ("fpow", "fbase"): r = s.poly(A.defn)
        elif A.kind == "feq0":
            x = s.poly(A.defn)
            if s.isz(x): r = s.c(1)
            else:
                n = s.nrm(x)
                if not n: raise Unsupported("comparison of a zero divisor")
                s.exc |= roots(n, s.p); r = s.c(0)
        else: raise Unsupported("atom %s (%s)" % (A.name, A.kind))
        s.memo[a] = r; return r
class NeedBit(Exception):
    def __init__(s, a): s.a = a
class Conc(Dom):
    """everything at one value of u; sign: which square root"""
    def __init__(s, prob, u, sign):
        s.P = prob; s.p = prob.p; s.v = u; s.sign = sign; s.memo = {}
    def c(s, v): return v % s.p
    def u(s): return s.v
    def add(s, x, y): return (x + y) % s.p
    def neg(s, x): return -x % s.p
    def mul(s, x, y): return x * y % s.p
    def inv(s, x): return pow(x, -1, s.p) if x else 0
    def isz(s, x): return x == 0
    def pw(s, x, e):
        if e < 0: return pow(s.inv(x), -e, s.p)
        return pow(x, e, s.p)
    def atom(s, a):
        if a in s.memo: return s.memo[a]
        A = ATOMS[a]; pr = s.P; p = s.p
        if a == pr.u: r = s.v
        elif a in pr.isq:
            n, d = pr.isq[a]; x = s.poly(n) * s.inv(s.poly(d)) % p; r = int(x == 0 or pow(x, (p - 1) // 2, p) == 1)
        elif a in pr.odd: r = s.poly(pr.odd[a]) & 1
        elif a in pr.ys:
            num, den, bit = pr.ys[a]; x = s.poly(num) * s.inv(s.poly(den)) % p
            if not s.atom(bit): x = x * pr.Z % p
            r = sqrt_mod(x, p)
            if s.sign: r = -r % p
        elif A.kind in ("fpow", "fbase"): r = s.poly(A.defn)
        elif A.kind == "feq0": r = int(s.poly(A.defn) == 0)
        else: raise Unsupported("atom %s (%s)" % (A.name, A.kind))
        s.memo[a] = r; return r
def sqrt_mod(a, p):
    """Tonelli-Shanks"""
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: raise Unsupported("not a square")
    q = p - 1; s = 0
    while q % 2 == 0: q //= 2; s += 1
    z = next(z for z in range(2, 1000) if pow(z, (p - 1) // 2, p) == p - 1)
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i = 0; t2 = t
        while t2 != 1: t2 = t2 * t2 % p; i += 1
        b = pow(c, 1 << (m - i - 1), p); m = i; c = b * b % p; t = t * c % p; r = r * b % p
    return r
class Problem:
    """u: atom id; isq: bit atom -> (num, den); ys: atom -> (num, den, isq bit); odd: bit atom -> polynomial whose canonical value's parity it is"""
    def __init__(s, u, p, Z): s.u = u; s.p = p; s.Z = Z; s.isq = {}; s.ys = {}; s.odd = {}
    def run(s, f, nonzero=False):
        """f(dom) -> value or list of values; True when every value is zero (nonzero: never zero) for every u and either square root.
        returns (ok, detail)"""
        exc = set(); todo = [{}]; n = 0
        while todo:
            bits = todo.pop(); d = Dom(s, bits)
            try:
                for a in bits:
                    if a in s.ys or a in s.isq: pass
                if not s.consistent(d): continue
                r = f(d)
            except NeedBit as e:
                for v in (0, 1): todo.append({**bits, e.a: v})
                if len(bits) > 12: raise Unsupported("too many cases")
                continue
            n += 1
            for x in (r if isinstance(r, list) else [r]):
                if nonzero:
                    m = d.nrm(x)
                    if not m: return False, "zero for generic u, case %r" % bits
                    d.exc |= roots(m, s.p)
                elif not d.isz(x): return False, "differs for generic u, case %r" % {ATOMS[a].name: v for a, v in bits.items()}
            exc |= d.exc
        for u in sorted(exc):
            for sg in (0, 1):
                c = Conc(s, u, sg); r = f(c)
                for x in (r if isinstance(r, list) else [r]):
                    if (x == 0) == nonzero: return False, {"u": u}
        return True, "%d cases, %d exceptional points" % (n, len(exc))
    def consistent(s, d):
        """parity bits of opposite (nonzero) values differ, of equal values agree"""
        od = [(a, s.odd[a]) for a in d.bits if a in s.odd]
        if len(od) < 2: return True
        vals = [(a, d.poly(q)) for a, q in od]
        for i in range(len(vals)):
            for j in range(i):
                (a, x), (b, y) = vals[i], vals[j]
                if d.isz(d.add(x, d.neg(y))) and d.bits[a] != d.bits[b]: return False
                t = d.add(x, y)
                if d.isz(t) and not d.isz(x):
                    d.exc |= roots(d.nrm(x), s.p)
                    if d.bits[a] == d.bits[b]: return False
        return True
