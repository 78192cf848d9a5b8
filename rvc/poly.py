"""Exact polynomials over interned atoms: Z[atoms] (mod=None) and F_m[atoms].

Boolean atoms (range {0,1}) are idempotent.  Exponents may themselves be integer
polynomials (used for x^e with a symbolic exponent)."""

class Atom:
    __slots__ = ("id", "name", "kind", "lo", "hi", "isbool", "defn", "frule", "data", "extra", "irule", "rels", "lowdef")
    def __repr__(self): return self.name

ATOMS = []
_INTERN = {}

def reset():
    ATOMS.clear(); _INTERN.clear(); BOUNDS.clear(); HIS.clear()

def new_atom(name, kind="var", lo=None, hi=None, defn=None, key=None, data=None):
    if key is not None:
        a = _INTERN.get(key)
        if a is not None: return a
    a = Atom()
    a.id = len(ATOMS); a.name = "%s#%d" % (name, a.id); a.kind = kind
    a.lo = lo; a.hi = hi; a.isbool = (lo == 0 and hi == 1)
    a.defn = defn; a.frule = {}; a.data = data; a.extra = {}; a.irule = None; a.rels = []; a.lowdef = None
    ATOMS.append(a)
    if key is not None: _INTERN[key] = a
    return a

HIS = []
BOUNDS = {}   # poly key -> (lo,hi)

def _expadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    r = (a if isinstance(a, Poly) else Poly.const(a)) + (b if isinstance(b, Poly) else Poly.const(b))
    if r.is_const(): return r.cval()
    return r

def _expkey(e):
    return e if isinstance(e, int) else e.key()

class _E:
    """hashable wrapper for a symbolic exponent"""
    __slots__ = ("p", "k")
    def __init__(s, p): s.p = p; s.k = p.key()
    def __hash__(s): return hash(s.k)
    def __eq__(s, o): return isinstance(o, _E) and s.k == o.k
    def __lt__(s, o): return True
    def __repr__(s): return "{%r}" % s.p

def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    i = j = 0
    out = []
    while i < len(m1) and j < len(m2):
        a, e = m1[i]; b, f = m2[j]
        if a == b:
            if ATOMS[a].isbool: out.append((a, 1))
            else:
                if isinstance(e, int) and isinstance(f, int): g = e + f
                else:
                    g = _expadd(e.p if isinstance(e, _E) else e, f.p if isinstance(f, _E) else f)
                    if isinstance(g, Poly): g = _E(g)
                out.append((a, g))      # exponent 0 is kept: x^e * x^-e = [x != 0]
            i += 1; j += 1
        elif a < b: out.append(m1[i]); i += 1
        else: out.append(m2[j]); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)

class Poly:
    __slots__ = ("t", "m", "_k")
    def __init__(s, t, m=None):
        s.t = t; s.m = m; s._k = None
    @staticmethod
    def const(c, m=None):
        if m is not None: c %= m
        return Poly({(): c} if c else {}, m)
    @staticmethod
    def atom(a, m=None):
        return Poly({((a.id, 1),): 1}, m)
    @staticmethod
    def apow(a, e, m=None):
        if isinstance(e, Poly):
            if e.is_const(): e = e.cval()
            else: e = _E(e)
        if e == 0: return Poly.const(1, m)
        if ATOMS[a.id].isbool: e = 1
        return Poly({((a.id, e),): 1}, m)
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def cval(s): return s.t.get((), 0)
    def is_zero(s): return not s.t
    def key(s):
        if s._k is None: s._k = (s.m, frozenset(s.t.items()))
        return s._k
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, Poly) and s.m == o.m and s.t == o.t
    def _co(s, o):
        if isinstance(o, int): return Poly.const(o, s.m)
        assert o.m == s.m, (o.m, s.m)
        return o
    def __add__(s, o):
        o = s._co(o)
        if not o.t: return s
        if not s.t: return o
        a, b = (s.t, o.t) if len(s.t) >= len(o.t) else (o.t, s.t)
        t = dict(a); m = s.m
        for k, v in b.items():
            n = t.get(k, 0) + v
            if m is not None: n %= m
            if n: t[k] = n
            else: t.pop(k, None)
        return Poly(t, m)
    __radd__ = __add__
    def __neg__(s):
        if s.m is None: return Poly({k: -v for k, v in s.t.items()})
        return Poly({k: s.m - v for k, v in s.t.items()}, s.m)
    def __sub__(s, o): return s + (-s._co(o))
    def __rsub__(s, o): return s._co(o) - s
    def scale(s, c):
        if s.m is not None: c %= s.m
        if c == 0: return Poly({}, s.m)
        if s.m is None: return Poly({k: v * c for k, v in s.t.items()})
        t = {}
        for k, v in s.t.items():
            n = v * c % s.m
            if n: t[k] = n
        return Poly(t, s.m)
    def __mul__(s, o):
        if isinstance(o, int): return s.scale(o)
        assert o.m == s.m
        if len(s.t) > len(o.t): s, o = o, s
        if not s.t: return s
        if len(s.t) == 1 and () in s.t: return o.scale(s.t[()])
        t = {}; m = s.m
        for k1, v1 in s.t.items():
            for k2, v2 in o.t.items():
                k = mono_mul(k1, k2)
                t[k] = t.get(k, 0) + v1 * v2
        if m is None: t = {k: v for k, v in t.items() if v}
        else:
            t2 = {}
            for k, v in t.items():
                v %= m
                if v: t2[k] = v
            t = t2
        return Poly(t, m)
    __rmul__ = __mul__
    def __pow__(s, n):
        r = Poly.const(1, s.m); b = s
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def atoms(s):
        r = set()
        for k in s.t:
            for a, e in k:
                r.add(a)
                if isinstance(e, _E): r |= e.p.atoms()
        return r
    def subst(s, mp):
        """mp: atom id -> Poly (same ring)"""
        if not any(a in mp for k in s.t for a, _ in k): return s
        out = Poly({}, s.m)
        acc = {}
        for k, v in s.t.items():
            if not any(a in mp for a, _ in k):
                acc[k] = v; continue
            term = Poly.const(v, s.m)
            rest = []
            for a, e in k:
                if a in mp:
                    term = term * (_fpow(mp[a], e) if isinstance(e, int) else _sympow(mp[a], e))
                else: rest.append((a, e))
            term = term * Poly({tuple(rest): 1}, s.m)
            out = out + term
        return out + Poly(acc, s.m)
    def __repr__(s):
        if not s.t: return "0"
        r = []
        for k, v in sorted(s.t.items(), key=lambda x: str(x[0]))[:12]:
            if s.m is not None and v > s.m // 2: v -= s.m
            c = str(v) if abs(v) < 10**9 else hex(v)
            r.append(c + "".join("*%s%s" % (ATOMS[a].name, "" if e == 1 else "^%r" % (e,)) for a, e in k))
        if len(s.t) > 12: r.append("...(%d terms)" % len(s.t))
        return " + ".join(r)
    # bounds -------------------------------------------------------
    def bounds(s):
        """integer interval (lo,hi); None = unbounded"""
        assert s.m is None
        lo = hi = 0
        for k, v in s.t.items():
            ml, mh = mono_bounds(k)
            if v > 0: a, b = ml, mh
            else: a, b = mh, ml
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        c = s.t.get((), 0)
        q = s - c if c else s
        b = BOUNDS.get(q.key())
        if b is not None:
            if b[0] is not None and (lo is None or b[0] + c > lo): lo = b[0] + c
            if b[1] is not None and (hi is None or b[1] + c < hi): hi = b[1] + c
        else:
            b = BOUNDS.get((-q).key())
            if b is not None:
                if b[1] is not None and (lo is None or c - b[1] > lo): lo = c - b[1]
                if b[0] is not None and (hi is None or c - b[0] < hi): hi = c - b[0]
        return lo, hi
    def tofield(s, p):
        """embed an integer polynomial in F_p, applying atom rewrite rules"""
        assert s.m is None
        r = Poly({k: v % p for k, v in s.t.items() if v % p}, p)
        return fnorm(r)

def fnorm(r):
    p = r.m
    for _ in range(10000):
        mp = {}
        for a in r.atoms():
            A = ATOMS[a]
            q = A.frule.get(p)
            if q is None and A.irule is not None:
                d, k = A.irule          # atom = d / 2^k in the field
                q = Poly({kk: v % p for kk, v in d.t.items() if v % p}, p)
                if k: q = q.scale(pow(pow(2, k, p), -1, p))
                A.frule[p] = q
            if q is not None: mp[a] = q
        if not mp: return fermat(r)
        r = r.subst(mp)
    raise RuntimeError("rewrite loop")

def fermat(r):
    """exponents of field elements modulo p-1 (x^0 stands for [x != 0], so this is exact for every x)"""
    p = r.m
    if p is None: return r
    n = p - 1; h = n // 2
    if not any(isinstance(e, int) and (e > h or e < -h) for k in r.t for _, e in k): return r
    out = {}
    for k, v in r.t.items():
        kk = tuple((a, e if not isinstance(e, int) or -h < e <= h else ((e % n) if (e % n) <= h else (e % n) - n)) for a, e in k)
        out[kk] = (out.get(kk, 0) + v) % p
    return Poly({k: v for k, v in out.items() if v}, p)
def finv(fa):
    """total inverse in F_p with inv(0) = 0, multiplicative on monomials"""
    if fa.is_const():
        v = fa.cval(); return Poly.const(pow(v, -1, fa.m) if v else 0, fa.m)
    if len(fa.t) == 1:
        (k, v), = fa.t.items()
        if all(isinstance(e, int) for _, e in k):
            return Poly({tuple((a, e if ATOMS[a].isbool else -e) for a, e in k): pow(v, -1, fa.m)}, fa.m)
    at = new_atom("w", "fbase", key=("fbase", fa.key()), defn=fa)
    return Poly({((at.id, -1),): 1}, fa.m)
def _fpow(p, e):
    if e > 0: return p ** e
    if e < 0: return finv(p) ** (-e)
    if p.is_const(): return Poly.const(0 if p.is_zero() else 1, p.m)
    if len(p.t) == 1:
        (k, v), = p.t.items()
        return Poly({tuple((a, 1 if ATOMS[a].isbool else 0) for a, x in k): 1}, p.m)
    at = new_atom("w", "fbase", key=("fbase", p.key()), defn=p)
    return Poly({((at.id, 0),): 1}, p.m)
def _sympow(p, e):
    if e.p.m is None and p.is_const() and p.cval() in (0, 1) and p.cval() == 1: return p
    raise NotImplementedError("substitution under a symbolic power")

def mono_bounds(k):
    lo = hi = 1
    for a, e in k:
        A = ATOMS[a]
        if not isinstance(e, int): return None, None
        l, h = A.lo, A.hi
        if e > 1:
            if l is not None and l >= 0: l = l ** e; h = None if h is None else h ** e
            elif l is not None and h is not None:
                c = [l ** e, h ** e] + ([0] if e % 2 == 0 else [])
                l, h = min(c), max(c)
            elif e % 2 == 0: l, h = 0, None
            else: return None, None
        if lo is None or hi is None or l is None or h is None:
            if lo is not None and l is not None and lo >= 0 and l >= 0:
                lo, hi = lo * l, None
            else: return None, None
        else:
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
    return lo, hi

def set_bounds(p, lo, hi):
    if p.is_const(): return
    c = p.t.get((), 0)
    if c:
        p = p - c
        if lo is not None: lo -= c
        if hi is not None: hi -= c
    k = p.key()
    b = BOUNDS.get(k)
    if b is not None:
        if b[0] is not None and (lo is None or b[0] > lo): lo = b[0]
        if b[1] is not None and (hi is None or b[1] < hi): hi = b[1]
    BOUNDS[k] = (lo, hi)

ZERO = Poly({}); ONE = Poly.const(1)

def lt0(p):
    """0/1 polynomial for p < 0"""
    lo, hi = p.bounds()
    if hi is not None and hi < 0: return ONE
    if lo is not None and lo >= 0: return ZERO
    # a boolean expressed inside: b - 1 < 0  etc. are handled by bounds; b with lo=0,hi=1
    q, neg = p, False
    # canonical sign: p<0  <=>  not(-p-1 < 0)
    alt = -p - 1
    if _lead(alt) > 0 and _lead(p) < 0: q, neg = alt, True
    lo, hi = q.bounds()
    # divide by the gcd of non-constant coefficients
    from math import gcd
    g = 0
    for k, v in q.t.items():
        if k != (): g = gcd(g, abs(v))
    if g > 1:
        c = q.t.get((), 0)
        # g*x + c < 0  <=>  x + floor(c/g) < 0   (x integer): x < -c/g  <=> x <= ceil(-c/g)-1 <=> x + floor(c/g) < 0
        b = q.bounds()
        q2 = Poly({k: v // g for k, v in q.t.items() if k != ()}) + (c // g)
        q = q2
        lo, hi = q.bounds()
        if hi is not None and hi < 0: return ZERO if neg else ONE
        if lo is not None and lo >= 0: return ONE if neg else ZERO
    # single boolean atom minus 1
    if len(q.t) <= 2:
        c = q.t.get((), 0)
        ks = [k for k in q.t if k != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and ATOMS[ks[0][0][0]].isbool and abs(q.t[ks[0]]) == 1:
            b = Poly({ks[0]: 1}); s = q.t[ks[0]]
            v0 = c < 0; v1 = (c + s) < 0
            r = ONE * int(v0) + b * (int(v1) - int(v0))
            return ONE - r if neg else r
    if lo == -1 and hi == 0: r = -q; return ONE - r if neg else r
    a = new_atom("lt", "lt0", 0, 1, defn=q, key=("lt0", q.key()))
    r = Poly.atom(a)
    return ONE - r if neg else r

def _lead(p):
    ks = [k for k in p.t if k != ()]
    if not ks: return 0
    return p.t[max(ks, key=lambda k: [(a, str(e)) for a, e in k])]

def eq0(p):
    if p.is_const(): return ONE if p.is_zero() else ZERO
    lo, hi = p.bounds()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return ZERO
    if _lead(p) < 0: p = -p; lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    from math import gcd
    g = 0
    for k, v in p.t.items():
        if k != (): g = gcd(g, abs(v))
    if g > 1:
        if p.t.get((), 0) % g: return ZERO
        p = Poly({k: v // g for k, v in p.t.items()})
        lo, hi = p.bounds()
    if len(p.t) <= 2:
        c = p.t.get((), 0)
        ks = [k for k in p.t if k != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and ATOMS[ks[0][0][0]].isbool and p.t[ks[0]] == 1:
            b = Poly({ks[0]: 1})
            if c == 0: return ONE - b
            if c == -1: return b
            return ZERO
    if lo == 0 and hi == 1: return ONE - p
    if lo == -1 and hi == 0: return ONE + p
    if len(p.t) == 1:
        (kk, v), = p.t.items()
        if len(kk) == 1 and kk[0][1] == 1:
            A = ATOMS[kk[0][0]]
            if A.kind == "bv" and A.defn:
                op, x, y = A.defn
                if op == "or": return eq0(x) * eq0(y)
                if op == "xor": return eq0(x - y)
    # x in [0, inf) == 0  with lo==0:  equivalent to not(0 < x); keep eq0 atoms
    a = new_atom("eq", "eq0", 0, 1, defn=p, key=("eq0", p.key()))
    return Poly.atom(a)

def b_and(a, b): return a * b
def b_not(a): return ONE - a
def b_or(a, b): return a + b - a * b
def b_xor(a, b): return a + b - (a * b).scale(2)

def is_boolpoly(p):
    """cheap sufficient test that p takes values in {0,1}"""
    lo, hi = p.bounds()
    if lo is not None and hi is not None and lo >= 0 and hi <= 1: return True
    ats = p.atoms()
    if len(ats) <= 6 and all(ATOMS[a].isbool for a in ats):
        ats = list(ats)
        for m in range(1 << len(ats)):
            v = 0
            on = {a for i, a in enumerate(ats) if m >> i & 1}
            for k, c in p.t.items():
                if all(a in on for a, _ in k): v += c
            if v not in (0, 1): return False
        set_bounds(p, 0, 1)
        return True
    return False

def divmod2k(p, k):
    """exact (hi, lo) with p = hi*2^k + lo, 0 <= lo < 2^k"""
    M = 1 << k
    if p.is_const():
        c = p.cval(); return Poly.const(c >> k), Poly.const(c & (M - 1))
    lo, hi = p.bounds()
    if lo is not None and hi is not None and lo >= 0 and hi < M: return ZERO, p
    if len(p.t) == 1:
        (kk, v), = p.t.items()
        if v == 1 and len(kk) == 1 and kk[0][1] == 1 and ATOMS[kk[0][0]].kind == "div":
            c0, k0 = ATOMS[kk[0][0]].defn       # (x >> i) >> k  =  x >> (i+k)
            H, _ = divmod2k(c0, k0 + k)
            low = p - H.scale(M)
            _rec(p, k, H, low)
            return H, low
    j = k
    for v in p.t.values():
        t = (v & -v).bit_length() - 1
        if t < j:
            j = t
            if j == 0: break
    if j:
        # 2^j divides p:  p div 2^k = (p/2^j) div 2^(k-j)
        q = Poly({kk: v >> j for kk, v in p.t.items()})
        if k == j: return q, ZERO
        h, l = divmod2k(q, k - j)
        return h, l.scale(1 << j)
    q = {}; r = {}
    for kk, v in p.t.items():
        rr = v & (M - 1)
        if rr: r[kk] = rr
        qq = (v - rr) >> k
        if qq: q[kk] = qq
    r = Poly(r); q = Poly(q)
    # prefer a signed representation when it makes the bounds tight
    cands = [r]
    r2 = Poly({kk: (v if v < M // 2 else v - M) for kk, v in r.t.items()})
    if r2 != r:
        cands.append(r2)
        c0 = r.t.get((), 0)
        if c0 >= M // 2: cands.append(r2 + M)
    # p itself if it is in a small window
    cands.append(p)
    for c in cands:
        l, h = c.bounds()
        if l is None or h is None: continue
        if l >= 0 and h < M: H = ZERO
        elif (l >> k) == (h >> k): H = Poly.const(l >> k)
        elif l >= -M and h < M: H = -lt0(c)
        elif l >= 0 and h < 2 * M: H = ONE - lt0(c - M)
        else: continue
        low = c - H.scale(M)
        qq = (p - c)
        hi_ = Poly({kk: v >> k for kk, v in qq.t.items()}) + H
        _rec(p, k, hi_, low)
        return hi_, low
    if len(p.t) == 1 and all(len(kk) == 1 and kk[0][1] == 1 and v == 1 for kk, v in p.t.items()):
        # a single atom: keep the low part as  x - 2^k H
        c = p; k0 = k
        l, h = c.bounds()
        k_, k = k, k0
        a = new_atom("H%d" % k, "div", None if l is None else l >> k, None if h is None else h >> k, defn=(c, k), key=("div", k, c.key()))
        H = Poly.atom(a); k = k_
        low = p - H.scale(M)
        _rec(p, k, H, low)
        return H, low
    # general case: named quotient and remainder, related by  p = 2^k H + L
    rf = residue(p, k)
    if rf.is_const(): L = Poly.const(rf.cval()); la = None
    else:
        l2, h2 = rf.bounds()
        if l2 is not None and h2 is not None and l2 >= 0 and h2 < M: L = rf; la = None
        else:
            n0 = len(ATOMS)
            la = new_atom("L%d" % k, "lo", 0, M - 1, key=("low", k, rf.key()))
            L = Poly.atom(la)
            if la.id != n0: la_new = False
            else: la_new = True; la.lowdef = (p, k)
    l, h = p.bounds()
    n0 = len(ATOMS)
    ha = new_atom("H%d" % k, "hi", None if l is None else l >> k, None if h is None else h >> k, key=("hi", k, p.key()))
    H = Poly.atom(ha)
    if ha.id == n0:
        rel = p - H.scale(M) - L
        ha.rels.append(rel)
        if la is not None:
            la.rels.append(rel)
            if la_new: la.irule = (p - H.scale(M), 0)
            else: ha.irule = (p - L, k)
        else: ha.irule = (p - L, k)
    HIS.append(H)
    return H, L

def residue(p, k):
    """canonical residue of p modulo 2^k, unfolding remainders modulo at least 2^k"""
    M = 1 << k
    p = Poly({kk: v & (M - 1) for kk, v in p.t.items() if v & (M - 1)})
    for _ in range(10000):
        mp = None
        for a in sorted(p.atoms(), reverse=True):
            A = ATOMS[a]
            if A.lowdef is not None and A.lowdef[1] >= k:
                mp = {a: A.lowdef[0]}; break
        if mp is None: return p
        p = p.subst(mp)
        p = Poly({kk: v & (M - 1) for kk, v in p.t.items() if v & (M - 1)})
    raise RuntimeError("residue")

def _rec(p, k, hi_, low):
    set_bounds(low, 0, (1 << k) - 1)
    HIS.append(hi_)
    l, h = p.bounds()
    set_bounds(hi_, None if l is None else l >> k, None if h is None else h >> k)
