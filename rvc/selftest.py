"""Randomised self-test of the engine's exact integer layer: every rewrite of poly.py is compared with plain
integer evaluation (atoms evaluated from their definitions)."""
import random, sys
from .poly import *
from . import poly as P
from . import exec as X

def ev(p, env):
    r = 0
    for k, v in p.t.items():
        t = v
        for a, e in k: t *= aval(a, env) ** e
        r += t
    return r
def aval(a, env):
    if a in env: return env[a]
    A = ATOMS[a]
    if A.kind == "div": v = ev(A.defn[0], env) >> A.defn[1]
    elif A.kind == "lt0": v = int(ev(A.defn, env) < 0)
    elif A.kind == "eq0": v = int(ev(A.defn, env) == 0)
    elif A.kind == "lo": v = ev(A.lowdef[0], env) % (1 << A.lowdef[1])
    elif A.kind == "hi":
        for k in (1, 7, 8, 16, 31, 32, 62, 63, 64, 128):
            pass
        rel = A.rels[0]       # p - 2^k H - L = 0
        c = rel.t[((a, 1),)]
        rest = ev(Poly({k: v for k, v in rel.t.items() if k != ((a, 1),)}), env)
        assert rest % c == 0, "quotient not integral"
        v = -rest // c
    else: raise KeyError(A)
    if A.lo is not None: assert v >= A.lo, (A, v)
    if A.hi is not None: assert v <= A.hi, (A, v)
    env[a] = v
    return v
def check(n=300, seed=1):
    rnd = random.Random(seed); tested = 0
    for it in range(n):
        X.reset_all()
        xs = [new_atom("x%d" % i, "var", 0, rnd.choice([1, 255, 2**64 - 1, 2**64 - 1])) for i in range(4)]
        pool = [(Poly.atom(x)) for x in xs] + [Poly.const(rnd.choice([0, 1, 5, 2**64 - 1, 0xfffffffefffffc2f]))]
        ops = []
        for _ in range(rnd.randint(3, 14)):
            o = rnd.choice(["add", "sub", "mulc", "mul", "dm", "dm", "lt", "eq", "dm1"])
            a, b = rnd.choice(pool), rnd.choice(pool)
            if len(a.t) > 60 or len(b.t) > 60: continue
            if o == "add": r = X.arith("Add", a, b); pool.append(r); ops.append((r, lambda E, a=a, b=b: ev(a, E) + ev(b, E)))
            elif o == "sub": r = X.arith("Sub", a, b); pool.append(r); ops.append((r, lambda E, a=a, b=b: ev(a, E) - ev(b, E)))
            elif o == "mulc":
                c = rnd.choice([2, 3, 2**32, 0xd838091dd2253531, 2**64 - 1, 2**63]); r = a.scale(c); pool.append(r)
            elif o == "mul": r = X.arith("Mul", a, b); pool.append(r); ops.append((r, lambda E, a=a, b=b: ev(a, E) * ev(b, E)))
            elif o in ("dm", "dm1"):
                k = rnd.choice([1, 7, 8, 31, 62, 63, 64, 64, 64, 128])
                h, l = divmod2k(a, k); pool += [h, l]
                ops.append((h, lambda E, a=a, k=k: ev(a, E) >> k)); ops.append((l, lambda E, a=a, k=k: ev(a, E) % (1 << k)))
            elif o == "lt": r = lt0(a - b); pool.append(r); ops.append((r, lambda E, a=a, b=b: int(ev(a, E) < ev(b, E))))
            else: r = eq0(a - b); pool.append(r); ops.append((r, lambda E, a=a, b=b: int(ev(a, E) == ev(b, E))))
        for _ in range(6):
            env = {}
            for x in xs:
                env[x.id] = rnd.choice([0, 1, x.hi, x.hi - 1 if x.hi > 1 else 0, rnd.randint(0, x.hi), rnd.randint(0, min(x.hi, 300))])
            for r, f in ops:
                E = dict(env)
                v = ev(r, E); w = f(E); tested += 1
                assert v == w, (r, v, w, it)
                lo, hi = r.bounds()
                assert (lo is None or lo <= v) and (hi is None or v <= hi), ("bounds", r, lo, v, hi)
            for (m, key), (lo, hi) in list(P.BOUNDS.items()):
                v = ev(Poly(dict(key)), dict(env))
                assert (lo is None or lo <= v) and (hi is None or v <= hi), ("BOUNDS", lo, v, hi)
    return tested
if __name__ == "__main__":
    print(check(int(sys.argv[1]) if len(sys.argv) > 1 else 2000))
