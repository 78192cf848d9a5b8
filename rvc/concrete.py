"""Concrete inputs: edge cases, constants harvested from the MIR, solver models, seeded random."""
import itertools, json, re
P256 = {}
class Fk:
    """kind 'fe': canonical Montgomery representation in [0,p)"""
    def __init__(s, p, bits=256, nl=5): s.p = p; s.R = 2**bits % p; s.Ri = pow(s.R, -1, p); s.nl = nl
    def enc_val(s, v): return enc_int(v % s.p * s.R % s.p, 8 * s.nl)
    def dec(s, h): return int.from_bytes(bytes.fromhex(h), "little") * s.Ri % s.p
def enc_int(n, nbytes): return n.to_bytes(nbytes, "little").hex()

def kind_of(k): return k[0] if isinstance(k, tuple) else k
def abstract(k, v):
    """raw argument -> mathematical value given to the oracle"""
    t = kind_of(k)
    if t == "fe": return v * k[1].Ri % k[1].p
    if t == "fes": return [x * k[1].Ri % k[1].p for x in v]
    return v
def encode(k, v):
    t = kind_of(k)
    if t == "fe": return enc_int(v, 8 * k[1].nl)
    if t == "fes": return "".join(enc_int(x, 8 * k[1].nl) for x in v)
    if t == "u64": return enc_int(v, 8)
    if t == "u8": return enc_int(v, 1)
    if t == "words": return enc_int(v, 8 * k[1])
    if t == "bytes": return bytes(v).hex()
    if t == "var": return bytes(v).hex() or ""
    if t == "dec": return str(v)
    if t == "gen": return k[2](v)
    raise KeyError(t)
M64 = 2**64 - 1
def limb(rng):
    r = rng.random()
    if r < .2: return 0
    if r < .4: return M64
    if r < .5: return 1
    if r < .6: return M64 - rng.randrange(4)
    if r < .7: return 1 << rng.randrange(64)
    if r < .75: return M64 ^ (1 << rng.randrange(64))
    if r < .8: return rng.randrange(2000)
    return rng.getrandbits(64)
def words(rng, n): return sum(limb(rng) << 64 * i for i in range(n))
def rawfe(rng, k, consts):
    p = k.p
    r = rng.random()
    if r < .12: return rng.choice([0, 1, 2, p - 1, p - 2, k.R, (p - k.R) % p, k.R * k.R % p, (p - 1) // 2, (p + 1) // 2, 2**255 % p, (2 * k.R) % p])
    if r < .2: return p - 1 - rng.randrange(2**32)
    if r < .3: return (rng.randrange(300) * k.R) % p
    if r < .36: return (-rng.randrange(300) * k.R) % p
    if r < .45 and consts:
        c = rng.choice(consts)
        return rng.choice([c % p, c * k.R % p, (c << 64 * rng.randrange(4)) % p, (c + rng.randrange(3) - 1) % p, (c + rng.randrange(3) - 1) * k.R % p])
    if r < .7: return words(rng, 4) % p
    if r < .75: return (words(rng, 4) % p) * k.R % p
    return rng.randrange(p)
def one(k, rng, consts):
    t = kind_of(k)
    if t == "gen": return k[1](rng, consts)
    if t == "fe": return rawfe(rng, k[1], consts)
    if t == "fes": return [rawfe(rng, k[1], consts) for _ in range(rng.choice(k[2]))]
    if t == "u64":
        if consts and rng.random() < .2: return (rng.choice(consts) + rng.randrange(3) - 1) & M64
        return limb(rng)
    if t == "u8": return rng.choice(k[1]) if isinstance(k, tuple) else rng.randrange(256)
    if t == "words":
        if len(k) > 2 and rng.random() < .3: return (k[2] * rng.choice([1, 1, 1, 2, 0]) + rng.randrange(-3, 4)) % (1 << 64 * k[1])
        if consts and rng.random() < .1:
            c = rng.choice(consts); return (c + rng.randrange(3) - 1) % (1 << 64 * k[1])
        return words(rng, k[1])
    if t in ("bytes",):
        n = k[1]; r = rng.random()
        m = k[2] if len(k) > 2 else None
        if m and r < .4: return list(((m * rng.choice([1, 1, 1, 2, 0]) + rng.randrange(-3, 4)) % (1 << 8 * n)).to_bytes(n, "little"))
        if consts and r < .5:
            c = rng.choice(consts); return list(((c + rng.randrange(3) - 1) % (1 << 8 * n)).to_bytes(n, "little"))
        if r < .7: return list((words(rng, n // 8)).to_bytes(n, "little"))
        if m and r < .85: return list(rng.randrange(m).to_bytes(n, "little"))
        return [rng.randrange(256) for _ in range(n)]
    if t == "var":
        lo, hi = k[1], k[2]
        return [rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(rng.randrange(lo, hi + 1))]
    if t == "dec":
        lo, hi = k[1], k[2]; r = rng.random()
        if r < .3: return min(hi, max(lo, lo + rng.randrange(40)))
        if r < .6: return min(hi, max(lo, (1 << rng.randrange(hi.bit_length() + 1)) + rng.randrange(-2, 3)))
        if consts and r < .7: return min(hi, max(lo, rng.choice(consts) + rng.randrange(-1, 2)))
        if r < .75: return hi - rng.randrange(min(4, hi - lo + 1))
        return rng.randrange(lo, hi + 1)
    raise KeyError(t)
def edges(k):
    t = kind_of(k)
    if t == "fe":
        f = k[1]; p = f.p
        return [0, f.R, p - f.R, 2 * f.R % p, p - 1, 1, (p - 2 * f.R) % p, f.R * f.R % p, 2**192, 2**128, 2**64, M64, 2**128 - 1, 2**192 - 1, (2**256 - 1) % p]
    if t == "u64": return [0, 1, 2, M64, 1 << 63, 977]
    if t == "u8": return list(k[1]) if isinstance(k, tuple) else [0, 1, 255]
    if t == "words": return [0, 1, (1 << 64 * k[1]) - 1, 2**64, M64] + ([(c * k[2] + d) % (1 << 64 * k[1]) for c in (1, 2) for d in (-1, 0, 1)] if len(k) > 2 else [])
    if t == "bytes":
        n = k[1]; m = k[2] if len(k) > 2 else 1 << (8 * n - 1)
        return [list((x % (1 << 8 * n)).to_bytes(n, "little")) for x in (0, 1, m - 1, m, m + 1, (1 << 8 * n) - 1, 2**32 + 977)]
    return []
def from_model(kinds, m):
    out = []
    m = {re.sub(r"#\d+", "", k): v for k, v in m.items()}
    for k, nm in kinds:
        t = kind_of(k)
        def I(fmt, n, w): return [m.get(fmt % (nm, i)) for i in range(n)]
        if t == "fe":
            l = I("%s.l%d", 4, 64)
            if all(x is None for x in l): out.append(None); continue
            out.append(sum(((x or 0) & M64) << 64 * i for i, x in enumerate(l)) % k[1].p)
        elif t in ("words", "u64"):
            n = k[1] if t == "words" else 1
            l = I("%s%d", n, 64)
            out.append(None if all(x is None for x in l) else sum(((x or 0) & M64) << 64 * i for i, x in enumerate(l)))
        elif t == "bytes":
            l = I("%s%d", k[1], 8)
            out.append(None if all(x is None for x in l) else [(x or 0) & 255 for x in l])
        elif t == "dec":
            x = m.get(nm); out.append(None if x is None else max(k[1], min(k[2], x)))
        else: out.append(None)
    return out
def cases(kinds, n, rng, consts, models, pool=None):
    ks = [k for k, _ in kinds]
    out = []
    for m in models:
        c = from_model(kinds, m)
        for _ in range(20): out.append([one(k, rng, consts) if x is None else x for k, x in zip(ks, c)])
    if pool: out += [list(c) for c in pool]
    e = [edges(k) or [one(k, rng, consts) for _ in range(4)] for k in ks]
    pr = list(itertools.islice(itertools.product(*e), 3000))
    if len(pr) > n // 2: pr = rng.sample(pr, max(n // 2, 1))
    out += [list(c) for c in pr]
    if consts:
        for c in consts[:200]:
            for i, k in enumerate(ks):
                t = kind_of(k)
                if t not in ("fe", "u64", "words", "bytes", "dec"): continue
                cand = {"fe": lambda: [c % k[1].p, c * k[1].R % k[1].p], "u64": lambda: [c & M64], "words": lambda: [c % (1 << 64 * k[1])], "bytes": lambda: [list((c % (1 << 8 * k[1])).to_bytes(k[1], "little"))], "dec": lambda: [max(k[1], min(k[2], c))]}[t]()
                for x in cand: out.append([one(kk, rng, consts) if j != i else x for j, kk in enumerate(ks)])
    while len(out) < n: 
        c = [one(k, rng, consts) for k in ks]
        if len(ks) == 2 and ks[0] == ks[1] and rng.random() < .1: c[1] = c[0]
        if len(ks) == 2 and ks[0] == ks[1] and kind_of(ks[0]) == "fe" and rng.random() < .1: c[1] = (ks[0][1].p - c[0]) % ks[0][1].p
        out.append(c)
    if not ks: return [[]]
    return out
def harvest(prog, fname):
    """integer constants of the function and of everything local it reaches"""
    fid = prog.find(fname)
    if fid is None: return []
    seen = set(); st = [fid]; out = set()
    while st:
        f = st.pop()
        if f in seen or len(seen) > 60: continue
        seen.add(f); fn = prog.fns.get(f)
        if not fn or not fn.get("blocks"): continue
        s = json.dumps(fn["blocks"])
        arrs = re.findall(r'"a": \[([0-9", ]*)\]', s)
        for a in arrs:
            l = [int(x) for x in re.findall(r"\d+", a)]
            if 0 < len(l) <= 8: out.add(sum(x << 64 * i for i, x in enumerate(l)))
            elif len(l) == 32: out.add(int.from_bytes(bytes(x & 255 for x in l), "little")); out.add(int.from_bytes(bytes(x & 255 for x in l), "big"))
        for x in re.findall(r'"i": "?(-?\d+)', s):
            x = int(x)
            if abs(x) > 1: out.add(abs(x))
        for b in fn["blocks"]:
            t = b["t"]
            if t[0] == "sw":
                for v, _ in t[2]: out.add(abs(int(v)))
            if t[0] == "call" and isinstance(t[1], dict):
                i = t[1].get("inst")
                if i and i in prog.fns and ("/repo/" in prog.fns[i]["file"]): st.append(i)
    out.discard(0)
    return sorted(out)[:400]
