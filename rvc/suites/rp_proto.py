"""Concrete counterparts of the protocol units: an honest proof over random contents is accepted by the compiled verifier, and
is refused once a byte of it, or the statement, is changed; encodings decode exactly when they denote a point."""
from .sp_r1cs import gx, rsc, encr, o_inst, gen_inst, enc_inst, sat, np2
from ..field import PSECP, NSECP
import re
from . import group as GR
p = PSECP
def tam(rng): return "b:%d" % rng.randrange(1 << 10) if rng.random() < .3 else "-" if rng.random() < .4 else "%d:%d" % (rng.randrange(1 << 16), rng.choice([1, 1, 1, 2, 128, rng.randrange(1, 256)]))
def ora(t): return "bound" if t[0][0] == "b" else "accept" if t[0] == "-" else "reject"
def nz(rng): return rng.choice([0, 1, rsc(rng), rsc(rng), rsc(rng), rsc(rng)])
def vec(rng, n): return [nz(rng) for _ in range(n)]
def simple(op, f): return ("pr", op, [(gx(lambda rng: [tam(rng)] + f(rng), lambda t: " ".join([t[0]] + [encr(x) for x in t[1:]])), "t")], ora)
def dot(a, b): return sum(x * y for x, y in zip(a, b)) % p
def up(rng, k, hi):                       # mostly the unit's own size, sometimes well past the sizes under contract
    return k if rng.random() < .75 else rng.randrange(k, max(k, hi) + 1)
def g_dot(n, log=False):
    def f(rng):
        m = up(rng, n, 40) if not log else 1 << up(rng, n.bit_length() - 1, 6)
        a, b = vec(rng, m), vec(rng, m); return [a, b, [nz(rng), dot(a, b), nz(rng)]]
    return f
def g_prod(rng): x, y = nz(rng), nz(rng); return [[x, nz(rng), y, nz(rng), x * y % p, nz(rng)]]
def g_eq(rng): x = nz(rng); return [[x, nz(rng), x, nz(rng)]]
def mle(v, r):
    v = list(v)
    for x in r: h = len(v) // 2; v = [(v[i] + x * (v[h + i] - v[i])) % p for i in range(h)]
    return v[0]
def g_pe(k0):
    def f(rng):
        k = up(rng, k0, 8); z, r = vec(rng, 1 << k), vec(rng, k); return [z, r, [mle(z, r), nz(rng)]]
    return f
def g_sc(k0):
    def f(rng):
        k = up(rng, k0, 6); a, b, c = [vec(rng, 1 << k) for _ in range(3)]; return [a, b, c, [sum(x * y * z for x, y, z in zip(a, b, c)) % p]]
    return f
def g_ba(k0):
    def f(rng):
        k = up(rng, k0, 6); v = [vec(rng, 1 << k) for _ in range(6)]; w = [nz(rng), nz(rng)]
        return v + [w, [sum(w[0] * x * y * z + w[1] * s * t * u for x, y, z, s, t, u in zip(*v)) % p]]
    return f
def g_zq(k0):
    def f(rng):
        k = up(rng, k0, 6); a, b = vec(rng, 1 << k), vec(rng, 1 << k); return [a, b, [dot(a, b), nz(rng)]]
    return f
def g_zc(k0):
    def f(rng):
        k = up(rng, k0, 6); v = [vec(rng, 1 << k) for _ in range(4)]; return v + [[sum(x * (y * z - w) for x, y, z, w in zip(*v)) % p, nz(rng)]]
    return f
def g_nizk(rng):
    while True:
        t = list(gen_inst(True)(rng)); nc, nv, ni, A, B, C_, vs, xs = t
        if any(v >= p for M in (A, B, C_) for _, _, v in M) or not nc: continue
        r = o_inst(*t)
        if r not in ("true", "false") or len(vs) != nv: continue
        if r == "false" and rng.random() < .7: continue
        tm = tam(rng)
        if r == "true" and ni and rng.random() < .2: tm = rng.choice(["x", "xb"])
        if r == "true" and rng.random() < .15: tm = "f" if ni and rng.random() < .5 else "e"
        if r == "false" and tm[0] == "b": continue
        return (tm,) + tuple(t)
def g_snark(rng):
    """a NIZK instance, with further dishonest provers: list boundaries moved, another circuit"""
    t = list(g_nizk(rng)); sat = o_inst(*t[1:]) == "true"; r = rng.random()
    if sat and r < .35: t[0] = "s:%d:%d" % (rng.randrange(60), rng.randrange(12))
    elif sat and r < .45 and any(t[4:7]): t[0] = rng.choice("cd")
    elif sat and t[3] and r < .5: t[0] = "f"
    elif t[0] == "xb": t[0] = "x"
    elif t[0] == "e": t[0] = "-"
    return tuple(t)
def o_nizk(t):
    r = o_inst(*t[1:])
    if "b" in t[0]: return "bound"
    return "reject" if r == "false" or t[0] != "-" and (t[0] != "x") else "accept" if t[0] == "-" else "reject"
def e_nizk(t): return t[0] + " " + enc_inst(t[1:])
# encodings of points of the curve y^2 = x^3 + 7 over the integers modulo n
def is_sq(v): return v == 0 or pow(v, (NSECP - 1) // 2, NSECP) == 1
def g_pt(rng, _=None):
    x = rng.choice([rng.randrange(NSECP), rng.randrange(NSECP), rng.randrange(8), NSECP - 1 - rng.randrange(3), NSECP + rng.randrange(4), 2**256 - 1])
    return (bytes([rng.choice([2, 3, 2, 3, 2, 3, rng.randrange(256)])]) + x.to_bytes(32, "big")).hex()
def o_pt(h):
    b = bytes.fromhex(h); x = int.from_bytes(b[1:], "big")
    if b[0] not in (2, 3): return None
    if x >= NSECP or not is_sq((x**3 + 7) % NSECP): return lambda g: g in ("none", "badenc")
    return h
PT = ("pr", "unpack", [(("gen", g_pt, lambda v: v), "p")], o_pt)
def num(name): return [int(x) for x in re.findall(r"\b(\d+)\b", name)]
# generators and points travel as discrete logarithms to the base point
def gm(k): return GR.sec1(GR.ec_mul(k, (GR.GX, GR.GY)))
def lst(v): return "".join(rfe(x) for x in v)
def g_ops(op, f, o): return ("pr", op, [(gx(f, lambda t: " ".join(x if isinstance(x, str) else str(x) if isinstance(x, int) else encr(x) for x in t)), "t")], o)
class V1(list): pass
FORMS = ["&AffinePoint * &", "AffinePoint * &", "&AffinePoint * s", "AffinePoint * s", "&scalar::scalar::Scalar * &", "scalar::scalar::Scalar * &", "&scalar::scalar::Scalar * A", "scalar::scalar::Scalar * A", "AffinePoint *= &", "AffinePoint *= s"]
def r_mul(name):
    k = [i for i, f in enumerate(FORMS) if name.startswith(f)][0]
    return g_ops("gmul", lambda rng: [k, [nz(rng)], [nz(rng)]], lambda t: gm(t[1][0] * t[2][0] % p))
def r_msm(n, m): return g_ops("msm", lambda rng: [vec(rng, n), vec(rng, m)], lambda t: gm(dot(t[0], t[1])))
def r_com(op, n): return g_ops(op, lambda rng: [vec(rng, n), [nz(rng)], vec(rng, n), [nz(rng)]], lambda t: gm((dot(t[0], t[2]) + t[1][0] * t[3][0]) % p))
def ogs(v, h): return "%d %s %s" % (len(v), ",".join(gm(x) for x in v), gm(h))
def r_tr(op, f, o="same"): return g_ops(op, f, lambda t: o)
def hx(rng, lo=0, hi=9): return bytes(rng.randrange(256) for _ in range(rng.randrange(lo, hi))).hex() or "00"
def twin(rng, f):
    a = f(rng); return [a, a if rng.random() < .3 else f(rng)]
def tvec(rng, n):
    a = vec(rng, n); r = rng.random()
    if r < .3 or not n: return [a, list(a)]
    b = list(a)
    if r < .6: b[rng.randrange(n)] = nz(rng)
    elif r < .8: b = b[::-1]
    else: b = b[:-1] if rng.random() < .5 else b + [nz(rng)]
    return [a, b]
EXTRA = [
 (r"AffinePoint \*|\* &?AffinePoint|^AffinePoint \*=", lambda c, nm: r_mul(nm)),
 (r"^vartime_multiscalar_mul", lambda c, nm: r_msm(*num(nm)) if num(nm)[0] == num(nm)[1] else None),
 (r"^Scalar::commit", lambda c, nm: r_com("commit1", 1)),
 (r"^Vec commit", lambda c, nm: r_com("commitv", c)), (r"^slice commit", lambda c, nm: r_com("commits", c)),
 (r"^MultiCommitGens::clone", lambda c, nm: g_ops("gclone", lambda rng: [vec(rng, c), [nz(rng)]], lambda t: ogs(t[0], t[1][0]))),
 (r"^MultiCommitGens::scale", lambda c, nm: g_ops("gscale", lambda rng: [vec(rng, c), [nz(rng)], [nz(rng)]], lambda t: ogs([x * t[2][0] % p for x in t[0]], t[1][0]))),
 (r"^MultiCommitGens::split_at", lambda c, nm: g_ops("gsplit", lambda rng: [vec(rng, num(nm)[1]), [nz(rng)], c], lambda t: ogs(t[0][:t[2]], t[1][0]) + " " + ogs(t[0][t[2]:], t[1][0]))),
 (r"^MultiCommitGens::new", lambda c, nm: r_tr("gnew", lambda rng: [c, hx(rng)])),
 (r"^append_scalar", lambda c, nm: r_tr("tr_scalar", lambda rng: [[nz(rng)]])),
 (r"^append_point", lambda c, nm: r_tr("tr_point", lambda rng: [[nz(rng)]])),
 (r"^append_protocol_name", lambda c, nm: r_tr("tr_name", lambda rng: twin(rng, hx))),
 (r"^challenge_scalar", lambda c, nm: r_tr("tr_challenge", lambda rng: [hx(rng)])),
 (r"^challenge_vector", lambda c, nm: r_tr("tr_cvec", lambda rng: [c, hx(rng)])),
 (r"^\[Scalar\]::append_to_transcript", lambda c, nm: r_tr("tr_vec", lambda rng: tvec(rng, c))),
 (r"^RandomTape", lambda c, nm: ("pr", "tape", [], lambda: "same")),
 (r"^decompress_vector", lambda c, nm: g_ops("dsv", lambda rng: [vec(rng, c)], lambda t: ",".join(x.to_bytes(32, "little").hex() for x in t[0]))),
 (r"^decompress_scalar", lambda c, nm: g_ops("dsc", lambda rng: [[nz(rng)]], lambda t: t[0][0].to_bytes(32, "little").hex())),
]
def attach(us):
    for u in us:
        for pat, f in EXTRA:
            if u.rp is None and re.search(pat, u.name):
                u.rp = f((num(u.name) + [0])[0], u.name)
                if u.rp: u.cap = u.cap or (12, 800)
    for u in us:
        if u.rp is not None: continue
        n, k = u.name, num(u.name); c = k[0] if k else 0
        for pat, f in RULES:
            if re.search(pat, n):
                u.rp = f(c); u.cap = u.cap or ((2, 200) if u.rp[1] == "snark" else (4, 600)); break
    return us
def clampp(k, lo, hi): return max(lo, min(hi, k))
RULES = [
 (r"^KnowledgeProof", lambda c: simple("know", lambda rng: [vec(rng, 2)])),
 (r"^EqualityProof", lambda c: simple("equal", g_eq)),
 (r"^ProductProof", lambda c: simple("product", g_prod)),
 (r"^DotProductProofLog::|^BulletReductionProof|^DotProductProofGens", lambda c: simple("dotlog", g_dot(np2(clampp(c, 1, 8)), True))),
 (r"^DotProductProof", lambda c: simple("dot", g_dot(clampp(c, 1, 5)))),
 (r"^PolyEvalProof|^PolyCommitment|^DensePolynomial::commit", lambda c: simple("polyeval", g_pe(clampp(c, 1, 5)))),
 (r"^SumcheckInstanceProof::prove_cubic_batched", lambda c: simple("batched", g_ba(clampp(c, 1, 3)))),
 (r"^SumcheckInstanceProof", lambda c: simple("sumcheck", g_sc(clampp(c, 1, 3)))),
 (r"^ZKSumcheckInstanceProof::(prove_quad|.*degree 2)", lambda c: simple("zkquad", g_zq(clampp(c, 1, 3)))),
 (r"^ZKSumcheckInstanceProof", lambda c: simple("zkcubic", g_zc(clampp(c, 1, 3)))),
 (r"^SNARK|^R1CSCommitment|^R1CSEvalProof|^R1CSInstance::commit|^SparseMat|^ProductCircuit|^DotProductCircuit|^ProductLayerProof|^HashLayerProof|^Layers|^PolyEvalNetwork", lambda c: ("pr", "snark", [(gx(g_snark, e_nizk), "t")], o_nizk)),
 (r"^R1CS|^NIZK", lambda c: ("pr", "nizk", [(gx(g_nizk, e_nizk), "t")], o_nizk)),
 (r"^CompressedGroup::(unpack|decompress)", lambda c: PT),
]
