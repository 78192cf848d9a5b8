"""Spartan-secq protocols: contracts of the group and of the transcript, and the vocabulary of the protocol units.

The proof group has prime order p (2^256 - 2^32 - 977): a group element is carried as its discrete logarithm to one
fixed generator, an element of F_p.  The contracts below say exactly that the group operations are those of F_p acting on
logarithms; nothing else about the curve is used, so equalities proved here hold in every group of that order."""
from .spartan import *
from .sp_r1cs import contracts as r1cs_contracts
from ..solve import Solver
GS = FSpec("G", p)
GS.limbs = lambda fe: Agg((fe,))
TR = {}      # log id -> tuple of entries
TRI = {}
def tid(entries):
    k = tuple(entries)
    i = TRI.get(k)
    if i is None: i = TRI[k] = len(TRI); TR[i] = k
    return i
GHASH = {}   # atom id -> message the group element is the image of
XOFB = {}    # polynomial key of a stream byte -> (inputs, position)
NZ = [False]  # challenges are assumed nonzero (they are inverted)
def reset(): NZ[0] = False; TR.clear(); TRI.clear(); GHASH.clear(); XOFB.clear()
def G(x): return FE(x, GS)
def gatom(name): return G(Poly.atom(new_atom(name, "felt", key=("felt", "G", name)), p))
def deref(ex, st, v):
    while isinstance(v, Ref): v = ex.load(st, v)
    return v
def gval(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Phi): return fite(v.c, gval(ex, st, v.a), gval(ex, st, v.b))
    if isinstance(v, Agg) and len(v.f) == 1: return gval(ex, st, v.f[0])
    if isinstance(v, FE) and v.spec is GS: return v.p
    raise Unsupported("group element %s" % type(v).__name__)
def sval(ex, st, fm, v):
    v = deref(ex, st, v)
    if isinstance(v, Phi): return fite(v.c, sval(ex, st, fm, v.a), sval(ex, st, fm, v.b))
    r = v if isinstance(v, FE) else fm.lift(v)
    if r is None or r.spec is GS: raise Unsupported("scalar %s" % type(v).__name__)
    return r.p
def cpt(ex, st, v):
    """(logarithm, validity) of an encoded point"""
    v = deref(ex, st, v)
    if isinstance(v, Phi):
        a, av = cpt(ex, st, v.a); b, bv = cpt(ex, st, v.b); return fite(v.c, a, b), merge_val(v.c, av, bv)
    if isinstance(v, Obj) and v.k == "cpt": return v.d
    raise Unsupported("encoded point %s" % type(v).__name__)
def enc_pt(x, valid=ONE): return Obj("cpt", (x, valid))
def pt(name, valid=None):
    """an arbitrary encoding: a logarithm and whether it decodes at all"""
    x = Poly.atom(new_atom(name, "felt", key=("felt", "G", name)), p)
    if valid is None:
        a = new_atom(name + "_ok", "var", 0, 1, key=("ptok", name)); valid = Poly.atom(a)
    return enc_pt(x, valid)
def msgkey(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Obj) and v.k == "ptbytes": return ("p", v.d[0].key(), v.d[1].key())
    if isinstance(v, (Agg, VecV)):
        if all(isinstance(x, Poly) and x.is_const() for x in v.f): return ("b", bytes(x.cval() for x in v.f))
        if all(isinstance(x, Poly) for x in v.f): return ("B",) + tuple(x.key() for x in v.f)
        if all(isinstance(x, Opq) for x in v.f): return ("o",) + tuple(x.n for x in v.f)
    raise Unsupported("transcript message %s" % type(v).__name__)
def label(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, (Agg, VecV)) and all(isinstance(x, Poly) and x.is_const() for x in v.f): return bytes(x.cval() for x in v.f)
    raise Unsupported("transcript label")
def tmap(ex, st, ref_, f):
    """apply f: id -> (id, value) to the transcript in a cell; value may be None"""
    def go(v):
        if isinstance(v, Phi):
            c = st.simp(v.c)
            if c.is_const(): return go(v.a if c.cval() else v.b)
            a, x = go(v.a); b, y = go(v.b)
            if same(a, b): return a, x
            return Phi(c, a, b), (None if x is None else FE(fite(c, x.p, y.p), x.spec))
        if not (isinstance(v, Obj) and v.k == "tr"): raise Unsupported("transcript %s" % type(v).__name__)
        i, x = f(v.d)
        return Obj("tr", i), x
    while isinstance(ex.load(st, ref_), Ref): ref_ = ex.load(st, ref_)
    n, x = go(ex.load(st, ref_))
    ex.store(st, ref_, n)
    return x
def new_transcript(name=b"", entries=()): return Obj("tr", tid((("new", name),) + tuple(entries)))
def chal(fm, i, n=0):
    return FE(Poly.atom(new_atom("ch%d" % i, "felt", key=("felt", "challenge", i)), p), fm.spec)
def log_of(ex, st, r):
    """entries of the transcript, when it does not depend on a condition"""
    v = deref(ex, st, r)
    while isinstance(v, Phi):
        c = st.simp(v.c)
        if not c.is_const():
            if ex.valid(st, c): c = ONE
            elif ex.valid(st, ONE - c): c = ZERO
            else: raise Unsupported("transcript depends on a condition")
        v = v.a if c.cval() else v.b
    return TR[v.d]
def challenges(fm, log):
    """[(position, challenge value)]"""
    return [(i, chal(fm, tid(log[:i])).p) for i, e in enumerate(log) if e[0] == "ch"]
def find_pt(log, x, valid, upto=None): return any(e[0] == "m" and e[2] == ("p", x.key(), valid.key()) for e in log[:upto])
def find_sc(log, x, upto=None): return any(e[0] == "m" and e[2] == ("s", x.key()) for e in log[:upto])
def bound(ex, st, log, upto, items, what):
    """every listed message is in the log before position upto; items: encoded points, scalars (FE) or field polynomials"""
    for k, v in enumerate(items):
        if isinstance(v, Obj): okk = any(find_pt(log, v.d[0], y, upto=upto) for y in (v.d[1], st.simp(v.d[1])))
        else: okk = find_sc(log, v.p if isinstance(v, FE) else v, upto)
        ex.record("ensures", "%s: message %d is bound into the transcript before the challenge" % (what, k), okk, "normal form")

def contracts(prog, fm):
    d = dict(r1cs_contracts(prog))
    def gen(ex, st, fn, args): return gatom("gen")
    d["AffinePoint::generator"] = gen
    def gbin(f):
        def g(ex, st, fn, args): return G(f(gval(ex, st, args[0]), gval(ex, st, args[1])))
        return g
    d["<AffinePoint as std::ops::Add>::add"] = gbin(lambda a, b: a + b)
    d["<AffinePoint as std::ops::Sub>::sub"] = gbin(lambda a, b: a - b)
    d["<AffinePoint as std::ops::Neg>::neg"] = lambda ex, st, fn, args: G(-gval(ex, st, args[0]))
    def gmul(ex, st, fn, args): return G(gval(ex, st, args[0]) * sval(ex, st, fm, args[1]))
    d["<AffinePoint as std::ops::Mul<Scalar>>::mul"] = gmul
    d["<&AffinePoint as std::ops::Mul<Scalar>>::mul"] = gmul
    d["<AffinePoint as std::cmp::PartialEq>::eq"] = lambda ex, st, fn, args: feq0(gval(ex, st, args[0]) - gval(ex, st, args[1]))
    d["AffinePoint::compress"] = lambda ex, st, fn, args: enc_pt(gval(ex, st, args[0]))
    def decompress(ex, st, fn, args):
        x, v = cpt(ex, st, args[0]); return Agg([G(x), Agg([v])])
    d["AffinePoint::decompress"] = decompress
    def fub(ex, st, fn, args):
        k = msgkey(ex, st, args[0])
        at = new_atom("hash", "felt", key=("felt", "G", "hash", k)); GHASH[at.id] = k
        return G(Poly.atom(at, p))
    d["AffinePoint::from_uniform_bytes"] = fub
    d["primeorder::ProjectivePoint::<Secq256K1>::to_affine"] = lambda ex, st, fn, args: G(gval(ex, st, args[0]))
    d["<primeorder::ProjectivePoint<Secq256K1> as std::convert::From<primeorder::AffinePoint<Secq256K1>>>::from"] = lambda ex, st, fn, args: G(gval(ex, st, args[0]))
    def mexp(ex, st, fn, args):
        t = F0
        for q in seqof(ex, st, args[0]):
            q = deref(ex, st, q); t = t + sval(ex, st, fm, q.f[0]) * gval(ex, st, q.f[1])
        return G(t)
    d["multiexp::multiexp::<primeorder::ProjectivePoint<Secq256K1>>"] = mexp
    def dec_sc(ex, st, fn, args): return FE(sval(ex, st, fm, args[0]), fm.spec)
    d["<scalar::scalar::Scalar as scalar::ScalarBytesFromScalar>::decompress_scalar"] = dec_sc
    def msm(ex, st, fn, args):
        ss = seqof(ex, st, args[0]); gs_ = seqof(ex, st, args[1])
        ex.record("requires", "multiscalar product: at least as many points as scalars", len(gs_) >= len(ss), "normal form (%d, %d)" % (len(ss), len(gs_)))
        t = F0
        for s_, g_ in zip(ss, gs_): t = t + sval(ex, st, fm, s_) * gval(ex, st, g_)
        return G(t)
    d["<AffinePoint as group::VartimeMultiscalarMul>::vartime_multiscalar_mul"] = msm
    def pt_eq(ex, st, fn, args):
        (a, av), (b, bv) = cpt(ex, st, args[0]), cpt(ex, st, args[1])
        if a == b and av == bv: return ONE
        return feq0(a - b) * av * bv
    def pt_ne(ex, st, fn, args): return ONE - pt_eq(ex, st, fn, args)
    def as_bytes(ex, st, fn, args): return ref(ex, st, Obj("ptbytes", cpt(ex, st, args[0])))
    def xcoord(ex, st, fn, args): return Enum(Poly.atom(new_atom("hasx", "var", 0, 1, key=("hasx", cpt(ex, st, args[0])[0].key()))), {0: (), 1: (ref(ex, st, Agg(int_args(ex, 32, 8, pre="xb"))),)})
    for f in prog.fns.values():
        n = strip_crate(f["name"])
        if n.startswith("<sec1::point::EncodedPoint<"):
            if n.endswith("as std::cmp::PartialEq>::eq"): d[n] = pt_eq
            if n.endswith("as std::cmp::PartialEq>::ne"): d[n] = pt_ne
        if n.startswith("bincode::serialize::<"): d[n] = lambda ex, st, fn, args: Enum(ZERO, {0: (VecV([Opq("byte")]),)})
        if n.startswith("sec1::point::EncodedPoint::<"):
            if n.endswith(">::as_bytes") or n.endswith(">::to_bytes"): d[n] = as_bytes
            if n.endswith(">::x"): d[n] = xcoord
    # ---- merlin
    d["merlin::Transcript::new"] = lambda ex, st, fn, args: new_transcript(label(ex, st, args[0]))
    def app(ex, st, fn, args):
        e = ("m", label(ex, st, args[1]), msgkey(ex, st, args[2]))
        tmap(ex, st, args[0], lambda i: (tid(TR[i] + (e,)), None)); return UNIT
    d["merlin::Transcript::append_message"] = app
    def app64(ex, st, fn, args):
        e = ("m", label(ex, st, args[1]), ("u", args[2].key()))
        tmap(ex, st, args[0], lambda i: (tid(TR[i] + (e,)), None)); return UNIT
    d["merlin::Transcript::append_u64"] = app64
    def chb(ex, st, fn, args):
        l = label(ex, st, args[1]); n = len(seqof(ex, st, args[2])); out = []
        def f(i):
            out.append(i); return tid(TR[i] + (("chb", l, n),)), None
        tmap(ex, st, args[0], f)
        if len(out) != 1: raise Unsupported("challenge bytes of a conditional transcript")
        ex.store(st, args[2], Agg([Poly.atom(new_atom("cb", "var", 0, 255, key=("cb", out[0], k))) for k in range(n)])); return UNIT
    d["merlin::Transcript::challenge_bytes"] = chb
    # ---- SHAKE256 (extendable output): a stream determined by the inputs
    def dcell(ex, st, r):
        while isinstance(ex.load(st, r), Ref): r = ex.load(st, r)
        return r
    d["<sha3::Shake256 as std::default::Default>::default"] = lambda ex, st, fn, args: Obj("shake", ())
    def shin(ex, st, fn, args):
        r = dcell(ex, st, args[0]); v = args[1]
        k = msgkey(ex, st, v); ex.store(st, r, Obj("shake", ex.load(st, r).d + (k[1] if k[0] == "b" else k,))); return UNIT
    def xof(ex, st, fn, args): return Obj("xof", (deref(ex, st, args[0]).d, 0))
    def rdx(ex, st, fn, args):
        r = dcell(ex, st, args[0]); src, pos = ex.load(st, r).d; n = len(seqof(ex, st, args[1])); bs = []
        for i in range(n):
            b_ = Poly.atom(new_atom("xof", "var", 0, 255, key=("xof", src, pos + i))); XOFB[b_.key()] = (src, pos + i); bs.append(b_)
        ex.store(st, args[1], Agg(bs)); ex.store(st, r, Obj("xof", (src, pos + n))); return Enum(ZERO, {0: (UNIT,)})
    for f in prog.fns.values():
        n = strip_crate(f["name"])
        if n.startswith("<sha3::Shake256 as digest::Input>::input"): d[n] = shin
    d["<sha3::Shake256 as digest::ExtendableOutput>::xof_result"] = xof
    d["<sha3::Sha3XofReader as std::io::Read>::read_exact"] = rdx
    PT = "<merlin::Transcript as transcript::ProofTranscript>::"
    def app_s(ex, st, fn, args):
        e = ("m", label(ex, st, args[1]), ("s", sval(ex, st, fm, args[2]).key()))
        tmap(ex, st, args[0], lambda i: (tid(TR[i] + (e,)), None)); return UNIT
    d[PT + "append_scalar"] = app_s
    def ch(ex, st, fn, args):
        l = label(ex, st, args[1])
        def one(i):
            c = chal(fm, i)
            if NZ[0]: st.assume(ONE - feq0(c.p))
            return tid(TR[i] + (("ch", l),)), c
        return tmap(ex, st, args[0], one)
    d[PT + "challenge_scalar"] = ch
    def rnd(ex, st, fn, args):
        ex.nrnd = getattr(ex, "nrnd", 0) + 1
        return fm.fresh("osrng%d" % ex.nrnd)
    d["scalar::scalar::Scalar::random::<rand::OsRng>"] = rnd
    d["<rand::OsRng as std::default::Default>::default"] = lambda ex, st, fn, args: Agg([])
    return d
# ---------------------------------------------------------------- masking
def evalp(q, env, rng):
    t = 0
    for k, v in q.t.items():
        for a, e in k:
            if a not in env: env[a] = rng.randrange(p)
            if not isinstance(e, int): raise Unsupported("symbolic exponent")
            v = v * pow(env[a], e, p) % p
        t += v
    return t % p
def deriv(q, a):
    d = {}
    for k, v in q.t.items():
        for i, (b, e) in enumerate(k):
            if b == a:
                k2 = k[:i] + (((b, e - 1),) if e > 1 else ()) + k[i + 1:]
                d[k2] = (d.get(k2, 0) + v * e) % q.m
    return Poly({k: v for k, v in d.items() if v}, q.m)
def rank(M):
    M = [list(r) for r in M]; r = 0
    for c in range(len(M[0]) if M else 0):
        piv = next((i for i in range(r, len(M)) if M[i][c] % p), None)
        if piv is None: continue
        M[r], M[piv] = M[piv], M[r]; iv = pow(M[r][c], -1, p); M[r] = [x * iv % p for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]: M[i] = [(x - M[i][c] * y) % p for x, y in zip(M[i], M[r])]
        r += 1
    return r
def masked(ex, st, resp, tape, what):
    """the responses are jointly uniform over the tape: their Jacobian in the tape values has full rank"""
    import random
    rng = random.Random(7); env = {}
    ats = sorted({a for _, c in tape for k in c.t for a, _ in k})
    J = [[evalp(deriv(q, a), env, rng) for a in ats] for q in resp]
    r = rank(J) if ats else 0
    ex.record("ensures", what + ": every response is masked by its own fresh randomness", r == len(resp), "normal form (rank %d of %d)" % (r, len(resp)))
