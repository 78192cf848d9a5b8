"""commitments.rs, group.rs, transcript.rs, random.rs and the sigma protocols of nizk/mod.rs"""
from .proto import *
from . import proto
MG = "commitments::MultiCommitGens"; N = "nizk::"
class Z:
    """shared builders"""
    def __init__(s, prog, fm): s.L = Lib(prog, fm); s.fm = fm
    def gens(s, n, name="g"):
        gs_ = [gatom("%s%d" % (name, i)) for i in range(n)]; h = gatom(name + "h")
        return s.L.mk(MG, n=C(n), G=VecV(gs_), h=h), [x.p for x in gs_], h.p
    def tape(s): return s.L.mk("random::RandomTape", tape=Obj("tr", tid((("new", b"tape"), ("fresh", 0)))))
    def tape_log(s, ex, st, r): return log_of(ex, st, s.L.get("random::RandomTape", deref(ex, st, r), "tape"))
def lin(xs, gs_):
    t = F0
    for x, y in zip(xs, gs_): t = t + x * y
    return t
def rok(r):
    r = merge_enum(r) if isinstance(r, Phi) else r
    return r
def accepts(ex, st, r, eqs, oks, what):
    """Result r is Ok exactly when every polynomial of eqs vanishes and every boolean of oks is 1"""
    r = rok(r); q = ONE
    for b in oks: q = q * b
    for e in eqs: q = q * feq0(e)
    ensure_bool(ex, st, ONE - r.disc, q, what)
def decodes(ex, st, r, pts, what):
    """Result r is an error unless every encoded point of pts decodes; returns the state in which they all do"""
    r = rok(r); q = ONE
    for b in pts: q = q * (b.d[1] if isinstance(b, Obj) else b)
    ensure_bool(ex, st, (ONE - r.disc) * (ONE - q), ZERO, what + ": refused unless every point decodes")
    s2 = st.fork()
    for b in pts: s2.assume(b.d[1] if isinstance(b, Obj) else b)
    return s2
def geq(ex, st, v, want, what):
    r, how, info = ex.solver.prove_fzero(gval(ex, st, v) - want, st.pc); ex.record("ensures", what, r, how, info)
def ceq(ex, st, v, want, what):
    x, v_ = cpt(ex, st, v)
    r, how, info = ex.solver.prove_fzero(x - want, st.pc); ex.record("ensures", what, r, how, info)
    ensure_bool(ex, st, v_, ONE, what + ": decodes")

def units(prog, fm):
    z = Z(prog, fm); L = z.L; U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "sigma")
        def mk2(ex, st): proto.reset(); return mk(ex, st)
        U.append(Unit(name, fn, mk2, post, **kw))
    def g(ex, *a): ex.goal = a
    # ---- group.rs
    AP = "AffinePoint"; S_ = "scalar::scalar::Scalar"
    for ls, rs in (("&" + AP, "&" + S_), (AP, "&" + S_), ("&" + AP, S_), (AP, S_), ("&" + S_, "&" + AP), (S_, "&" + AP), ("&" + S_, AP), (S_, AP)):
        nm = "group::<impl std::ops::Mul<%s> for %s>::mul" % (rs, ls)
        def mk(ex, st, ls=ls, rs=rs):
            x = gatom("P"); s_ = L.S("s"); g(ex, x.p * s_.p)
            v = lambda t: (x if AP in t else s_) if not t.startswith("&") else ref(ex, st, x if AP in t else s_)
            return [v(ls), v(rs)]
        add("%s * %s" % (ls, rs), nm, mk, lambda ex, st, r, a: geq(ex, st, r, ex.goal[0], "scalar multiple"))
    for rs in ("&" + S_, S_):
        def mk(ex, st, rs=rs):
            x = gatom("P"); s_ = L.S("s"); g(ex, x.p * s_.p); return [ref(ex, st, x), ref(ex, st, s_) if rs[0] == "&" else s_]
        add("AffinePoint *= %s" % rs, "group::<impl std::ops::MulAssign<%s> for %s>::mul_assign" % (rs, AP), mk, lambda ex, st, r, a: geq(ex, st, a[0], ex.goal[0], "scalar multiple"))
    for n, m in ((0, 0), (1, 1), (2, 2), (3, 3), (2, 4), (5, 5)):
        def mk(ex, st, n=n, m=m):
            ss = L.Ss("s", n); gs_ = [gatom("P%d" % i) for i in range(m)]; g(ex, lin(Q(ss), Q(gs_))); return [VecV(ss), VecV(gs_)]
        nm = "<AffinePoint as group::VartimeMultiscalarMul>::vartime_multiscalar_mul"
        add("vartime_multiscalar_mul %d/%d" % (n, m), nm, mk, lambda ex, st, r, a: geq(ex, st, r, ex.goal[0], "sum of the scalar multiples"), helper=nm, bounded="vector lengths enumerated")
    EP = [strip_crate(f["name"]) for f in prog.fns.values() if strip_crate(f["name"]).startswith("<sec1::point::EncodedPoint<")]
    for suf, nm in (("::unpack", "unpack"), ("::decompress", "decompress")):
        fn = next((n for n in EP if n.endswith(suf)), "EncodedPoint" + suf)
        def mk(ex, st): c = pt("P"); g(ex, *c.d); return [ref(ex, st, c)]
        def post(ex, st, r, a, nm=nm):
            x, v = ex.goal; r = rok(r); okk = ONE - r.disc if nm == "unpack" else r.disc
            ensure_bool(ex, st, okk, v, "succeeds exactly on encodings of a point")
            s2 = st.fork(); s2.assume(v); geq(ex, s2, r.pay[0 if nm == "unpack" else 1][0], x, "the encoded point")
        add("CompressedGroup::" + nm, fn, mk, post)
    # ---- scalar conversion into the group's scalar type
    # ---- transcript.rs over merlin
    PT = "<merlin::Transcript as transcript::ProofTranscript>::"
    def tr(): return new_transcript(b"t")
    def lbl(ex, st, b): return ref(ex, st, Agg([C(x) for x in b]))
    def mk_as(ex, st):
        s_ = L.S("s"); g(ex, s_); return [ref(ex, st, tr()), lbl(ex, st, b"lab"), ref(ex, st, s_)]
    def post_as(ex, st, r, a):
        lg = log_of(ex, st, a[0]); want = ("B",) + tuple(x.key() for x in fm.bytes_of(ex.goal[0]))
        ex.record("ensures", "exactly the canonical 32 bytes are appended under the label", lg == (("new", b"t"), ("m", b"lab", want)), "normal form")
    add("append_scalar", PT + "append_scalar", mk_as, post_as, helper=PT + "append_scalar")
    def mk_cs(ex, st): return [ref(ex, st, tr()), lbl(ex, st, b"lab")]
    def post_cs(ex, st, r, a):
        lg = log_of(ex, st, a[0])
        ex.record("ensures", "one challenge of 64 bytes is drawn under the label", lg == (("new", b"t"), ("chb", b"lab", 64)), "normal form")
        bs = [Poly.atom(new_atom("cb", "var", 0, 255, key=("cb", tid((("new", b"t"),)), i))) for i in range(64)]
        feq(ex, st, fm, r, le_int(bs).tofield(p), "the bytes, little-endian, modulo the field prime")
    add("challenge_scalar", PT + "challenge_scalar", mk_cs, post_cs, helper=PT + "challenge_scalar")
    def mk_ap(ex, st): c = pt("P"); g(ex, c); return [ref(ex, st, tr()), lbl(ex, st, b"lab"), ref(ex, st, c)]
    def post_ap(ex, st, r, a):
        x, v = ex.goal[0].d
        ex.record("ensures", "exactly the point's encoding is appended under the label", log_of(ex, st, a[0]) == (("new", b"t"), ("m", b"lab", ("p", x.key(), v.key()))), "normal form")
    add("append_point", PT + "append_point", mk_ap, post_ap)
    def mk_pn(ex, st): return [ref(ex, st, tr()), lbl(ex, st, b"nm")]
    add("append_protocol_name", PT + "append_protocol_name", mk_pn, lambda ex, st, r, a: ex.record("ensures", "the protocol name is appended", [e[2] for e in log_of(ex, st, a[0])[1:]] == [("b", b"nm")], "normal form"))
    for n in range(4):
        def mk_cv(ex, st, n=n): return [ref(ex, st, tr()), lbl(ex, st, b"l"), C(n)]
        def post_cv(ex, st, r, a, n=n):
            cs = [c for _, c in challenges(fm, log_of(ex, st, a[0]))]
            list_eq(ex, st, fm, r, cs, "successive challenges"); ex.record("ensures", "as many challenges as asked for", len(cs) == n and len(set(c.key() for c in cs)) == n, "normal form")
        add("challenge_vector %d" % n, PT + "challenge_vector", mk_cv, post_cv, bounded="length enumerated")
        def mk_av(ex, st, n=n): s_ = L.Ss("s", n); g(ex, Q(s_)); return [sl(ex, st, s_), lbl(ex, st, b"l"), ref(ex, st, tr())]
        def post_av(ex, st, r, a, n=n):
            es = [e for e in log_of(ex, st, a[2]) if e[0] == "m"]
            ex.record("ensures", "every entry, in order, between delimiters", [e[2] for e in es if e[2][0] == "s"] == [("s", x.key()) for x in ex.goal[0]] and es[0][2][0] == "b" and es[-1][2][0] == "b" and es[0][2] != es[-1][2] and len(es) == n + 2, "normal form")
        add("[Scalar]::append_to_transcript %d" % n, "<[scalar::scalar::Scalar] as transcript::AppendToTranscript>::append_to_transcript", mk_av, post_av, bounded="length enumerated")
    def mk_as(ex, st): x = L.S("s"); g(ex, x.p); return [ref(ex, st, x), lbl(ex, st, b"l"), ref(ex, st, tr())]
    add("Scalar::append_to_transcript", "<scalar::scalar::Scalar as transcript::AppendToTranscript>::append_to_transcript", mk_as, lambda ex, st, r, a: ex.record("ensures", "the scalar and nothing else is appended", [e[2] for e in log_of(ex, st, a[2])[1:]] == [("s", ex.goal[0].key())], "normal form"))
    def mk_ag(ex, st): c = pt("P"); g(ex, c); return [ref(ex, st, c), lbl(ex, st, b"l"), ref(ex, st, tr())]
    def post_ag(ex, st, r, a): x, v = ex.goal[0].d; ex.record("ensures", "the point's encoding and nothing else is appended", [e[2] for e in log_of(ex, st, a[2])[1:]] == [("p", x.key(), v.key())], "normal form")
    add("CompressedGroup::append_to_transcript", next((n for n in (strip_crate(f["name"]) for f in prog.fns.values()) if "sec1" in n and n.endswith("::append_to_transcript")), "CompressedGroup::append_to_transcript"), mk_ag, post_ag)
    # ---- random.rs
    def mk_rt(ex, st): return [lbl(ex, st, b"tape")]
    def post_rt(ex, st, r, a):
        lg = log_of(ex, st, L.get("random::RandomTape", r, "tape"))
        ex.record("ensures", "the tape is seeded from the system generator", any(e[0] == "m" and e[2][0] == "s" and e[2][1] == fm.fresh("osrng1").p.key() for e in lg), "normal form")
    add("RandomTape::new", "random::RandomTape::new", mk_rt, post_rt)
    def mk_rs(ex, st): return [ref(ex, st, z.tape()), lbl(ex, st, b"x")]
    def post_rs(ex, st, r, a):
        cs = challenges(fm, z.tape_log(ex, st, a[0])); feq(ex, st, fm, r, cs[-1][1] if cs else F0, "the tape's next value")
    add("RandomTape::random_scalar", "random::RandomTape::random_scalar", mk_rs, post_rs)
    # ---- commitments.rs
    def mk_c1(ex, st):
        gn, gs_, h = z.gens(1); x, r = L.S("x"), L.S("r"); g(ex, x.p * gs_[0] + r.p * h); return [ref(ex, st, x), ref(ex, st, r), ref(ex, st, gn)]
    add("Scalar::commit", "<scalar::scalar::Scalar as commitments::Commitments>::commit", mk_c1, lambda ex, st, r, a: geq(ex, st, r, ex.goal[0], "x G + r h"))
    for n in range(5):
        for ty in ("std::vec::Vec<scalar::scalar::Scalar>", "[scalar::scalar::Scalar]"):
            def mk_cn(ex, st, n=n, ty=ty):
                gn, gs_, h = z.gens(n); x, r = L.Ss("x", n), L.S("r"); g(ex, lin(Q(x), gs_) + r.p * h)
                return [ref(ex, st, VecV(x)) if "Vec" in ty else sl(ex, st, x), ref(ex, st, r), ref(ex, st, gn)]
            add("%s commit %d" % ("Vec" if "Vec" in ty else "slice", n), "<%s as commitments::Commitments>::commit" % ty, mk_cn, lambda ex, st, r, a: geq(ex, st, r, ex.goal[0], "sum x_i G_i + r h"), bounded="vector length enumerated")
        def mk_cl(ex, st, n=n): gn, gs_, h = z.gens(n); g(ex, gs_, h, L.S("s").p); return [ref(ex, st, gn)]
        def gens_are(ex, st, v, gs_, h, what):
            ensure_int(ex, st, L.get(MG, v, "n"), C(len(gs_)), what + ": size")
            xs = seqof(ex, st, L.get(MG, v, "G")); ex.record("ensures", what + ": number of generators", len(xs) == len(gs_), "normal form")
            for x, w in zip(xs, gs_): geq(ex, st, x, w, what + ": generator")
            geq(ex, st, L.get(MG, v, "h"), h, what + ": blinding generator")
        add("MultiCommitGens::clone %d" % n, MG + "::clone", mk_cl, lambda ex, st, r, a: gens_are(ex, st, r, *ex.goal[:2], "clone"), bounded="size enumerated")
        def mk_sc(ex, st, n=n):
            gn, gs_, h = z.gens(n); s_ = L.S("s"); g(ex, [x * s_.p for x in gs_], h); return [ref(ex, st, gn), ref(ex, st, s_)]
        add("MultiCommitGens::scale %d" % n, MG + "::scale", mk_sc, lambda ex, st, r, a: gens_are(ex, st, r, *ex.goal, "scale"), bounded="size enumerated")
        for m in {0, n // 2, n}:
            def mk_sp(ex, st, n=n, m=m): gn, gs_, h = z.gens(n); g(ex, gs_[:m], gs_[m:], h); return [ref(ex, st, gn), C(m)]
            def post_sp(ex, st, r, a):
                x, y, h = ex.goal; gens_are(ex, st, r.f[0], x, h, "left part"); gens_are(ex, st, r.f[1], y, h, "right part")
            add("MultiCommitGens::split_at %d/%d" % (m, n), MG + "::split_at", mk_sp, post_sp, bounded="size enumerated")
        def mk_new(ex, st, n=n): return [C(n), lbl(ex, st, b"label")]
        def post_new(ex, st, r, a, n=n):
            ensure_int(ex, st, L.get(MG, r, "n"), C(n), "size"); xs = [gval(ex, st, x) for x in seqof(ex, st, L.get(MG, r, "G"))] + [gval(ex, st, L.get(MG, r, "h"))]
            keys = []
            for x in xs:
                (k, v), = x.t.items(); keys.append(GHASH.get(k[0][0]) if v == 1 and len(k) == 1 else None)
            ex.record("ensures", "n generators and a blinding generator", len(xs) == n + 1, "normal form")
            inp = (b"label", ("p", gatom("gen").p.key(), ONE.key()))
            ex.record("ensures", "each is the image of its own 128 bytes of the stream over the label and the base point", all(k is not None for k in keys) and len(set(keys)) == n + 1 and all(xof_src(k) == inp for k in keys), "normal form")
        add("MultiCommitGens::new %d" % n, MG + "::new", mk_new, post_new, bounded="size enumerated")
    # ---- sigma protocols: verifiers
    def vtr(ex, st): return ref(ex, st, tr())
    def R(ex, st, v): return ref(ex, st, v)
    def ch1(ex, st, t, n=1):
        lg = log_of(ex, st, t); cs = challenges(fm, lg)
        ex.record("ensures", "%d challenge(s) drawn" % n, len(cs) == n, "normal form (%d)" % len(cs))
        return lg, cs
    Kp = N + "KnowledgeProof"
    def mk_kv(ex, st):
        gn, gs_, h = z.gens(1); al, c = pt("alpha"), pt("C"); z1, z2 = L.S("z1"), L.S("z2"); g(ex, gs_[0], h, al, c, z1.p, z2.p)
        return [R(ex, st, L.mk(Kp, alpha=al, z1=z1, z2=z2)), R(ex, st, gn), vtr(ex, st), R(ex, st, c)]
    def post_kv(ex, st, r, a):
        G0, h, al, c, z1, z2 = ex.goal; lg, cs = ch1(ex, st, a[2]); e = cs[0][1]; bound(ex, st, lg, cs[0][0], [c, al], "knowledge proof")
        accepts(ex, st, r, [z1 * G0 + z2 * h - e * c.d[0] - al.d[0]], [c.d[1], al.d[1]], "accepts exactly when z1 G + z2 h = c C + alpha")
    add("KnowledgeProof::verify", Kp + "::verify", mk_kv, post_kv)
    Ep = N + "EqualityProof"
    def mk_ev(ex, st):
        gn, gs_, h = z.gens(1); al, c1, c2 = pt("alpha"), pt("C1"), pt("C2"); z_ = L.S("z"); g(ex, h, al, c1, c2, z_.p)
        return [R(ex, st, L.mk(Ep, alpha=al, z=z_)), R(ex, st, gn), vtr(ex, st), R(ex, st, c1), R(ex, st, c2)]
    def post_ev(ex, st, r, a):
        h, al, c1, c2, z_ = ex.goal; lg, cs = ch1(ex, st, a[2]); e = cs[0][1]; bound(ex, st, lg, cs[0][0], [c1, c2, al], "equality proof")
        accepts(ex, st, r, [z_ * h - e * (c1.d[0] - c2.d[0]) - al.d[0]], [c1.d[1], c2.d[1], al.d[1]], "accepts exactly when z h = c (C1 - C2) + alpha")
    add("EqualityProof::verify", Ep + "::verify", mk_ev, post_ev)
    Pp = N + "ProductProof"
    def mk_pv(ex, st):
        gn, gs_, h = z.gens(1); al, be, de, X_, Y_, Z_ = [pt(n) for n in ("alpha", "beta", "delta", "X", "Y", "Z")]; zs = L.Ss("z", 5); g(ex, gs_[0], h, [al, be, de, X_, Y_, Z_], Q(zs))
        return [R(ex, st, L.mk(Pp, alpha=al, beta=be, delta=de, z=Agg(zs))), R(ex, st, gn), vtr(ex, st)] + [R(ex, st, x) for x in (X_, Y_, Z_)]
    def post_pv(ex, st, r, a):
        G0, h, ps, (z1, z2, z3, z4, z5) = ex.goal; lg, cs = ch1(ex, st, a[2]); e = cs[0][1]; bound(ex, st, lg, cs[0][0], ps, "product proof")
        al, be, de, X_, Y_, Z_ = [x.d[0] for x in ps]
        accepts(ex, st, r, [al + e * X_ - z1 * G0 - z2 * h, be + e * Y_ - z3 * G0 - z4 * h, de + e * Z_ - z3 * X_ - z5 * h], [x.d[1] for x in ps], "accepts exactly when the three opening equations hold")
    add("ProductProof::verify", Pp + "::verify", mk_pv, post_pv)
    Dp = N + "DotProductProof"
    for n in (1, 2, 3):
        for m in {n, n - 1, n + 1}:
            def mk_dv(ex, st, n=n, m=m):
                g1, s1, h1 = z.gens(1, "k"); gn, sn, hn = z.gens(n); de, be, cx, cy = [pt(x) for x in ("delta", "beta", "Cx", "Cy")]; zs = L.Ss("z", m); zd, zb = L.S("zd"), L.S("zb"); av = L.Ss("a", n)
                g(ex, s1[0], h1, sn, hn, [cx, cy, de, be], Q(zs), zd.p, zb.p, Q(av))
                return [R(ex, st, L.mk(Dp, delta=de, beta=be, z=VecV(zs), z_delta=zd, z_beta=zb)), R(ex, st, g1), R(ex, st, gn), vtr(ex, st), sl(ex, st, av), R(ex, st, cx), R(ex, st, cy)]
            def post_dv(ex, st, r, a, n=n, m=m):
                k0, kh, sn, hn, ps, zs, zd, zb, av = ex.goal
                if m != n: ensure_bool(ex, st, rok(r).disc, ONE, "a response of the wrong length is refused"); return
                lg, cs = ch1(ex, st, a[3]); e = cs[0][1]; bound(ex, st, lg, cs[0][0], ps + av, "dot product proof"); cx, cy, de, be = [x.d[0] for x in ps]
                accepts(ex, st, r, [e * cx + de - lin(zs, sn) - zd * hn, e * cy + be - lin(zs, av) * k0 - zb * kh], [x.d[1] for x in ps], "accepts exactly when both opening equations hold")
            add("DotProductProof::verify %d/%d" % (m, n), Dp + "::verify", mk_dv, post_dv, bounded="vector length enumerated")
    # ---- provers: an honest proof is accepted, commits to the given values, and masks every response
    def same_end(ex, st, t, u):
        ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, t) == log_of(ex, st, u), "normal form")
    def honest(ex, st, r, a, nt):
        ensure_bool(ex, st, rok(r).disc, ZERO, "an honest proof is accepted"); same_end(ex, st, a[nt], a[nt + 1])
        return challenges(fm, z.tape_log(ex, st, a[nt + 2]))
    def three(ex, st): return [ref(ex, st, tr()), ref(ex, st, tr()), ref(ex, st, z.tape())]
    def mk_kp(ex, st):
        gn, gs_, h = z.gens(1); x, r = L.S("x"), L.S("r"); g(ex, gs_[0], h, x.p, r.p); return [R(ex, st, gn)] + three(ex, st) + [R(ex, st, x), R(ex, st, r)]
    def post_kp(ex, st, r, a):
        G0, h, x, rr = ex.goal; pr, c, res = r.f; tp = honest(ex, st, res, a, 1)
        ceq(ex, st, c, x * G0 + rr * h, "commitment"); masked(ex, st, [sval(ex, st, fm, L.get(Kp, pr, n)) for n in ("z1", "z2")], tp, "knowledge proof")
    add("KnowledgeProof::prove", "rvc_roots::knowledge_pv", mk_kp, post_kp)
    def mk_ep(ex, st, same_=True):
        gn, gs_, h = z.gens(1); v, s1, s2 = L.S("v"), L.S("s1"), L.S("s2"); v2 = v if same_ else L.S("v2"); g(ex, gs_[0], h, v.p, s1.p, v2.p, s2.p); return [R(ex, st, gn)] + three(ex, st) + [R(ex, st, x) for x in (v, s1, v2, s2)]
    def post_ep(ex, st, r, a):
        G0, h, v, s1, v2, s2 = ex.goal; pr, c1, c2, res = r.f; tp = honest(ex, st, res, a, 1)
        ceq(ex, st, c1, v * G0 + s1 * h, "first commitment"); ceq(ex, st, c2, v2 * G0 + s2 * h, "second commitment"); masked(ex, st, [sval(ex, st, fm, L.get(Ep, pr, "z"))], tp, "equality proof")
    add("EqualityProof::prove", "rvc_roots::equality_pv", mk_ep, post_ep)
    def mk_pp(ex, st):
        gn, gs_, h = z.gens(1); x, rx, y, ry, rz = [L.S(n) for n in ("x", "rx", "y", "ry", "rz")]; zz = FE(x.p * y.p, fm.spec)
        vs = (x, rx, y, ry, zz, rz); g(ex, gs_[0], h, [v.p for v in vs]); return [R(ex, st, gn)] + three(ex, st) + [R(ex, st, v) for v in vs]
    def post_pp(ex, st, r, a):
        G0, h, v = ex.goal; pr, X_, Y_, Z_, res = r.f; tp = honest(ex, st, res, a, 1)
        for i, c in enumerate((X_, Y_, Z_)): ceq(ex, st, c, v[2 * i] * G0 + v[2 * i + 1] * h, "commitment %d" % i)
        masked(ex, st, [sval(ex, st, fm, x) for x in seqof(ex, st, L.get(Pp, pr, "z"))], tp, "product proof")
    add("ProductProof::prove", "rvc_roots::product_pv", mk_pp, post_pp)
    for n in (1, 2, 3, 4):
        def mk_dp(ex, st, n=n):
            g1, s1, h1 = z.gens(1, "k"); gn, sn, hn = z.gens(n); x, av = L.Ss("x", n), L.Ss("a", n); rx, ry = L.S("rx"), L.S("ry"); y = FE(lin(Q(x), Q(av)), fm.spec)
            g(ex, s1[0], h1, sn, hn, Q(x), rx.p, y.p, ry.p)
            return [R(ex, st, g1), R(ex, st, gn)] + three(ex, st) + [sl(ex, st, x), R(ex, st, rx), sl(ex, st, av), R(ex, st, y), R(ex, st, ry)]
        def post_dp(ex, st, r, a):
            k0, kh, sn, hn, x, rx, y, ry = ex.goal; pr, cx, cy, res = r.f; tp = honest(ex, st, res, a, 2)
            ceq(ex, st, cx, lin(x, sn) + rx * hn, "commitment to the vector"); ceq(ex, st, cy, y * k0 + ry * kh, "commitment to the product")
            masked(ex, st, [sval(ex, st, fm, v) for v in seqof(ex, st, L.get(Dp, pr, "z")) + [L.get(Dp, pr, "z_delta"), L.get(Dp, pr, "z_beta")]], tp, "dot product proof")
        add("DotProductProof::prove %d" % n, "rvc_roots::dotproduct_pv", mk_dp, post_dp, bounded="vector length enumerated")
    # conversion to the group's scalar type: the same residue, canonical
    from . import scalar as SC
    DS = "<scalar::scalar::Scalar as scalar::ScalarBytesFromScalar>::decompress_"
    def mkds(ex, st): a = fm.fresh("a"); ex.goal = (a.p,); return [ref(ex, st, a)]
    add("decompress_scalar", DS + "scalar", mkds, lambda ex, st, r, a: SC.ensure(ex, st, p, r, ex.goal[0], "decompress_scalar: the same residue"))
    for n in (0, 1, 3):
        def mkdv(ex, st, n=n): xs = [fm.fresh("a%d" % i) for i in range(n)]; ex.goal = xs; return [ref(ex, st, Agg(xs))]
        def pdv(ex, st, r, a):
            v = ex.seq(st, r) if not isinstance(r, VecV) else r.f
            ex.record("ensures", "decompress_vector: length", len(v) == len(ex.goal), "normal form")
            for x, y in zip(v, ex.goal): ensure_felt(ex, st, fm, x, y.p, "decompress_vector: element")
        add("decompress_vector of %d" % n, DS + "vector", mkdv, pdv, bounded="0, 1 and 3 elements")
    return U
def xof_src(k):
    """inputs of the extendable-output stream the 128 bytes of message key k come from, when they are one full block"""
    if k[0] != "B" or len(k) != 129: return None
    src = None
    for i, x in enumerate(k[1:]):
        # key of a single-atom polynomial
        at = XOFB.get(x)
        if at is None: return None
        s_, pos = at
        if src is None: src = (s_, pos)
        if s_ != src[0] or pos != src[1] + i: return None
    return src[0] if src[1] % 128 == 0 else None
