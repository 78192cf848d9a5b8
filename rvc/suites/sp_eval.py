"""nizk/bullet.rs, DotProductProofLog, and the polynomial commitment and evaluation proof of dense_mlpoly.rs"""
from .sp_sigma import *
from .sp_sigma import MG, N
from . import proto
D = "dense_mlpoly::"; BR = "nizk::bullet::BulletReductionProof"; DL = N + "DotProductProofLog"; DG = N + "DotProductProofGens"
PE = D + "PolyEvalProof"; PC = D + "PolyCommitment"; PG = D + "PolyCommitmentGens"; PB = D + "PolyCommitmentBlinds"
def lens(n): return n // 2, n - n // 2
def finv(x): return P.finv(x)
def svec(us):
    """weights of the folded generators: product of u_j or 1/u_j, first challenge for the top bit"""
    n = len(us); out = []
    for i in range(1 << n):
        w = F1
        for j, u in enumerate(us): w = w * (u if (i >> (n - 1 - j)) & 1 else finv(u))
        out.append(w)
    return out
class ZE(Z):
    def dgens(s, n):
        gn, gs_, h = s.gens(n); k = gatom("k0"); g1 = s.L.mk(MG, n=C(1), G=VecV([k]), h=FE(h, GS))
        return s.L.mk(DG, n=C(n), gens_n=gn, gens_1=g1), gs_, h, k.p
    def pgens(s, n): d, gs_, h, k = s.dgens(n); return s.L.mk(PG, gens=d), gs_, h, k
    def bl(s, xs): return s.L.mk(PB, blinds=VecV(xs))
    def comm(s, pts): return s.L.mk(PC, C=VecV(pts))

def units(prog, fm):
    z = ZE(prog, fm); L = z.L; U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "eval")
        def mk2(ex, st): proto.reset(); proto.NZ[0] = True; return mk(ex, st)
        U.append(Unit(name, fn, mk2, post, **kw))
    def g(ex, *a): ex.goal = a
    def R(ex, st, v): return ref(ex, st, v)
    def tr(): return new_transcript(b"t")
    def tro(ex, st): return R(ex, st, tr())
    def rounds(ex, st, t, m, what):
        """positions and values of the m round challenges; the last m when others precede"""
        lg = log_of(ex, st, t); cs = challenges(fm, lg); return lg, cs
    def lr_bound(ex, st, lg, cs, Ls, Rs, what):
        for j, (pos, c) in enumerate(cs): bound(ex, st, lg, pos, list(Ls[:j + 1]) + list(Rs[:j + 1]), what + " round %d" % j)
    def oeq(ex, st, o, want, what):
        """encoded points of a proof, valid and with the given logarithms"""
        xs = seqof(ex, st, o); ex.record("ensures", what + ": number of messages", len(xs) == len(want), "normal form (%d)" % len(xs))
        for i, (x, w) in enumerate(zip(xs, want)): ceq(ex, st, x, w, "%s %d" % (what, i))
    # ---- generators
    for n in (1, 2, 4):
        def mk_dg(ex, st, n=n): return [C(n), ref(ex, st, Agg([C(x) for x in b"lab"]))]
        def post_dg(ex, st, r, a, n=n):
            ensure_int(ex, st, L.get(DG, r, "n"), C(n), "size"); gn, g1 = L.get(DG, r, "gens_n"), L.get(DG, r, "gens_1")
            ensure_int(ex, st, L.get(MG, gn, "n"), C(n), "vector generators: size"); ensure_int(ex, st, L.get(MG, g1, "n"), C(1), "value generators: size")
            xs = [gval(ex, st, x) for x in seqof(ex, st, L.get(MG, gn, "G"))]; ks = [gval(ex, st, x) for x in seqof(ex, st, L.get(MG, g1, "G"))]; h = gval(ex, st, L.get(MG, gn, "h"))
            ex.record("ensures", "n vector generators and one value generator", len(xs) == n and len(ks) == 1, "normal form")
            geq(ex, st, L.get(MG, g1, "h"), h, "one blinding generator")
            ex.record("ensures", "all generators are distinct hash images", len({x.key() for x in xs + ks + [h]}) == n + 2 and all(list(x.t)[0][0][0] in GHASH for x in xs + ks + [h]), "normal form")
        add("DotProductProofGens::new %d" % n, DG + "::new", mk_dg, post_dg, bounded="size enumerated")
    for nv in range(5):
        def mk_pg(ex, st, nv=nv): return [C(nv), ref(ex, st, Agg([C(x) for x in b"lab"]))]
        def post_pg(ex, st, r, a, nv=nv):
            d = L.get(PG, r, "gens"); m = 1 << (nv - nv // 2)
            ensure_int(ex, st, L.get(DG, d, "n"), C(m), "generators for one row of the evaluation matrix")
        add("PolyCommitmentGens::new %d" % nv, PG + "::new", mk_pg, post_pg, bounded="number of variables enumerated")
    # ---- commitment to a polynomial
    for nv in range(5):
        l, rr = 1 << (nv // 2), 1 << (nv - nv // 2)
        for withtape in (True, False):
            def mk_cm(ex, st, nv=nv, l=l, rr=rr, wt=withtape):
                zs = L.Ss("z", 1 << nv); pg, gs_, h, k = z.pgens(rr); tp = R(ex, st, z.tape()); g(ex, Q(zs), gs_, h, tp)
                return [R(ex, st, L.dense(zs)), R(ex, st, pg), Enum(ONE, {0: (), 1: (tp,)}) if wt else Enum(ZERO, {0: (), 1: (tp,)})]
            def post_cm(ex, st, r, a, nv=nv, l=l, rr=rr, wt=withtape):
                zs, gs_, h, tp = ex.goal; c, b = r.f; bs = [sval(ex, st, fm, x) for x in seqof(ex, st, L.get(PB, b, "blinds"))]
                ex.record("ensures", "one blind per row", len(bs) == l, "normal form")
                if wt:
                    tv = challenges(fm, z.tape_log(ex, st, tp)); masked(ex, st, bs, tv, "rows")
                else:
                    for x in bs: feq(ex, st, fm, FE(x, fm.spec), F0, "zero blind")
                oeq(ex, st, L.get(PC, c, "C"), [lin(zs[i * rr:(i + 1) * rr], gs_) + bs[i] * h for i in range(l)] if len(bs) == l else [], "row commitment")
            add("DensePolynomial::commit %d%s" % (nv, "" if withtape else " unblinded"), D + "DensePolynomial::commit", mk_cm, post_cm, bounded="number of variables enumerated")
    for n in range(4):
        def mk_ca(ex, st, n=n): ps = [pt("C%d" % i) for i in range(n)]; g(ex, ps); return [R(ex, st, z.comm(ps)), tro(ex, st)]
        def post_ca(ex, st, r, a):
            lg = log_of(ex, st, a[1]); es = [e for e in lg if e[0] == "m"]; want = [("p", x.d[0].key(), x.d[1].key()) for x in ex.goal[0]]
            ex.record("ensures", "every share, in order, between delimiters", [e[2] for e in es if e[2][0] == "p"] == want and es[0][2][0] == "b" and es[-1][2][0] == "b" and es[0][2] != es[-1][2] and len(es) == len(want) + 2, "normal form")
        add("PolyCommitment::append_to_transcript %d" % n, "rvc_roots::polycommit_append", mk_ca, post_ca, bounded="length enumerated")
    # ---- the reduction
    for lg_n in (0, 1, 2, 3):
        n = 1 << lg_n
        def mk_bp(ex, st, n=n, k=lg_n):
            q, h = gatom("Q"), gatom("H"); gs_ = [gatom("g%d" % i) for i in range(n)]; av, bv = L.Ss("a", n), L.Ss("b", n); bl = L.S("bl"); bs = [(L.S("bL%d" % i), L.S("bR%d" % i)) for i in range(2 * k)]
            g(ex, q.p, h.p, Q(gs_), Q(av), Q(bv), bl.p, [(x.p, y.p) for x, y in bs])
            return [tro(ex, st), R(ex, st, q), sl(ex, st, gs_), R(ex, st, h), sl(ex, st, av), sl(ex, st, bv), R(ex, st, bl), sl(ex, st, [Agg(x) for x in bs])]
        def post_bp(ex, st, r, a, n=n, k=lg_n):
            q, h, gs_, av, bv, bl, bs = ex.goal; pr, Gam, ah, bh, gh, blf = r.f; lg = log_of(ex, st, a[0]); cs = challenges(fm, lg)
            ex.record("ensures", "one challenge per halving", len(cs) == k, "normal form")
            us = [c for _, c in cs]; A, B_, GG = list(av), list(bv), list(gs_); Ls, Rs = [], []; fb = bl
            for j, u in enumerate(us):
                m = len(A) // 2; ui = finv(u)
                Ls.append(lin(A[:m], GG[m:]) + lin(A[:m], B_[m:]) * q + bs[j][0] * h); Rs.append(lin(A[m:], GG[:m]) + lin(A[m:], B_[:m]) * q + bs[j][1] * h)
                A = [x * u + y * ui for x, y in zip(A[:m], A[m:])]; B_ = [x * ui + y * u for x, y in zip(B_[:m], B_[m:])]; GG = [x * ui + y * u for x, y in zip(GG[:m], GG[m:])]
                fb = fb + bs[j][0] * u * u + bs[j][1] * ui * ui
            oeq(ex, st, L.get(BR, pr, "L_vec"), Ls, "L"); oeq(ex, st, L.get(BR, pr, "R_vec"), Rs, "R")
            lr_bound(ex, st, lg, cs, seqof(ex, st, L.get(BR, pr, "L_vec")), seqof(ex, st, L.get(BR, pr, "R_vec")), "reduction")
            feq(ex, st, fm, ah, A[0], "folded first vector"); feq(ex, st, fm, bh, B_[0], "folded second vector"); geq(ex, st, gh, GG[0], "folded generator"); feq(ex, st, fm, blf, fb, "folded blind")
            geq(ex, st, Gam, A[0] * GG[0] + A[0] * B_[0] * q + fb * h, "folded commitment")
        add("BulletReductionProof::prove %d" % n, BR + "::prove", mk_bp, post_bp, bounded="vector length enumerated")
    for n, nl, nr in ((1, 0, 0), (2, 1, 1), (4, 2, 2), (8, 3, 3), (16, 4, 4), (32, 5, 5), (64, 6, 6), (2, 0, 0), (1, 1, 1), (2, 1, 0), (2, 1, 2), (2, 0, 1), (4, 1, 1), (4, 2, 1), (4, 3, 3), (2, 32, 32), (1, 0, 1), (3, 1, 1), (3, 2, 2)):
        def mk_bv(ex, st, n=n, nl=nl, nr=nr):
            Ls, Rs = [pt("L%d" % i) for i in range(nl)], [pt("R%d" % i) for i in range(nr)]; gs_ = [gatom("g%d" % i) for i in range(n)]; av = L.Ss("a", n); Gam = gatom("Gam")
            g(ex, Ls, Rs, Q(gs_), Q(av), Gam.p)
            return [R(ex, st, L.mk(BR, L_vec=VecV(Ls), R_vec=VecV(Rs))), C(n), sl(ex, st, av), tro(ex, st), R(ex, st, Gam), sl(ex, st, gs_)]
        def post_bv(ex, st, r, a, n=n, nl=nl, nr=nr):
            r = rok(r); Ls, Rs, gs_, av, Gam = ex.goal
            if n != 1 << nl or nl != nr: ensure_bool(ex, st, r.disc, ONE, "a proof with the wrong number of rounds is refused"); return
            lg = log_of(ex, st, a[3]); cs = challenges(fm, lg); ex.record("ensures", "one challenge per round", len(cs) == nl, "normal form"); lr_bound(ex, st, lg, cs, Ls, Rs, "reduction")
            okk = ONE
            for x in Ls + Rs: okk = okk * x.d[1]
            ensure_bool(ex, st, ONE - r.disc, okk, "succeeds exactly when every message decodes")
            if ONE.key() != okk.key(): st.assume(okk)
            us = [c for _, c in cs]; s_ = svec(us); gh, Gh, ah = r.pay[0][0].f if not isinstance(r.pay[0][0], Phi) else (None,) * 3
            geq(ex, st, gh, lin(s_, gs_), "folded generators"); feq(ex, st, fm, ah, lin(s_, av), "folded vector")
            t = Gam
            for u, x, y in zip(us, Ls, Rs): t = t + u * u * x.d[0] + finv(u) * finv(u) * y.d[0]
            geq(ex, st, Gh, t, "folded commitment")
        add("BulletReductionProof::verify %d/%d/%d" % (n, nl, nr), BR + "::verify", mk_bv, post_bv, bounded="vector length enumerated")
    # ---- the logarithmic dot product proof
    def logproof(name, k, extra=0):
        Ls, Rs = [pt(name + "L%d" % i) for i in range(k)], [pt(name + "R%d" % i) for i in range(k)]; de, be = pt(name + "delta"), pt(name + "beta"); z1, z2 = L.S(name + "z1"), L.S(name + "z2")
        return L.mk(DL, bullet_reduction_proof=L.mk(BR, L_vec=VecV(Ls), R_vec=VecV(Rs)), delta=de, beta=be, z1=z1, z2=z2), Ls, Rs, de, be, z1.p, z2.p
    def log_accepts(ex, st, r, t, prf, cx, cxok, cy, av, gs_, h, k0, what, pre=()):
        """cx, cy: logarithms of the two commitments; cxok: what must decode"""
        _, Ls, Rs, de, be, z1, z2 = prf
        st = decodes(ex, st, r, list(cxok) + Ls + Rs + [de, be], what); lg = log_of(ex, st, t)
        cs = challenges(fm, lg); k = len(Ls)
        ex.record("ensures", what + ": challenges are one base, one per round, one final", len(cs) == k + 2, "normal form (%d)" % len(cs))
        if len(cs) != k + 2: return
        lr_bound(ex, st, lg, cs[1:-1], Ls, Rs, what); bound(ex, st, lg, cs[-1][0], [de, be], what); bound(ex, st, lg, cs[0][0], list(pre), what)
        rr, us, c = cs[0][1], [x for _, x in cs[1:-1]], cs[-1][1]; s_ = svec(us)
        Gam = cx + rr * cy
        for u, x, y in zip(us, Ls, Rs): Gam = Gam + u * u * x.d[0] + finv(u) * finv(u) * y.d[0]
        ah = lin(s_, av); gh = lin(s_, gs_)
        accepts(ex, st, r, [(Gam * c + be.d[0]) * ah + de.d[0] - (gh + rr * k0 * ah) * z1 - h * z2], [], what + ": accepts exactly when the folded opening equation holds")
    for k in (0, 1, 2, 3):
        n = 1 << k
        def mk_lv(ex, st, n=n, k=k):
            dg, gs_, h, k0 = z.dgens(n); cx, cy = pt("Cx"), pt("Cy"); av = L.Ss("a", n); prf = logproof("", k); g(ex, prf, gs_, h, k0, cx, cy, Q(av))
            return [R(ex, st, prf[0]), C(n), R(ex, st, dg), tro(ex, st), sl(ex, st, av), R(ex, st, cx), R(ex, st, cy)]
        def post_lv(ex, st, r, a):
            prf, gs_, h, k0, cx, cy, av = ex.goal
            log_accepts(ex, st, r, a[3], prf, cx.d[0], (cx.d[1], cy.d[1]), cy.d[0], av, gs_, h, k0, "dot product proof", [cx, cy] + av)
        add("DotProductProofLog::verify %d" % n, DL + "::verify", mk_lv, post_lv, bounded="vector length enumerated")
        def mk_lp(ex, st, n=n):
            dg, gs_, h, k0 = z.dgens(n); x, av = L.Ss("x", n), L.Ss("a", n); bx, by = L.S("bx"), L.S("by"); y = FE(lin(Q(x), Q(av)), fm.spec); g(ex, gs_, h, k0, Q(x), bx.p, y.p, by.p)
            return [R(ex, st, dg), tro(ex, st), tro(ex, st), R(ex, st, z.tape()), sl(ex, st, x), R(ex, st, bx), sl(ex, st, av), R(ex, st, y), R(ex, st, by)]
        def post_lp(ex, st, r, a, k=k):
            gs_, h, k0, x, bx, y, by = ex.goal; pr, cx, cy, res = r.f
            ceq(ex, st, cx, lin(x, gs_) + bx * h, "commitment to the vector"); ceq(ex, st, cy, y * k0 + by * h, "commitment to the product")
            honest(ex, st, res, a, pr)
        def honest(ex, st, res, a, pr):
            ensure_bool(ex, st, rok(res).disc, ZERO, "an honest proof is accepted")
            ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, a[1]) == log_of(ex, st, a[2]), "normal form")
            tp = challenges(fm, z.tape_log(ex, st, a[3])); b_ = L.get(DL, pr, "bullet_reduction_proof")
            ms = [cpt(ex, st, v)[0] for v in seqof(ex, st, L.get(BR, b_, "L_vec")) + seqof(ex, st, L.get(BR, b_, "R_vec")) + [L.get(DL, pr, "delta"), L.get(DL, pr, "beta")]]
            masked(ex, st, ms, tp, "messages")
            masked(ex, st, [sval(ex, st, fm, L.get(DL, pr, nm)) for nm in ("z1", "z2")], tp, "responses")
        add("DotProductProofLog::prove %d" % n, "rvc_roots::dplog_pv", mk_lp, post_lp, bounded="vector length enumerated")
    # ---- evaluation proofs
    for nv in (0, 1, 2, 3, 4, 5):
        l, rr = 1 << (nv // 2), 1 << (nv - nv // 2); k = nv - nv // 2
        for nc in {l, l - 1, l + 1}:
            for plain in ((False, True) if nc == l else (False,)):
                def mk_ev(ex, st, nv=nv, k=k, rr=rr, nc=nc, plain=plain):
                    pg, gs_, h, k0 = z.pgens(rr); x = L.Ss("r", nv); cs = [pt("C%d" % i) for i in range(nc)]; cz = L.S("zr") if plain else pt("Cz"); prf = logproof("", k); g(ex, prf, gs_, h, k0, Q(x), cs, cz)
                    return [R(ex, st, L.mk(PE, proof=prf[0])), R(ex, st, pg), tro(ex, st), sl(ex, st, x), R(ex, st, cz), R(ex, st, z.comm(cs))]
                def post_ev(ex, st, r, a, l=l, nc=nc, plain=plain):
                    prf, gs_, h, k0, x, cs, cz = ex.goal
                    if nc != l: ensure_bool(ex, st, rok(r).disc, ONE, "a commitment of the wrong size is refused"); return
                    m = len(x) // 2; Lw, Rw = eq_table(x[:m], F1), eq_table(x[m:], F1)
                    cx = dot(Lw, [c.d[0] for c in cs], F0); cy = cz.p * k0 if plain else cz.d[0]
                    log_accepts(ex, st, r, a[2], prf, cx, cs + ([] if plain else [cz]), cy, Rw, gs_, h, k0, "evaluation proof", [enc_pt(cy, ONE if plain else cz.d[1])] + Rw)
                add("PolyEvalProof::verify%s %d (%d shares)" % ("_plain" if plain else "", nv, nc), PE + "::verify" + ("_plain" if plain else ""), mk_ev, post_ev, bounded="number of variables enumerated")
        for blinded in (True, False):
            def mk_ep(ex, st, nv=nv, l=l, rr=rr, blinded=blinded):
                pg, gs_, h, k0 = z.pgens(rr); x = L.Ss("r", nv); zs = L.Ss("z", 1 << nv); bs = L.Ss("b", l); bz = L.S("bz"); w = eq_table(Q(x), F1); y = FE(dot(Q(zs), w, F0), fm.spec)
                bb = Q(bs) if blinded else [F0] * l
                cm = [enc_pt(lin(Q(zs)[i * rr:(i + 1) * rr], gs_) + bb[i] * h) for i in range(l)]; g(ex, y.p * k0 + (bz.p if blinded else F0) * h)
                some = lambda v: Enum(ONE if blinded else ZERO, {0: (), 1: (R(ex, st, v),)})
                return [R(ex, st, pg), tro(ex, st), tro(ex, st), R(ex, st, z.tape()), R(ex, st, L.dense(zs)), some(z.bl(bs)), sl(ex, st, x), R(ex, st, y), some(bz), R(ex, st, z.comm(cm))]
            def post_ep(ex, st, r, a):
                pr, c, res = r.f; ceq(ex, st, c, ex.goal[0], "commitment to the evaluation"); honest(ex, st, res, a, L.get(PE, pr, "proof"))
            add("PolyEvalProof::prove %d%s" % (nv, "" if blinded else " unblinded"), "rvc_roots::polyeval_pv", mk_ep, post_ep, bounded="number of variables enumerated")
    return U
