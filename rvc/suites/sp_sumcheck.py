"""sumcheck.rs: the plain and the hiding sum-check"""
from .sp_eval import *
from .sp_sigma import MG, N
from . import proto
SI = "sumcheck::SumcheckInstanceProof"; ZI = "sumcheck::ZKSumcheckInstanceProof"; CU = "unipoly::CompressedUniPoly"; DP = N + "DotProductProof"
def poly_at(cs, x):
    t = F0; w = F1
    for c in cs: t = t + c * w; w = w * x
    return t
def bind(zs, r):
    m = len(zs) // 2
    return [zs[i] + r * (zs[i + m] - zs[i]) for i in range(m)]
def units(prog, fm):
    z = ZE(prog, fm); L = z.L; U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "sum"); kw.setdefault("bounded", "rounds enumerated")
        def mk2(ex, st): proto.reset(); proto.NZ[0] = False; return mk(ex, st)
        U.append(Unit(name, fn, mk2, post, **kw))
    def g(ex, *a): ex.goal = a
    def R(ex, st, v): return ref(ex, st, v)
    def tro(ex, st): return R(ex, st, new_transcript(b"t"))
    # ---- plain verifier
    for k, d, shape in ((0, 3, ()), (1, 3, (3,)), (2, 3, (3, 3)), (3, 3, (3, 3, 3)), (1, 2, (2,)), (2, 2, (2, 2)), (2, 3, (3,)), (1, 3, (3, 3)), (0, 3, (3,)), (1, 3, ()), (1, 3, (2,)), (1, 3, (4,)), (2, 3, (3, 2)), (2, 3, (3, 0)), (1, 3, (1,)), (1, 3, (0,)), (1, 2, (3,))):
        def mk(ex, st, k=k, d=d, shape=shape):
            cl = L.S("claim"); ps = [L.Ss("p%d_" % i, m) for i, m in enumerate(shape)]; g(ex, cl.p, [Q(x) for x in ps])
            return [R(ex, st, L.mk(SI, compressed_polys=VecV([L.mk(CU, coeffs_except_linear_term=VecV(x)) for x in ps]))), cl, C(k), C(d), tro(ex, st)]
        def post(ex, st, r, a, k=k, d=d, shape=shape):
            r = rok(r)
            if len(shape) != k or any(m != d for m in shape): ensure_bool(ex, st, r.disc, ONE, "a proof of the wrong shape is refused"); return
            e, ps = ex.goal; ensure_bool(ex, st, r.disc, ZERO, "a proof of the right shape is read"); lg = log_of(ex, st, a[4]); cs = challenges(fm, lg)
            ex.record("ensures", "one challenge per round", len(cs) == k, "normal form"); fe, fr = r.pay[0][0].f
            for i, q in enumerate(ps):
                full = [q[0], e - q[0] - q[0] - sum(q[1:], F0)] + q[1:]
                bound(ex, st, lg, cs[i][0], full[:1] + full[2:], "round %d" % i); e = poly_at(full, cs[i][1])
            feq(ex, st, fm, fe, e, "the final claim"); list_eq(ex, st, fm, fr, [c for _, c in cs], "the challenges")
        add("SumcheckInstanceProof::verify %d rounds degree %d shape %s" % (k, d, ",".join(map(str, shape)) or "-"), SI + "::verify", mk, post)
    # ---- plain prover
    def sumover(tabs, f): return sum((f(*x) for x in zip(*tabs)), F0)
    for k in (1, 2, 3):
        def mk(ex, st, k=k):
            ts = [L.Ss("%s%s" % (n, "_"), 1 << k) for n in "ABC"]; cl = FE(sumover([Q(t) for t in ts], lambda x, y, w: x * y * w), fm.spec); g(ex, [Q(t) for t in ts])
            return [R(ex, st, cl), C(k)] + [R(ex, st, L.dense(t)) for t in ts] + [tro(ex, st), tro(ex, st)]
        def post(ex, st, r, a, k=k):
            (rr, fin), v = r.f[0].f, r.f[1]; ts, = ex.goal; cs = [c for _, c in challenges(fm, log_of(ex, st, a[5]))]
            ex.record("ensures", "one challenge per round", len(cs) == k, "normal form"); ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, a[5]) == log_of(ex, st, a[6]), "normal form")
            list_eq(ex, st, fm, rr, cs, "the prover's point")
            for c in cs: ts = [bind(t, c) for t in ts]
            list_eq(ex, st, fm, fin, [t[0] for t in ts], "tables at the point")
            v = rok(v); ensure_bool(ex, st, v.disc, ZERO, "an honest proof is accepted"); feq(ex, st, fm, v.pay[0][0].f[0], ts[0][0] * ts[1][0] * ts[2][0], "the verifier's final claim is the combination at the point"); list_eq(ex, st, fm, v.pay[0][0].f[1], cs, "the verifier's point")
        add("SumcheckInstanceProof::prove_cubic %d" % k, "rvc_roots::sc_cubic_pv", mk, post)
    for k, np_, ns in ((1, 1, 0), (1, 2, 1), (2, 2, 0), (2, 1, 1), (1, 0, 2), (3, 1, 1), (1, 3, 3)):
        def mk(ex, st, k=k, np_=np_, ns=ns):
            A, B_ = [[L.Ss("%s%d_" % (n, i), 1 << k) for i in range(np_)] for n in "AB"]; Cp = L.Ss("C_", 1 << k); SA, SB, SC = [[L.Ss("%s%d_" % (n, i), 1 << k) for i in range(ns)] for n in ("SA", "SB", "SC")]; co = L.Ss("w", np_ + ns)
            f = lambda x, y, w: x * y * w; qs = lambda X: [Q(t) for t in X]
            cl = F0
            for i in range(np_): cl = cl + co[i].p * sumover([Q(A[i]), Q(B_[i]), Q(Cp)], f)
            for i in range(ns): cl = cl + co[np_ + i].p * sumover([Q(SA[i]), Q(SB[i]), Q(SC[i])], f)
            g(ex, qs(A), qs(B_), Q(Cp), qs(SA), qs(SB), qs(SC), Q(co))
            dv = lambda X: R(ex, st, VecV([R(ex, st, L.dense(t)) for t in X]))
            return [R(ex, st, FE(cl, fm.spec)), C(k), dv(A), dv(B_), R(ex, st, L.dense(Cp)), dv(SA), dv(SB), dv(SC), sl(ex, st, co), tro(ex, st), tro(ex, st)]
        def post(ex, st, r, a, k=k, np_=np_, ns=ns):
            rr, (fa, fb, fc), (ga, gb, gc), v = r.f[0], r.f[1].f, r.f[2].f, r.f[3]; A, B_, Cp, SA, SB, SC, co = ex.goal; cs = [c for _, c in challenges(fm, log_of(ex, st, a[9]))]
            ex.record("ensures", "one challenge per round", len(cs) == k, "normal form"); ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, a[9]) == log_of(ex, st, a[10]), "normal form"); list_eq(ex, st, fm, rr, cs, "the prover's point")
            def end(t):
                for c in cs: t = bind(t, c)
                return t[0]
            A, B_, SA, SB, SC = [[end(t) for t in X] for X in (A, B_, SA, SB, SC)]; Cp = end(Cp)
            for got, want, nm in ((fa, A, "A"), (fb, B_, "B"), (ga, SA, "A (sequential)"), (gb, SB, "B (sequential)"), (gc, SC, "C (sequential)")): list_eq(ex, st, fm, got, want, "table %s at the point" % nm)
            feq(ex, st, fm, fc, Cp, "table C at the point"); v = rok(v); ensure_bool(ex, st, v.disc, ZERO, "an honest proof is accepted"); e = F0
            for i in range(np_): e = e + co[i] * A[i] * B_[i] * Cp
            for i in range(ns): e = e + co[np_ + i] * SA[i] * SB[i] * SC[i]
            feq(ex, st, fm, v.pay[0][0].f[0], e, "the verifier's final claim is the combination at the point"); list_eq(ex, st, fm, v.pay[0][0].f[1], cs, "the verifier's point")
        add("SumcheckInstanceProof::prove_cubic_batched %d rounds %d+%d" % (k, np_, ns), "rvc_roots::sc_batched_pv", mk, post)
    # ---- hiding verifier
    def dprf(nm, m):
        de, be = pt(nm + "delta"), pt(nm + "beta"); zs = L.Ss(nm + "z", m); zd, zb = L.S(nm + "zd"), L.S(nm + "zb")
        return L.mk(DP, delta=de, beta=be, z=VecV(zs), z_delta=zd, z_beta=zb), (de, be, Q(zs), zd.p, zb.p)
    for k, d, np_, ne, nq, zl in ((3, 2, 3, 3, 3, 3), (3, 3, 3, 3, 3, 4), (5, 3, 5, 5, 5, 4), (1, 2, 1, 1, 1, 3), (1, 3, 1, 1, 1, 4), (2, 2, 2, 2, 2, 3), (2, 3, 2, 2, 2, 4), (1, 2, 0, 1, 1, 3), (1, 2, 1, 0, 1, 3), (1, 2, 1, 1, 0, 3), (1, 2, 2, 1, 1, 3), (1, 2, 1, 2, 1, 3), (1, 2, 1, 1, 2, 3), (2, 2, 1, 1, 1, 3), (0, 2, 0, 0, 0, 3), (1, 2, 1, 1, 1, 2), (1, 2, 1, 1, 1, 4), (1, 2, 2, 2, 2, 3)):
        def mk(ex, st, k=k, d=d, np_=np_, ne=ne, nq=nq, zl=zl):
            g1, s1, h1 = z.gens(1, "k"); gn, sn, hn = z.gens(d + 1); cc = pt("C"); cp, ce = [pt("P%d" % i) for i in range(np_)], [pt("E%d" % i) for i in range(ne)]; pf = [dprf("d%d" % i, zl) for i in range(nq)]
            g(ex, s1[0], h1, sn, hn, cc, cp, ce, [x[1] for x in pf])
            return [R(ex, st, L.mk(ZI, comm_polys=VecV(cp), comm_evals=VecV(ce), proofs=VecV([x[0] for x in pf]))), R(ex, st, cc), C(k), C(d), R(ex, st, g1), R(ex, st, gn), tro(ex, st)]
        def post(ex, st, r, a, k=k, d=d, np_=np_, ne=ne, nq=nq, zl=zl):
            r = rok(r)
            if k == 0 or (np_, ne, nq) != (k,) * 3 or zl != d + 1: ensure_bool(ex, st, r.disc, ONE, "a proof of the wrong shape is refused"); return
            k0, kh, sn, hn, cc, cp, ce, pf = ex.goal; claims = [cc] + ce
            s2, eqs = zk_equations(ex, st, r, a[6], k, d, k0, kh, sn, hn, claims, cp, pf)
            accepts(ex, s2, r, eqs, [], "accepts exactly when the opening equations of every round hold")
            s3 = s2.fork(); s3.assume(ONE - r.disc)
            c, rr = r.pay[0][0].f; x, v = cpt(ex, s3, c)
            ex.record("ensures", "returns the last commitment", x == ce[-1].d[0], "normal form"); list_eq(ex, s3, fm, rr, [c_ for _, c_ in ex.rj], "the point")
        def zk_equations(ex, st, r, t, k, d, k0, kh, sn, hn, claims, cp, pf):
            s2 = decodes(ex, st, r, claims + cp + [y for x in pf for y in x[:2]], "sum-check")
            # the transcript of a run that reaches the end
            q = s2.fork()
            q.assume(ONE - r.disc)
            lg = log_of(ex, q, t); cs = challenges(fm, lg); ex.record("ensures", "four challenges per round", len(cs) == 4 * k, "normal form (%d)" % len(cs)); eqs = []; ex.rj = cs[::4]
            if len(cs) != 4 * k: return s2, [F1]
            for i in range(k):
                (p0, rj), (p1, w0), (p2, w1), (p3, c) = cs[4 * i:4 * i + 4]; de, be, zs, zd, zb = pf[i]
                bound(ex, st, lg, p0, [cp[i]], "round %d" % i); bound(ex, st, lg, p1, [claims[i], claims[i + 1]], "round %d" % i); bound(ex, st, lg, p3, [de, be], "round %d" % i)
                av = [w0 * (F1 + F1 if j == 0 else F1) + w1 * rj ** j for j in range(d + 1)]; ct = w0 * claims[i].d[0] + w1 * claims[i + 1].d[0]
                eqs += [c * cp[i].d[0] + de.d[0] - lin(zs, sn) - zd * hn, c * ct + be.d[0] - lin(zs, av) * k0 - zb * kh]
            return s2, eqs
        add("ZKSumcheckInstanceProof::verify %d rounds degree %d (%d,%d,%d,%d)" % (k, d, np_, ne, nq, zl), ZI + "::verify", mk, post)
    # ---- hiding prover
    for k, kind in ((1, "quad"), (2, "quad"), (3, "quad"), (4, "quad"), (1, "cubic"), (2, "cubic"), (3, "cubic")):
        nt = 2 if kind == "quad" else 4; d = 2 if kind == "quad" else 3; f = (lambda x, y: x * y) if kind == "quad" else (lambda x, y, u, w: x * (y * u - w))
        def mk(ex, st, k=k, nt=nt, d=d, f=f):
            ts = [L.Ss("%s_" % n, 1 << k) for n in "ABCD"[:nt]]; cl = FE(sumover([Q(t) for t in ts], f), fm.spec); bl = L.S("bl"); g1, s1, h1 = z.gens(1, "k"); gn, sn, hn = z.gens(d + 1); h1 = hn; g1 = L.mk(MG, n=C(1), G=VecV([FE(s1[0], GS)]), h=FE(hn, GS)); g(ex, [Q(t) for t in ts], s1[0], h1)
            return [R(ex, st, cl), R(ex, st, bl), C(k)] + [R(ex, st, L.dense(t)) for t in ts] + [R(ex, st, g1), R(ex, st, gn), tro(ex, st), tro(ex, st), R(ex, st, z.tape())]
        def post(ex, st, r, a, k=k, nt=nt, f=f):
            pr, (rr, fin), be, v = r.f[0], r.f[1].f, r.f[2], r.f[3]; ts, k0, h = ex.goal; t, u, tp = a[-3:]
            cs = [c for _, c in challenges(fm, log_of(ex, st, t))][::4]
            ex.record("ensures", "one point coordinate per round", len(cs) == k, "normal form"); ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, t) == log_of(ex, st, u), "normal form"); list_eq(ex, st, fm, rr, cs, "the prover's point")
            for c in cs: ts = [bind(x, c) for x in ts]
            list_eq(ex, st, fm, fin, [x[0] for x in ts], "tables at the point")
            v = rok(v); ensure_bool(ex, st, v.disc, ZERO, "an honest proof is accepted")
            ceq(ex, st, v.pay[0][0].f[0], f(*[x[0] for x in ts]) * k0 + sval(ex, st, fm, be) * h, "the final commitment opens to the combination at the point"); list_eq(ex, st, fm, v.pay[0][0].f[1], cs, "the verifier's point")
            tv = challenges(fm, z.tape_log(ex, st, tp)); ms = []
            for nm in ("comm_polys", "comm_evals"): ms += [cpt(ex, st, x)[0] for x in seqof(ex, st, L.get(ZI, pr, nm))]
            zs = []
            for q in seqof(ex, st, L.get(ZI, pr, "proofs")): zs += [sval(ex, st, fm, x) for x in seqof(ex, st, L.get(DP, q, "z")) + [L.get(DP, q, "z_delta"), L.get(DP, q, "z_beta")]]
            masked(ex, st, ms + zs, tv, "messages and responses")
        add("ZKSumcheckInstanceProof::prove_%s %d" % (kind, k), "rvc_roots::zk_%s_pv" % kind, mk, post)
    return U
