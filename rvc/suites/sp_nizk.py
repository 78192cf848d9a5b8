"""r1csproof.rs and the NIZK of lib.rs"""
from .sp_sumcheck import *
from .sp_sumcheck import SI, ZI, DP
from .sp_eval import D, BR, DL, DG, PE, PC, PG, PB
from .sp_sigma import MG, N
from .sp_r1cs import RI, SM, ME, log2
from . import proto
RP = "r1csproof::R1CSProof"; RG = "r1csproof::R1CSGens"; RS = "r1csproof::R1CSSumcheckGens"
def units(prog, fm):
    z = ZE(prog, fm); L = z.L; U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "nizk"); kw.setdefault("bounded", "instance shape enumerated")
        def mk2(ex, st): proto.reset(); proto.NZ[0] = True; return mk(ex, st)
        U.append(Unit(name, fn, mk2, post, **kw))
    def g(ex, *a): ex.goal = a
    def R(ex, st, v): return ref(ex, st, v)
    def tro(ex, st): return R(ex, st, new_transcript(b"t"))
    def gens(nv):
        k = log2(nv); rr = 1 << (k - k // 2); pg, gp, h, k0 = z.pgens(rr)
        g3, s3, h3 = z.gens(3, "t"); g4, s4, h4 = z.gens(4, "f"); g1 = L.mk(MG, n=C(1), G=VecV([FE(k0, GS)]), h=FE(h, GS))
        return L.mk(RG, gens_sc=L.mk(RS, gens_1=g1, gens_3=g3, gens_4=g4), gens_pc=pg), dict(gp=gp, h=h, k0=k0, s3=s3, h3=h3, s4=s4, h4=h4, rr=rr)
    def zkproof(nm, k, d):
        cp, ce = [pt("%sP%d" % (nm, i)) for i in range(k)], [pt("%sE%d" % (nm, i)) for i in range(k)]; pf = []
        for i in range(k):
            de, be = pt("%sd%d" % (nm, i)), pt("%sb%d" % (nm, i)); zs = L.Ss("%sz%d_" % (nm, i), d + 1); zd, zb = L.S("%szd%d" % (nm, i)), L.S("%szb%d" % (nm, i)); pf.append((L.mk(DP, delta=de, beta=be, z=VecV(zs), z_delta=zd, z_beta=zb), (de, be, Q(zs), zd.p, zb.p)))
        return L.mk(ZI, comm_polys=VecV(cp), comm_evals=VecV(ce), proofs=VecV([x[0] for x in pf])), cp, ce, [x[1] for x in pf]
    def zk_eqs(cs, d, gs_, k0, kh, sn, hn, claims, cp, pf):
        """challenges (4 per round), generators, commitments -> equations and the point"""
        eqs = []; rs = []
        for i in range(len(cp)):
            rj, w0, w1, c = cs[4 * i:4 * i + 4]; de, be, zs, zd, zb = pf[i]; rs.append(rj)
            av = [w0 * (F1 + F1 if j == 0 else F1) + w1 * rj ** j for j in range(d + 1)]; ct = w0 * claims[i] + w1 * claims[i + 1]
            eqs += [c * cp[i].d[0] + de.d[0] - lin(zs, sn) - zd * hn, c * ct + be.d[0] - lin(zs, av) * k0 - zb * kh]
        return eqs, rs
    def proof(nc, nv):
        kx, ky = log2(nc), log2(2 * nv); nl = log2(nv); l, k = 1 << (nl // 2), nl - nl // 2
        cv = [pt("V%d" % i) for i in range(l)]; z1 = zkproof("s", kx, 3); z2 = zkproof("u", ky, 2); cl = [pt("claim%s" % n) for n in ("A", "B", "C", "AB")]
        ka = pt("ka"); kz = L.Ss("kz", 2); pp = [pt("p" + n) for n in ("al", "be", "de")]; pz = L.Ss("pz", 5); e1, e2 = pt("e1"), pt("e2"); ez = L.Ss("ez", 2); cr = pt("cr")
        Ls, Rs = [pt("L%d" % i) for i in range(k)], [pt("R%d" % i) for i in range(k)]; ld, lb = pt("ld"), pt("lb"); lz = L.Ss("lz", 2)
        ev = L.mk(PE, proof=L.mk(DL, bullet_reduction_proof=L.mk(BR, L_vec=VecV(Ls), R_vec=VecV(Rs)), delta=ld, beta=lb, z1=lz[0], z2=lz[1]))
        kp = L.mk(N + "KnowledgeProof", alpha=ka, z1=kz[0], z2=kz[1]); prp = L.mk(N + "ProductProof", alpha=pp[0], beta=pp[1], delta=pp[2], z=Agg(pz))
        eq1, eq2 = [L.mk(N + "EqualityProof", alpha=a, z=zz) for a, zz in ((e1, ez[0]), (e2, ez[1]))]
        v = L.mk(RP, comm_vars=z.comm(cv), sc_proof_phase1=z1[0], claims_phase2=Agg(cl), pok_claims_phase2=Agg([kp, prp]), proof_eq_sc_phase1=eq1, sc_proof_phase2=z2[0], comm_vars_at_ry=cr, proof_eval_vars_at_ry=ev, proof_eq_sc_phase2=eq2)
        pts = cv + cl + [ka] + pp + [e1, e2, cr] + Ls + Rs + [ld, lb]
        for zz in (z1, z2): pts += zz[1] + zz[2] + [y for q in zz[3] for y in q[:2]]
        return v, dict(cv=cv, z1=z1, z2=z2, cl=cl, ka=ka, kz=Q(kz), pp=pp, pz=Q(pz), e=(e1, e2), ez=Q(ez), cr=cr, Ls=Ls, Rs=Rs, ld=ld, lb=lb, lz=Q(lz), pts=pts, kx=kx, ky=ky, k=k, nl=nl)
    def equations(ex, st, lg, q, G_, inp, ev, skip=0):
        """the verification equations of the R1CS proof over the transcript lg"""
        cs = challenges(fm, lg); kx, ky, k = q["kx"], q["ky"], q["k"]; want = kx + 4 * kx + 3 + 3 + 4 * ky + k + 2 + 1
        ex.record("ensures", "number of challenges drawn", len(cs) == want, "normal form (%d, %d)" % (len(cs), want))
        if len(cs) != want: return [F1], None, None
        pos = [x for x, _ in cs]; ch = [c for _, c in cs]; i = 0
        tau = ch[:kx]; i = kx; bound(ex, st, lg, pos[0], q["cv"] + list(inp), "first challenge")
        k0, h = G_["k0"], G_["h"]
        claims = [F0] + [x.d[0] for x in q["z1"][2]]
        for j in range(kx):
            bound(ex, st, lg, pos[i + 4 * j], q["z1"][1][:j + 1], "first sum-check round %d" % j); bound(ex, st, lg, pos[i + 4 * j + 1], q["z1"][2][:j + 1], "first sum-check weights %d" % j); bound(ex, st, lg, pos[i + 4 * j + 3], list(q["z1"][3][j][:2]), "first sum-check opening %d" % j)
        eqs, rx = zk_eqs(ch[i:i + 4 * kx], 3, None, k0, h, G_["s4"], G_["h4"], claims, q["z1"][1], q["z1"][3]); i += 4 * kx
        cA, cB, cC, cAB = [x.d[0] for x in q["cl"]]
        ck, cp_, ce = ch[i:i + 3]; bound(ex, st, lg, pos[i], [q["cl"][2], q["ka"]], "opening of the Cz claim"); bound(ex, st, lg, pos[i + 1], [q["cl"][0], q["cl"][1], q["cl"][3]] + q["pp"], "product proof"); bound(ex, st, lg, pos[i + 2], [q["e"][0]], "first equality proof")
        eqs.append(q["kz"][0] * k0 + q["kz"][1] * h - ck * cC - q["ka"].d[0])
        y1, y2, y3, y4, y5 = q["pz"]; al, be, de = [x.d[0] for x in q["pp"]]
        eqs += [al + cp_ * cA - y1 * k0 - y2 * h, be + cp_ * cB - y3 * k0 - y4 * h, de + cp_ * cAB - y3 * cA - y5 * h]
        tb = F1
        for a, b in zip(rx, tau): tb = tb * (a * b + (F1 - a) * (F1 - b))
        last1 = claims[-1]; eqs.append(q["ez"][0] * h - ce * (tb * (cAB - cC) - last1) - q["e"][0].d[0]); i += 3
        rA, rB, rC = ch[i:i + 3]; bound(ex, st, lg, pos[i], q["cl"], "combination of the three claims"); i += 3
        c2 = [rA * cA + rB * cB + rC * cC] + [x.d[0] for x in q["z2"][2]]
        for j in range(ky):
            bound(ex, st, lg, pos[i + 4 * j], q["z2"][1][:j + 1], "second sum-check round %d" % j); bound(ex, st, lg, pos[i + 4 * j + 1], q["z2"][2][:j + 1], "second sum-check weights %d" % j); bound(ex, st, lg, pos[i + 4 * j + 3], list(q["z2"][3][j][:2]), "second sum-check opening %d" % j)
        e2, ry = zk_eqs(ch[i:i + 4 * ky], 2, None, k0, h, G_["s3"], G_["h3"], c2, q["z2"][1], q["z2"][3]); eqs += e2; i += 4 * ky
        m = (len(ry) - 1) // 2; Lw, Rw = eq_table(ry[1:1 + m], F1), eq_table(ry[1 + m:], F1)
        rr, us, c = ch[i], ch[i + 1:i + 1 + k], ch[i + 1 + k]; bound(ex, st, lg, pos[i], [q["cr"]], "evaluation proof")
        for j in range(k): bound(ex, st, lg, pos[i + 1 + j], [q["Ls"][j], q["Rs"][j]], "evaluation proof round %d" % j)
        bound(ex, st, lg, pos[i + 1 + k], [q["ld"], q["lb"]], "evaluation proof opening")
        s_ = svec(us); Gam = dot(Lw, [x.d[0] for x in q["cv"]], F0) + rr * q["cr"].d[0]
        for u, x, y in zip(us, q["Ls"], q["Rs"]): Gam = Gam + u * u * x.d[0] + finv(u) * finv(u) * y.d[0]
        ah = lin(s_, Rw); gh = lin(s_, G_["gp"])
        eqs.append((Gam * c + q["lb"].d[0]) * ah + q["ld"].d[0] - (gh + rr * k0 * ah) * q["lz"][0] - h * q["lz"][1]); i += 2 + k
        w = eq_table(ry[1:], F1); pub = [F1] + list(inp); pe = dot(w, (pub + [F0] * len(w))[:len(w)], F0)
        Zr = (F1 - ry[0]) * q["cr"].d[0] + ry[0] * pe * k0
        eA, eB, eC = ev; bound(ex, st, lg, pos[i], [q["e"][1]], "second equality proof")
        eqs.append(q["ez"][1] * h - ch[i] * ((rA * eA + rB * eB + rC * eC) * Zr - c2[-1]) - q["e"][1].d[0])
        return eqs, rx, ry
    for nc, nv, ni in ((2, 2, 1), (2, 2, 0), (4, 2, 1), (2, 4, 2), (2, 4, 3), (8, 4, 1), (4, 8, 5), (2, 16, 7)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni):
            pr, q = proof(nc, nv); gn, G_ = gens(nv); inp = L.Ss("x", ni); ev = L.Ss("ev", 3); g(ex, q, G_, Q(inp), Q(ev))
            return [R(ex, st, pr), C(nv), C(nc), sl(ex, st, inp), R(ex, st, Agg(ev)), tro(ex, st), R(ex, st, gn)]
        def post(ex, st, r, a):
            q, G_, inp, ev = ex.goal; r = rok(r); s2 = decodes(ex, st, r, q["pts"], "proof")
            s3 = s2.fork(); s3.assume(ONE - r.disc); lg = log_of(ex, s3, a[5]); eqs, rx, ry = equations(ex, st, lg, q, G_, inp, ev)
            accepts(ex, s2, r, eqs, [], "accepts exactly when every verification equation holds")
            if rx is not None: list_eq(ex, s3, fm, r.pay[0][0].f[0], rx, "first point"); list_eq(ex, s3, fm, r.pay[0][0].f[1], ry, "second point")
        add("R1CSProof::verify %d constraints %d variables %d inputs" % (nc, nv, ni), RP + "::verify", mk, post)
    # ---- completeness
    def mat(nx, ny, es): return L.mk(SM, num_vars_x=C(nx), num_vars_y=C(ny), M=VecV([L.mk(ME, row=C(i), col=C(j), val=FE(v, fm.spec)) for i, j, v in es]))
    def inst(nc, nv, ni, Ms): return L.mk(RI, num_cons=C(nc), num_vars=C(nv), num_inputs=C(ni), **{n: mat(log2(nc), log2(2 * nv), m) for n, m in zip("ABC", Ms)})
    def k_(n): return Poly.const(n % p, p)
    def satisfied(nc, nv, ni, full):
        """a satisfied instance with a symbolic witness: row i multiplies two symbolic combinations and the constant column of C closes it"""
        v = L.Ss("v", nv); x = L.Ss("x", ni); zz = Q(v) + [F1] + Q(x); A, B_, C_ = [], [], []
        for i in range(nc):
            ca, cb = (L.S("ca%d" % i).p, L.S("cb%d" % i).p) if full else (k_(i + 2), k_(i + 3))
            j, k = i % nv, nv + 1 + i % ni if ni else nv
            A += [(i, j, ca), (i, nv, k_(1))]; B_ += [(i, (j + 1) % nv, cb), (i, k, k_(1))]
            lhs = ca * zz[j] + F1; rhs = cb * zz[(j + 1) % nv] + zz[k]
            C_ += [(i, (i + 1) % nv, k_(1)), (i, nv, lhs * rhs - zz[(i + 1) % nv])]
        return v, x, (A, B_, C_)
    for nc, nv, ni, full in ((2, 2, 1, True), (2, 2, 0, False), (4, 2, 1, False), (2, 4, 2, False), (4, 4, 3, False), (8, 8, 5, False)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, full=full):
            v, x, Ms = satisfied(nc, nv, ni, full); gn, G_ = gens(nv); g(ex)
            return [R(ex, st, inst(nc, nv, ni, Ms)), VecV(v), sl(ex, st, x), R(ex, st, gn), tro(ex, st), tro(ex, st), R(ex, st, z.tape())]
        def post(ex, st, r, a):
            pr, (rx, ry), v = r.f[0], r.f[1].f, rok(r.f[2])
            ensure_bool(ex, st, v.disc, ZERO, "an honest proof of a satisfied instance is accepted"); ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, a[4]) == log_of(ex, st, a[5]), "normal form")
            list_eq(ex, st, fm, v.pay[0][0].f[0], [sval(ex, st, fm, t) for t in seqof(ex, st, rx)], "first point"); list_eq(ex, st, fm, v.pay[0][0].f[1], [sval(ex, st, fm, t) for t in seqof(ex, st, ry)], "second point")
        add("R1CSProof::prove %d constraints %d variables %d inputs" % (nc, nv, ni), "rvc_roots::r1cs_pv", mk, post)
    # ---- the NIZK
    IN, AS, NG, NK = "Instance", "Assignment", "NIZKGens", "NIZK"
    def instance(ri): return L.mk(IN, inst=ri, digest=VecV([Opq("digest")]))
    def asg(xs): return L.mk(AS, assignment=VecV(xs))
    for nc, nv, ni, full in ((2, 2, 1, False), (2, 4, 2, False), (4, 8, 3, False)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, full=full):
            v, x, Ms = satisfied(nc, nv, ni, full); gn, G_ = gens(nv); g(ex)
            return [R(ex, st, instance(inst(nc, nv, ni, Ms))), asg(v), R(ex, st, asg(x)), R(ex, st, L.mk(NG, gens_r1cs_sat=gn)), tro(ex, st), tro(ex, st)]
        def post(ex, st, r, a):
            ensure_bool(ex, st, rok(r.f[1]).disc, ZERO, "an honest proof of a satisfied instance is accepted"); lg = log_of(ex, st, a[4])
            ex.record("ensures", "prover and verifier end with the same transcript", lg == log_of(ex, st, a[5]), "normal form")
            pos = [i for i, e in enumerate(lg) if e[0] == "ch"]; ex.record("ensures", "the instance digest is bound before the first challenge", any(e[0] == "m" and e[2] == ("o", "digest") for e in lg[:pos[0]]), "normal form")
        add("NIZK::prove %d constraints %d variables %d inputs" % (nc, nv, ni), "rvc_roots::nizk_pv", mk, post)
    def symmat(nc, nv, ni, nm): return [(i, (i + k) % (nv + 1 + ni), L.S("%s%d_%d" % (nm, i, k)).p) for i in range(nc) for k in ((0, 1) if i == 0 else (2,))]
    def ev_at(es, rx, ry):
        ex_, ey = eq_table(rx, F1), eq_table(ry, F1); t = F0
        for i, j, v in es: t = t + v * ex_[i] * ey[j]
        return t
    for nc, nv, ni, da, db in ((2, 2, 1, 0, 0), (2, 4, 2, 0, 0), (4, 8, 3, 0, 0), (2, 2, 1, -1, 0), (2, 2, 1, 1, 0), (2, 2, 1, 0, -1), (2, 2, 1, 0, 1), (2, 2, 1, -1, 1)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, da=da, db=db):
            pr, q = proof(nc, nv); gn, G_ = gens(nv); inp = L.Ss("x", ni); Ms = [symmat(nc, nv, ni, n) for n in "abc"]; rx, ry = L.Ss("rx", q["kx"] + da), L.Ss("ry", q["ky"] + db)
            g(ex, q, G_, Q(inp), Ms, Q(rx), Q(ry)); nz = L.mk(NK, r1cs_sat_proof=pr, r=Agg([VecV(rx), VecV(ry)]))
            return [R(ex, st, nz), R(ex, st, instance(inst(nc, nv, ni, Ms))), R(ex, st, asg(inp)), tro(ex, st), R(ex, st, L.mk(NG, gens_r1cs_sat=gn))]
        def post(ex, st, r, a, bad=bool(da or db)):
            q, G_, inp, Ms, rx, ry = ex.goal; r = rok(r)
            if bad: ensure_bool(ex, st, r.disc, ONE, "claimed points of the wrong length are refused"); return
            s2 = decodes(ex, st, r, q["pts"], "proof"); s3 = s2.fork(); s3.assume(ONE - r.disc); lg = log_of(ex, s3, a[3])
            first = next(i for i, e in enumerate(lg) if e[0] == "ch"); ex.record("ensures", "the instance digest is bound before the first challenge", any(e[0] == "m" and e[2] == ("o", "digest") for e in lg[:first]), "normal form")
            eqs, vx, vy = equations(ex, st, lg, q, G_, inp, [ev_at(m, rx, ry) for m in Ms])
            if vx is not None: eqs = eqs + [x - y for x, y in zip(rx + ry, vx + vy)]
            accepts(ex, s2, r, eqs, [], "accepts exactly when every verification equation holds at the claimed point and the claimed point is the one drawn")
        add("NIZK::verify %d constraints %d variables %d inputs%s" % (nc, nv, ni, "" if not (da or db) else " (claimed point %+d%+d)" % (da, db)), NK + "::verify", mk, post)
    for nc, nv, ni, di in ((2, 2, 1, -1), (2, 2, 1, 1), (2, 4, 2, -1), (2, 4, 2, 1), (4, 8, 3, -3)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, di=di):
            pr, q = proof(nc, nv); gn, G_ = gens(nv); Ms = [symmat(nc, nv, ni, n) for n in "abc"]; nz = L.mk(NK, r1cs_sat_proof=pr, r=Agg([VecV(L.Ss("rx", q["kx"])), VecV(L.Ss("ry", q["ky"]))])); g(ex)
            return [R(ex, st, nz), R(ex, st, instance(inst(nc, nv, ni, Ms))), R(ex, st, asg(L.Ss("x", ni + di))), tro(ex, st), R(ex, st, L.mk(NG, gens_r1cs_sat=gn))]
        def post(ex, st, r, a): ensure_bool(ex, st, rok(r).disc, ONE, "another number of inputs than the instance has is refused")
        add("NIZK::verify %d constraints %d variables %d inputs, %+d given" % (nc, nv, ni, di), NK + "::verify", mk, post, panic="refuse")
    # ---- generators
    for nc, nv in ((2, 1), (2, 2), (4, 8), (1, 16)):
        def mk(ex, st, nc=nc, nv=nv): return [ref(ex, st, Agg([C(x) for x in b"lab"])), C(nc), C(nv)]
        def post(ex, st, r, a, nv=nv): gens_ok(ex, st, r, nv)
        add("R1CSGens::new %d" % nv, RG + "::new", mk, post)
    def gens_ok(ex, st, r, nv):
        k = log2(nv); d = L.get(PG, L.get(RG, r, "gens_pc"), "gens"); rr = 1 << (k - k // 2); ensure_int(ex, st, L.get(DG, d, "n"), C(rr), "generators for one row of the witness matrix")
        sc = L.get(RG, r, "gens_sc"); g1, p1 = L.get(RS, sc, "gens_1"), L.get(DG, d, "gens_1")
        geq(ex, st, seqof(ex, st, L.get(MG, g1, "G"))[0], gval(ex, st, seqof(ex, st, L.get(MG, p1, "G"))[0]), "one value generator for sum-check and commitment"); geq(ex, st, L.get(MG, g1, "h"), gval(ex, st, L.get(MG, p1, "h")), "one blinding generator")
        for nm, n in (("gens_1", 1), ("gens_3", 3), ("gens_4", 4)):
            v = L.get(RS, sc, nm); ensure_int(ex, st, L.get(MG, v, "n"), C(n), nm + ": size"); xs = [gval(ex, st, x).key() for x in seqof(ex, st, L.get(MG, v, "G")) + [L.get(MG, v, "h")]]
            ex.record("ensures", nm + ": distinct generators", len(set(xs)) == n + 1, "normal form")
    for nc, nv, ni in ((2, 2, 1), (3, 3, 1), (1, 1, 0), (5, 4, 4), (2, 1, 5)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni): return [C(nc), C(nv), C(ni)]
        def post(ex, st, r, a, nv=nv, ni=ni):
            m = 1
            while m < max(nv, ni + 1): m *= 2
            gens_ok(ex, st, L.get(NG, r, "gens_r1cs_sat"), m)
        add("NIZKGens::new %d %d %d" % (nc, nv, ni), NG + "::new", mk, post)
    return U
