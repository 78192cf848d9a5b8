"""product_tree.rs, the sparse-matrix evaluation argument of sparse_mlpoly.rs, R1CSEvalProof and the SNARK of lib.rs.

Modular: an evaluation proof of a committed polynomial (DensePolynomial, unblinded) and, one level up, the R1CS proof enter by
contract.  The contract of PolyEvalProof::prove requires that the claimed value is the polynomial's at the point and yields a
proof that verify_plain accepts for the same commitment, point, value and transcript; for any other proof the answer of
verify_plain is an unknown bit that depends on all of them (S06 discharges both).  The verifiers under contract here refuse by
panicking as well as by an error: the statement is about the runs that return Ok."""
from .sp_sumcheck import *
from .sp_sumcheck import SI, CU
from .sp_eval import PE, PC, PG, DG
from .sp_sigma import MG
from .sp_r1cs import RI, SM, ME, log2, np2
from .sp_r1cs import DP as DN
from . import proto
PT = "product_tree::"; SP = "sparse_mlpoly::"; PB = PT + "ProductCircuitEvalProofBatched"; AT = SP + "AddrTimestamps"
BND = "sizes enumerated, values symbolic"
def pkeys(ex, st, v): return tuple(gval(ex, st, x).key() for x in v)
def eval_contracts(L, fm):
    """PolyEvalProof::prove and verify_plain"""
    def gk(ex, st, g):
        g = deref(ex, st, g); d = L.get(PG, g, "gens"); gn = L.get(DG, d, "gens_n"); return [gval(ex, st, x) for x in seqof(ex, st, L.get(MG, gn, "G"))]
    def prove(ex, st, fn, args):
        po, bl, r, zr, bz, g, t, tape = args; po = deref(ex, st, po); n = L.get(DN, po, "len")
        zs = [sval(ex, st, fm, x) for x in seqof(ex, st, L.get(DN, po, "Z"))]; rs = [sval(ex, st, fm, x) for x in seqof(ex, st, r)]; z = sval(ex, st, fm, zr); gs_ = gk(ex, st, g)
        for o in (bl, bz):
            d_ = st.simp(o.disc)
            if not (d_.is_const() and d_.cval() == 0): raise Unsupported("blinded evaluation proof")
        m = len(rs) - len(rs) // 2; rr = 1 << m
        okk = len(zs) == 1 << len(rs) and n.is_const() and n.cval() == len(zs) and len(gs_) == rr
        ex.record("requires", "evaluation proof: one coordinate per variable and generators for one row", okk, "normal form (%d, %d, %d)" % (len(zs), len(rs), len(gs_)))
        if not okk: raise Unsupported("evaluation proof of the wrong shape")
        q, how, info = ex.solver.prove_fzero(dot(eq_table(rs, F1), zs, F0) - z, st.pc); ex.record("requires", "evaluation proof: the claimed value is the polynomial's at the point", q, how, info)
        key = (tuple(lin(zs[i * rr:(i + 1) * rr], gs_).key() for i in range(1 << (len(rs) // 2))), tuple(x.key() for x in rs), z.key(), tuple(x.key() for x in gs_)); out = []
        def f(i): out.append(i); return tid(TR[i] + (("m", b"pe", ("pe", "h", key)),)), None
        tmap(ex, st, t, f)
        if len(out) != 1: raise Unsupported("evaluation proof over a conditional transcript")
        return Agg([Obj("pep", ("h", key, out[0])), Opq("commitment to the value")])
    def verify(ex, st, fn, args):
        pr, g, t, r, zr, cm = args; pr = deref(ex, st, pr)
        if not (isinstance(pr, Obj) and pr.k == "pep"): raise Unsupported("evaluation proof %s" % type(pr).__name__)
        cs = [cpt(ex, st, x) for x in seqof(ex, st, L.get(PC, deref(ex, st, cm), "C"))]
        key = pe_key([c[0] for c in cs], [sval(ex, st, fm, x) for x in seqof(ex, st, r)], sval(ex, st, fm, zr), gk(ex, st, g)); out = []; who = pr.d[0]
        def f(i): out.append(i); return tid(TR[i] + (("m", b"pe", ("pe", who, key)),)), None
        tmap(ex, st, t, f)
        if len(out) != 1: raise Unsupported("evaluation proof over a conditional transcript")
        okv = opened(who, key, out[0]) if not (who == "h" and pr.d[1] == key and pr.d[2] == out[0]) else ONE
        if who in FAIL: okv = ZERO
        elif who != "h": st.assume(okv); okv = ONE
        return Enum(ONE - okv, {0: (UNIT,), 1: (Enum(ZERO, {0: ()}),)})
    return {PE + "::prove": prove, PE + "::verify_plain": verify}
FAIL = set()        # the openings that fail in this unit; every other one succeeds
def pe_key(cs, rs, z, gs_): return (tuple(c.key() for c in cs), tuple(x.key() for x in rs), z.key(), tuple(x.key() for x in gs_))
def opened(who, key, t): return Poly.atom(new_atom("opened", "var", 0, 1, key=("pev", who, key, t)))
class Cur:
    """the challenges of a transcript, in order; what must precede each is checked as they are taken"""
    def __init__(s, ex, st, fm, lg, skip=0): s.ex = ex; s.st = st; s.lg = lg; s.cs = challenges(fm, lg)[skip:]; s.i = 0; s.bad = False
    def take(s, n, pre=(), what=""):
        if s.i + n > len(s.cs): s.bad = True; s.i += n; return [F1] * n
        if n: bound(s.ex, s.st, s.lg, s.cs[s.i][0], list(pre), what)
        s.i += n; return [c for _, c in s.cs[s.i - n:s.i]]
    def end(s, what): s.ex.record("ensures", what + ": number of challenges", not s.bad and s.i == len(s.cs), "normal form (%d of %d)" % (s.i, len(s.cs)))
def mle(z, r): return dot(eq_table(r, F1), z, F0)
def prod(xs):
    t = F1
    for x in xs: t = t * x
    return t
def eqp(a, b):
    t = F1
    for x, y in zip(a, b): t = t * (x * y + (F1 - x) * (F1 - y))
    return t
def walk_layers(cur, layers, dotp, claims, dclaims, eqs, what):
    """verification equations of the batched product argument; returns (claims, dotp claims, point) of the leaves"""
    rand = []; cl = list(claims); np_ = len(claims); dl, dr, dw = dotp; nd = len(dclaims); m = len(layers)
    for i, (rounds, pl, pr) in enumerate(layers):
        last = i == m - 1
        if last: cl = cl + list(dclaims)
        co = cur.take(len(cl)); e = dot(cl, co, F0); rp = []
        for j, q in enumerate(rounds):
            full = [q[0], e - q[0] - q[0] - sum(q[1:], F0)] + list(q[1:]); c, = cur.take(1, q, "%s layer %d round %d" % (what, i, j)); rp.append(c); e = poly_at(full, c)
        w = eqp(rand, rp); x = F0
        for k in range(np_): x = x + co[k] * pl[k] * pr[k] * w
        if last:
            for k in range(nd): x = x + co[np_ + k] * dl[k] * dr[k] * dw[k]
        eqs.append((x - e, "%s layer %d: the claims of the layer reduce to those of the next" % (what, i)))
        rl, = cur.take(1, list(pl) + list(pr) + (list(dl) + list(dr) + list(dw) if last else []), "%s layer %d claims" % (what, i))
        cl = [a + rl * (b - a) for a, b in zip(pl, pr)]; rand = [rl] + rp
    dc = []
    for k in range(nd // 2):
        for t in (dl, dr, dw): dc.append(t[2 * k] + rl * (t[2 * k + 1] - t[2 * k]))
    return cl, dc, rand
def wellshaped(k, lay): return lay == [(i, (3,) * i) for i in range(k)]

def units(prog, fm):
    z = ZE(prog, fm); L = z.L; U = []
    def add(name, fn, mk, post, fail=(), **kw):
        kw.setdefault("tag", "snark"); kw.setdefault("bounded", BND)
        def mk2(ex, st): proto.reset(); proto.NZ[0] = False; FAIL.clear(); FAIL.update(fail); return mk(ex, st)
        U.append(Unit(name, fn, mk2, post, **kw))
    def g(ex, *a): ex.goal = a
    def R(ex, st, v): return ref(ex, st, v)
    def tro(ex, st): return R(ex, st, new_transcript(b"t"))
    def same_log(ex, st, a, b): ex.record("ensures", "prover and verifier end with the same transcript", log_of(ex, st, a) == log_of(ex, st, b), "normal form")
    def holds(ex, st, eqs, what=""):
        for e, w in eqs: ensure_bool(ex, st, feq0(e), ONE, what + w)
    # ---- circuits
    for k in (1, 2, 3, 4, 5, 7):
        def mk(ex, st, k=k): zs = L.Ss("z", 1 << k); g(ex, Q(zs)); return [R(ex, st, L.dense(zs))]
        def post(ex, st, r, a): feq(ex, st, fm, r, prod(ex.goal[0]), "the product of the leaves")
        add("ProductCircuit::evaluate %d" % (1 << k), "rvc_roots::prod_circuit", mk, post)
        def mk(ex, st, k=k): ts = [L.Ss(n, 1 << k) for n in "lrw"]; g(ex, [Q(t) for t in ts]); return [L.dense(t) for t in ts]
        def post(ex, st, r, a):
            t = [x * y * w for x, y, w in zip(*ex.goal[0])]; h = len(t) // 2
            for v, w, nm in zip(r.f, (t, t[:h], t[h:]), ("the weighted inner product", "its first half", "its second half")): feq(ex, st, fm, v, sum(w, F0), nm)
        add("DotProductCircuit::evaluate %d" % (1 << k), "rvc_roots::dotp_circuit", mk, post)
    for k in (1, 2, 3):
        def mk(ex, st, k=k): zs = L.Ss("z", 1 << k); g(ex, Q(zs)); return [R(ex, st, L.dense(zs)), C(1 << k), tro(ex, st), tro(ex, st)]
        def post(ex, st, r, a, k=k):
            zs, = ex.goal; x, rr, v = r.f; same_log(ex, st, a[2], a[3]); pt_ = [sval(ex, st, fm, y) for y in seqof(ex, st, rr)]; ex.record("ensures", "one coordinate per variable", len(pt_) == k, "normal form")
            feq(ex, st, fm, x, mle(zs, pt_), "the prover's claim is the leaves' extension at the point"); feq(ex, st, fm, v.f[0], mle(zs, pt_), "the verifier's claim is the leaves' extension at the point"); list_eq(ex, st, fm, v.f[1], pt_, "the verifier's point")
        add("ProductCircuitEvalProof::prove %d" % (1 << k), "rvc_roots::pc_pv", mk, post)
    for k, np_, nd in ((1, 1, 0), (1, 2, 1), (2, 1, 0), (2, 2, 1), (2, 2, 2), (3, 1, 0), (2, 4, 0), (3, 1, 1)):
        def mk(ex, st, k=k, np_=np_, nd=nd):
            zs = [L.Ss("z%d_" % i, 1 << k) for i in range(np_)]; ds = [[L.Ss("%s%d_" % (n, i), 1 << k) for n in "lrw"] for i in range(nd)]; g(ex, [Q(t) for t in zs], [[Q(t) for t in d] for d in ds])
            return [VecV([L.dense(t) for t in zs]), VecV([Agg([L.dense(t) for t in d]) for d in ds]), C(1 << k), tro(ex, st), tro(ex, st)]
        def post(ex, st, r, a, k=k):
            zs, ds = ex.goal; rr, v = r.f; same_log(ex, st, a[3], a[4]); pt_ = [sval(ex, st, fm, y) for y in seqof(ex, st, rr)]; ex.record("ensures", "one coordinate per variable", len(pt_) == k, "normal form")
            list_eq(ex, st, fm, v.f[2], pt_, "the verifier's point"); list_eq(ex, st, fm, v.f[0], [mle(t, pt_) for t in zs], "the verifier's claims are the leaves' extensions at the point"); list_eq(ex, st, fm, v.f[1], [mle(t, pt_) for d in ds for t in d], "the verifier's inner product claims are the tables' extensions at the point")
        add("ProductCircuitEvalProofBatched::prove %d (%d+%d)" % (1 << k, np_, nd), "rvc_roots::pcb_pv", mk, post)
    # ---- the product verifiers on arbitrary proofs
    def sc_proof(nm, shape):
        ps = [L.Ss("%sp%d_" % (nm, i), m) for i, m in enumerate(shape)]
        return L.mk(SI, compressed_polys=VecV([L.mk(CU, coeffs_except_linear_term=VecV(x)) for x in ps])), [Q(x) for x in ps]
    def batched(nm, lay, np_, nd, cut=(0, 0, 0)):
        out = []; ls = []
        for i, (_, sh) in enumerate(lay):
            pf, qs = sc_proof("%s%d" % (nm, i), sh); a, b = L.Ss("%s%dl" % (nm, i), np_ + cut[0]), L.Ss("%s%dr" % (nm, i), np_ + cut[1]); out.append((qs, Q(a), Q(b))); ls.append(L.mk(PT + "LayerProofBatched", proof=pf, claims_prod_left=VecV(a), claims_prod_right=VecV(b)))
        dd = [L.Ss("%sd%s" % (nm, n), nd + cut[2]) for n in "lrw"]
        return L.mk(PB, proof=VecV(ls), claims_dotp=Agg([VecV(x) for x in dd])), out, [Q(x) for x in dd]
    def layers(k): return [(i, (3,) * i) for i in range(k)]
    for k, np_, nd in ((1, 1, 0), (2, 1, 0), (2, 2, 2), (3, 1, 0), (3, 2, 2), (1, 4, 2), (4, 1, 2)):
        def mk(ex, st, k=k, np_=np_, nd=nd):
            pf, ls, dd = batched("", layers(k), np_, nd); cl, dc = L.Ss("c", np_), L.Ss("e", nd); g(ex, ls, dd, Q(cl), Q(dc)); return [R(ex, st, pf), sl(ex, st, cl), sl(ex, st, dc), C(1 << k), tro(ex, st)]
        def post(ex, st, r, a):
            ls, dd, cl, dc = ex.goal; cur = Cur(ex, st, fm, log_of(ex, st, a[4])); eqs = []; x, y, pt_ = walk_layers(cur, ls, dd, cl, dc, eqs, "product argument"); cur.end("product argument")
            if cur.bad: return
            holds(ex, st, eqs); list_eq(ex, st, fm, r.f[0], x, "claims about the leaves"); list_eq(ex, st, fm, r.f[1], y, "claims about the inner product tables"); list_eq(ex, st, fm, r.f[2], pt_, "the point")
        add("ProductCircuitEvalProofBatched::verify %d (%d+%d)" % (1 << k, np_, nd), PB + "::verify", mk, post, panic="assume")
    for nm, k, lay, np_, nd, cut in (("too few layers", 2, layers(1), 1, 0, (0, 0, 0)), ("too many layers", 1, layers(2), 1, 0, (0, 0, 0)), ("no layers", 1, [], 1, 0, (0, 0, 0)), ("a layer without rounds", 2, [(0, ()), (1, ())], 1, 0, (0, 0, 0)), ("a layer with too many rounds", 2, [(0, ()), (1, (3, 3))], 1, 0, (0, 0, 0)), ("a round of the wrong degree", 2, [(0, ()), (1, (4,))], 1, 0, (0, 0, 0)), ("a round of lower degree", 2, [(0, ()), (1, (2,))], 1, 0, (0, 0, 0)), ("too few left claims", 1, layers(1), 2, 0, (-1, 0, 0)), ("too few right claims", 1, layers(1), 2, 0, (0, -1, 0)), ("too many left claims", 1, layers(1), 1, 0, (1, 0, 0)), ("too many right claims", 1, layers(1), 1, 0, (0, 1, 0)), ("too few inner product claims", 1, layers(1), 1, 2, (0, 0, -1)), ("no inner product claims", 1, layers(1), 1, 2, (0, 0, -2)), ("too many inner product claims", 1, layers(1), 1, 2, (0, 0, 1))):
        def mk(ex, st, k=k, lay=lay, np_=np_, nd=nd, cut=cut):
            pf, _, _ = batched("", lay, np_, nd, cut); return [R(ex, st, pf), sl(ex, st, L.Ss("c", np_)), sl(ex, st, L.Ss("e", nd)), C(1 << k), tro(ex, st)]
        add("ProductCircuitEvalProofBatched::verify: %s" % nm, PB + "::verify", mk, None, panic="refuse")
    for k in (1, 2, 3):
        def mk(ex, st, k=k):
            ls = []; out = []
            for i in range(k):
                pf, qs = sc_proof("%d" % i, (3,) * i); c = L.Ss("c%d_" % i, 2); out.append((qs, [c[0].p], [c[1].p])); ls.append(L.mk(PT + "LayerProof", proof=pf, claims=VecV(c)))
            cl = L.S("claim"); g(ex, out, cl.p); return [R(ex, st, L.mk(PT + "ProductCircuitEvalProof", proof=VecV(ls))), cl, C(1 << k), tro(ex, st)]
        def post(ex, st, r, a):
            ls, e = ex.goal; cur = Cur(ex, st, fm, log_of(ex, st, a[3])); rand = []
            for i, (rounds, (p0,), (p1,)) in enumerate(ls):
                rp = []
                for j, q in enumerate(rounds):
                    full = [q[0], e - q[0] - q[0] - sum(q[1:], F0)] + list(q[1:]); c, = cur.take(1, q, "layer %d round %d" % (i, j)); rp.append(c); e = poly_at(full, c)
                ensure_bool(ex, st, feq0(p0 * p1 * eqp(rand, rp) - e), ONE, "layer %d: the claim reduces to those of the next" % i); rl, = cur.take(1, [p0, p1], "layer %d claims" % i); e = p0 + rl * (p1 - p0); rand = [rl] + rp
            cur.end("product argument"); feq(ex, st, fm, r.f[0], e, "claim about the leaves"); list_eq(ex, st, fm, r.f[1], rand, "the point")
        add("ProductCircuitEvalProof::verify %d" % (1 << k), PT + "ProductCircuitEvalProof::verify", mk, post, panic="assume")
    # ---- the committed form of the matrices
    CG = SP + "SparseMatPolyCommitmentGens"; CM = SP + "SparseMatPolyCommitment"; MD = SP + "MultiSparseMatPolynomialAsDense"; DR = SP + "Derefs"; DC = SP + "DerefsCommitment"
    def smat(nx, ny, es): return L.mk(SM, num_vars_x=C(nx), num_vars_y=C(ny), M=VecV([L.mk(ME, row=C(i), col=C(j), val=FE(v, fm.spec)) for i, j, v in es]))
    def pgen(nm, nv):
        n = 1 << (nv - nv // 2); G_ = [gatom("%s%d" % (nm, i)) for i in range(n)]; h, k = gatom(nm + "h"), gatom(nm + "k")
        return L.mk(PG, gens=L.mk(DG, n=C(n), gens_n=L.mk(MG, n=C(n), G=VecV(G_), h=h), gens_1=L.mk(MG, n=C(1), G=VecV([k]), h=h))), [x.p for x in G_]
    def gens(N, nb, cells):
        no, nd, nm = log2(N) + log2(np2(5 * nb)), log2(N) + log2(np2(2 * nb)), log2(cells) + 1
        (a, x), (b, y), (c, w) = pgen("o", no), pgen("m", nm), pgen("d", nd); return L.mk(CG, gens_ops=a, gens_mem=b, gens_derefs=c), dict(ops=x, mem=y, der=w)
    def ks(xs): return [Poly.const(x % p, p) for x in xs]
    def padded(n): return max(2, np2(max(n, 1)))
    def syms(shape): return [[(i, j, L.S("m%d_%d" % (k, q)).p) for q, (i, j) in enumerate(m)] for k, m in enumerate(shape)]
    def trace(addrs, cells):
        """the timestamps a memory of that many cells shows for these accesses"""
        last = [0] * cells; rd = []
        for a in addrs:
            t = []
            for x in a: t.append(last[x]); last[x] += 1
            rd.append(t)
        return rd, last
    def dense_of(nx, ny, Ms):
        N = max(padded(len(m)) for m in Ms); cells = 1 << max(nx, ny)
        pad = lambda m, k: [e[k] for e in m] + [0] * (N - len(m)); row, col = [pad(m, 0) for m in Ms], [pad(m, 1) for m in Ms]; val = [[e[2] for e in m] + [F0] * (N - len(m)) for m in Ms]
        return N, cells, row, col, val, trace(row, cells), trace(col, cells)
    def padto(xs): return xs + [F0] * (np2(len(xs)) - len(xs))
    def comb_ops(d):
        N, cells, row, col, val, (rr, ra), (cr, ca) = d
        return padto([x for part in (row, rr, col, cr) for t in part for x in ks(t)] + [x for t in val for x in t])
    def comb_mem(d): return ks(d[5][1]) + ks(d[6][1])
    def rowcom(zs, G_): return [lin(zs[i:i + len(G_)], G_) for i in range(0, len(zs), len(G_))]
    def denseq(ex, st, v, want, what):
        v = deref(ex, st, v); list_eq(ex, st, fm, L.get(DN, v, "Z"), want, what); ensure_int(ex, st, L.get(DN, v, "len"), C(len(want)), what + ": len"); ensure_int(ex, st, L.get(DN, v, "num_vars"), C(log2(len(want))), what + ": variables")
    def denses(ex, st, v, want, what):
        xs = seqof(ex, st, v); ex.record("ensures", what + ": one per matrix", len(xs) == len(want), "normal form (%d)" % len(xs))
        for i, (x, w) in enumerate(zip(xs, want)): denseq(ex, st, x, w, "%s %d" % (what, i))
    def mkdense(nx, ny, Ms):
        N, cells, row, col, val, rt, ct = dense_of(nx, ny, Ms); dn = lambda xs: L.dense([FE(x, fm.spec) for x in xs])
        at = lambda ad, tr: L.mk(AT, ops_addr_usize=VecV([VecV([C(x) for x in a]) for a in ad]), ops_addr=VecV([dn(ks(a)) for a in ad]), read_ts=VecV([dn(ks(t)) for t in tr[0]]), audit_ts=dn(ks(tr[1])))
        d = (N, cells, row, col, val, rt, ct)
        return L.mk(MD, batch_size=C(len(Ms)), val=VecV([dn(v) for v in val]), row=at(row, rt), col=at(col, ct), comb_ops=dn(comb_ops(d)), comb_mem=dn(comb_mem(d))), d
    SHAPES = [("one entry each", 1, 1, [[(0, 1)], [(1, 0)], [(0, 0)]]), ("empty", 1, 1, [[], [], []]), ("two", 1, 1, [[(0, 1), (1, 0)], [(1, 0), (1, 1)], [(0, 0)]]), ("wide", 0, 2, [[(0, 3), (0, 0)], [(0, 2)], [(0, 1), (0, 1)]]), ("tall", 2, 1, [[(3, 1), (2, 0)], [(1, 1)], [(0, 0), (3, 1)]]),
              ("repeated cells", 1, 1, [[(1, 1), (1, 1), (1, 1)], [(1, 1)], [(0, 1), (1, 0)]]), ("four", 2, 2, [[(0, 0), (1, 1), (2, 2), (3, 3)], [(3, 0), (3, 0), (3, 0)], [(1, 2)]]), ("five", 1, 2, [[(0, 0), (1, 1), (0, 2), (1, 3), (0, 0)], [(0, 1)], []]), ("one matrix", 2, 2, [[(2, 1), (1, 3)]]), ("two matrices", 1, 2, [[(1, 1), (0, 3)], [(0, 3), (0, 3), (1, 2)]])]
    for nm, nx, ny, sh in SHAPES:
        def mk(ex, st, nx=nx, ny=ny, sh=sh):
            Ms = syms(sh); d = dense_of(nx, ny, Ms); gn, G_ = gens(d[0], len(Ms), d[1]); g(ex, d, G_, len(Ms)); return [sl(ex, st, [R(ex, st, smat(nx, ny, m)) for m in Ms]), R(ex, st, gn)]
        def post(ex, st, r, a):
            d, G_, nb = ex.goal; N, cells, row, col, val, rt, ct = d; cm, dn = r.f
            for f, w in (("batch_size", nb), ("num_ops", N), ("num_mem_cells", cells)): ensure_int(ex, st, L.get(CM, cm, f), C(w), f)
            for f, zs, q in (("comm_comb_ops", comb_ops(d), "ops"), ("comm_comb_mem", comb_mem(d), "mem")):
                xs = seqof(ex, st, L.get(PC, L.get(CM, cm, f), "C")); ws = rowcom(zs, G_[q]); ex.record("ensures", f + ": number of shares", len(xs) == len(ws), "normal form (%d)" % len(xs))
                for i, (x, w) in enumerate(zip(xs, ws)): ceq(ex, st, x, w, "%s %d" % (f, i))
            ensure_int(ex, st, L.get(MD, dn, "batch_size"), C(nb), "batch size"); denses(ex, st, L.get(MD, dn, "val"), val, "values")
            for f, ad, (rd, au) in (("row", row, rt), ("col", col, ct)):
                v = L.get(MD, dn, f); denses(ex, st, L.get(AT, v, "ops_addr"), [ks(t) for t in ad], f + " addresses"); denses(ex, st, L.get(AT, v, "read_ts"), [ks(t) for t in rd], f + " read timestamps"); denseq(ex, st, L.get(AT, v, "audit_ts"), ks(au), f + " final timestamps")
                us = [[x.cval() if x.is_const() else None for x in seqof(ex, st, y)] for y in seqof(ex, st, L.get(AT, v, "ops_addr_usize"))]; ex.record("ensures", f + " addresses as integers", us == ad, "normal form")
            denseq(ex, st, L.get(MD, dn, "comb_ops"), comb_ops(d), "combined operations"); denseq(ex, st, L.get(MD, dn, "comb_mem"), comb_mem(d), "combined final timestamps")
        add("SparseMatPolynomial::multi_commit: %s" % nm, SM + "::multi_commit", mk, post)
    for cells, ops, nb in ((2, 512, 1), (4, 128, 3), (32, 64, 2), (1, 4, 1)):
        ads = [[0 if (i + b) % 3 == 0 else (i * i + 5 * b) % cells for i in range(ops)] for b in range(nb)]
        def mk(ex, st, cells=cells, ops=ops, ads=ads): g(ex); return [C(cells), C(ops), VecV([VecV([C(x) for x in a]) for a in ads])]
        def post(ex, st, r, a, cells=cells, ads=ads):
            rd, au = trace(ads, cells); denses(ex, st, L.get(AT, r, "ops_addr"), [ks(t) for t in ads], "addresses"); denses(ex, st, L.get(AT, r, "read_ts"), [ks(t) for t in rd], "read timestamps"); denseq(ex, st, L.get(AT, r, "audit_ts"), ks(au), "final timestamps")
        add("SparseMat AddrTimestamps::new %d cells %d accesses %d matrices" % (cells, ops, nb), AT + "::new", mk, post)
    for nx, ny, nnz, nb in ((1, 1, 0, 3), (1, 1, 1, 3), (1, 1, 2, 3), (0, 2, 3, 3), (2, 1, 5, 3), (3, 3, 4, 1), (1, 2, 3, 2)):
        def mk(ex, st, nx=nx, ny=ny, nnz=nnz, nb=nb): return [ref(ex, st, Agg([C(x) for x in b"lab"])), C(nx), C(ny), C(nnz), C(nb)]
        def post(ex, st, r, a, nx=nx, ny=ny, nnz=nnz, nb=nb):
            N = padded(nnz)
            for f, nv in (("gens_ops", log2(N) + log2(np2(5 * nb))), ("gens_mem", max(nx, ny) + 1), ("gens_derefs", log2(N) + log2(np2(2 * nb)))):
                ensure_int(ex, st, L.get(DG, L.get(PG, L.get(CG, r, f), "gens"), "n"), C(1 << (nv - nv // 2)), f + ": generators for one row of the committed matrix")
        add("SparseMatPolyCommitmentGens::new %d %d %d %d" % (nx, ny, nnz, nb), CG + "::new", mk, post)
    for k, m in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 3), (3, 1), (2, 3), (4, 2)):
        def mk(ex, st, k=k, m=m): x, y = L.Ss("x", k), L.Ss("y", m); g(ex, Q(x), Q(y)); return [sl(ex, st, x), sl(ex, st, y)]
        def post(ex, st, r, a):
            x, y = ex.goal; n = max(len(x), len(y)); list_eq(ex, st, fm, r.f[0], [F0] * (n - len(x)) + x, "row point"); list_eq(ex, st, fm, r.f[1], [F0] * (n - len(y)) + y, "column point")
        add("SparseMatPolyEvalProof::equalize %d %d" % (k, m), SP + "SparseMatPolyEvalProof::equalize", mk, post)
    # ---- the memory in the head: hashed layers and the multiset equation
    def hashed(table, ads, vals, rd, au, rh, rm):
        h = lambda a, v, t: t * rh * rh + v * rh + a - rm
        ini = [h(Poly.const(i, p), v, F0) for i, v in enumerate(table)]; aud = [h(Poly.const(i, p), v, t) for i, (v, t) in enumerate(zip(table, au))]
        return ini, [[h(a, v, t) for a, v, t in zip(*q)] for q in zip(ads, vals, rd)], [[h(a, v, t + F1) for a, v, t in zip(*q)] for q in zip(ads, vals, rd)], aud
    for cells, ops, ni in ((2, 2, 1), (2, 2, 3), (4, 2, 2), (4, 4, 3), (8, 2, 1)):
        def mk(ex, st, cells=cells, ops=ops, ni=ni):
            T_ = L.Ss("t", cells); A = [[L.Ss("%s%d_" % (n, i), ops) for i in range(ni)] for n in "adr"]; au = L.Ss("au", cells); rh, rm = L.S("rh"), L.S("rm"); g(ex, hashed(Q(T_), [Q(x) for x in A[0]], [Q(x) for x in A[1]], [Q(x) for x in A[2]], Q(au), rh.p, rm.p))
            return [sl(ex, st, T_)] + [sl(ex, st, [L.dense(x) for x in y]) for y in A] + [R(ex, st, L.dense(au)), R(ex, st, Agg([rh, rm]))]
        def post(ex, st, r, a):
            i_, rd, wr, au = ex.goal[0]; denseq(ex, st, r.f[0], i_, "initial tuples"); denses(ex, st, r.f[1], rd, "read tuples"); denses(ex, st, r.f[2], wr, "written tuples"); denseq(ex, st, r.f[3], au, "final tuples")
        add("Layers::build_hash_layer %d cells %d accesses %d matrices" % (cells, ops, ni), SP + "Layers::build_hash_layer", mk, post)
    PC_, PL, LY, HLP, PLP, PNP, SEP = PT + "ProductCircuit", SP + "ProductLayer", SP + "Layers", SP + "HashLayerProof", SP + "ProductLayerProof", SP + "PolyEvalNetworkProof", SP + "SparseMatPolyEvalProof"
    for nm, nx, ny, sh in [x for x in SHAPES if x[0] in ("two", "wide", "tall", "repeated cells", "one matrix", "two matrices")]:
        def mk(ex, st, nx=nx, ny=ny, sh=sh):
            Ms = syms(sh); v, d = mkdense(nx, ny, Ms); cells = d[1]; tx, ty = L.Ss("tx", cells), L.Ss("ty", cells); rh, rm = L.S("rh"), L.S("rm"); out = []
            for t, ad, (rd, au) in ((Q(tx), d[2], d[5]), (Q(ty), d[3], d[6])): out.append(hashed(t, [ks(x) for x in ad], [[t[i] for i in x] for x in ad], [ks(x) for x in rd], ks(au), rh.p, rm.p))
            dv = [[[t[i] for i in x] for x in ad] for t, ad in ((Q(tx), d[2]), (Q(ty), d[3]))]; dn = lambda xs: L.dense([FE(x, fm.spec) for x in xs])
            g(ex, out); return [R(ex, st, v), R(ex, st, L.mk(DR, row_ops_val=VecV([dn(x) for x in dv[0]]), col_ops_val=VecV([dn(x) for x in dv[1]]), comb=dn(padto([y for q in dv for x in q for y in x])))), sl(ex, st, tx), sl(ex, st, ty), R(ex, st, Agg([rh, rm]))]
        def post(ex, st, r, a):
            def leaves(v): l, q = [seqof(ex, st, L.get(DN, seqof(ex, st, L.get(PC_, v, f))[0], "Z")) for f in ("left_vec", "right_vec")]; return l + q
            for f, (i_, rd, wr, au) in zip(("row_layers", "col_layers"), ex.goal[0]):
                v = L.get(LY, L.get(SP + "PolyEvalNetwork", r, f), "prod_layer")
                for n, w in (("init", [i_]), ("audit", [au]), ("read_vec", rd), ("write_vec", wr)):
                    x = L.get(PL, v, n); x = seqof(ex, st, x) if n.endswith("vec") else [x]; ex.record("ensures", "%s %s: number of circuits" % (f, n), len(x) == len(w), "normal form")
                    for i, (y, q) in enumerate(zip(x, w)): list_eq(ex, st, fm, Agg(leaves(y)), q, "%s %s %d: leaves" % (f, n, i))
                e = prod(i_) * prod([y for q in wr for y in q]) - prod(au) * prod([y for q in rd for y in q]); q, how, info = ex.solver.prove_fzero(e, st.pc); ex.record("lemma", f + ": initial and written tuples are the read and final ones", q, how, info)
        add("PolyEvalNetwork::new: %s" % nm, SP + "PolyEvalNetwork::new", mk, post)
    # ---- the verifiers of the argument, on arbitrary proofs
    def pep(nm): return L.mk(PE, proof=Obj("x", nm)) if False else Obj("pep", (nm,))
    def pcm(nm, nv): ps = [pt("%s%d" % (nm, i), ONE) for i in range(1 << (nv // 2))]; return z.comm(ps), [q.d[0] for q in ps], ps
    def commitment(N, nb, cells):
        c1, l1, p1 = pcm("Co", log2(N) + log2(np2(5 * nb))); c2, l2, p2 = pcm("Cm", log2(cells) + 1)
        return L.mk(CM, batch_size=C(nb), num_ops=C(N), num_mem_cells=C(cells), comm_comb_ops=c1, comm_comb_mem=c2), dict(ops=l1, mem=l2, pts=p1 + p2)
    def derefs(N, nb): c, l, ps = pcm("Cd", log2(N) + log2(np2(2 * nb))); return L.mk(DC, comm_ops_val=c), l, ps
    def hash_proof(nb, cut=(0,) * 7):
        n = [nb + c for c in cut]; ra, rt, ca, ct = [L.Ss(x, k) for x, k in zip(("era", "ert", "eca", "ect"), n)]; ev = L.Ss("ev", n[4]); dr, dc = L.Ss("edr", n[5]), L.Ss("edc", n[6]); au = L.Ss("eau", 2)
        v = L.mk(HLP, eval_row=Agg([VecV(ra), VecV(rt), au[0]]), eval_col=Agg([VecV(ca), VecV(ct), au[1]]), eval_val=VecV(ev), eval_derefs=Agg([VecV(dr), VecV(dc)]), proof_ops=pep("ops"), proof_mem=pep("mem"), proof_derefs=L.mk(SP + "DerefsEvalProof", proof_derefs=pep("der")))
        return v, dict(ra=Q(ra), rt=Q(rt), ca=Q(ca), ct=Q(ct), ev=Q(ev), dr=Q(dr), dc=Q(dc), au=Q(au))
    def walk_hash(ex, st, lg, cur, H, rmem, rops, crow, ccol, cd, cm, der, G_, rx, ry, rh, rm, eqs):
        op = []
        def opening(who, coms, evs, at, what):
            ch = cur.take(log2(len(evs)), evs, what + ": claims"); v = mle(evs, ch); op.append((who, coms, ch + at, v, what))
        opening("der", der, padto(H["dr"] + H["dc"]), rops, "dereferenced values")
        opening("ops", cm["ops"], padto(H["ra"] + H["rt"] + H["ca"] + H["ct"] + H["ev"]), rops, "addresses, timestamps and values")
        opening("mem", cm["mem"], H["au"], rmem, "final timestamps")
        for i, (a, b, c) in enumerate(zip(H["dr"], H["dc"], H["ev"])):
            for x, y, w in zip((a, b, c), cd[3 * i:3 * i + 3], ("row", "column", "value")): eqs.append((x - y, "the inner product claim %d of the product layer is the opened %s" % (i, w)))
        hs = lambda a, v, t: t * rh * rh + v * rh + a - rm
        idm = F0
        for i, x in enumerate(rmem): idm = idm + x * Poly.const(1 << (len(rmem) - 1 - i), p)
        for nm, (ci, cr, cw, ca_), at, ad, ts, dv, au in (("row", crow, rx, H["ra"], H["rt"], H["dr"], H["au"][0]), ("column", ccol, ry, H["ca"], H["ct"], H["dc"], H["au"][1])):
            e = eqp(at, rmem); eqs.append((hs(idm, e, F0) - ci, "%s: initial tuples" % nm)); eqs.append((hs(idm, e, au) - ca_, "%s: final tuples" % nm))
            for i in range(len(cr)): eqs.append((hs(ad[i], dv[i], ts[i]) - cr[i], "%s: read tuples of matrix %d" % (nm, i))); eqs.append((hs(ad[i], dv[i], ts[i] + F1) - cw[i], "%s: written tuples of matrix %d" % (nm, i)))
        pos = [i for i, e in enumerate(lg) if e[0] == "m" and e[2][0] == "pe"]; ex.record("ensures", "three openings", len(pos) == 3, "normal form (%d)" % len(pos))
        for who, coms, at, v, what in op:
            key = pe_key(coms, at, v, G_[who]); i = [i for i in pos if lg[i][2] == ("pe", who, key)]; ex.record("ensures", what + ": opened against the commitment at the combined point", len(i) == 1, "normal form")
            if len(i) == 1: ensure_bool(ex, st, opened(who, key, tid(lg[:i[0]])), ONE, what + ": the opening is valid"); bound(ex, st, lg, i[0], [v], what)
    def hash_args(ex, st, km, ko, nb, cut=(0,) * 7, cuts=(0, 0, 0)):
        pf, H = hash_proof(nb, cut); cells, N = 1 << km, 1 << ko; cm, cl = commitment(N, nb, cells); gn, G_ = gens(N, nb, cells); dv, der, dp = derefs(N, nb); rmem, rops, rx, ry = L.Ss("rm", km), L.Ss("ro", ko), L.Ss("rx", km), L.Ss("ry", km); rh, rm = L.S("rh"), L.S("rc")
        cl4 = lambda n: [L.S(n + "i"), L.Ss(n + "r", nb), L.Ss(n + "w", nb), L.S(n + "a")]; cr, cc = cl4("cr"), cl4("cc"); cd = L.Ss("cd", 3 * nb); ag = lambda c: Agg([c[0], VecV(c[1]), VecV(c[2]), c[3]]); qq = lambda c: (c[0].p, Q(c[1]), Q(c[2]), c[3].p)
        g(ex, H, Q(rmem), Q(rops), qq(cr), qq(cc), Q(cd), cl, der, G_, Q(rx), Q(ry), rh.p, rm.p)
        return [R(ex, st, pf), Agg([R(ex, st, VecV(rmem)), R(ex, st, VecV(rops))]), R(ex, st, ag(cr)), R(ex, st, ag(cc)), sl(ex, st, cd), R(ex, st, cm), R(ex, st, gn), R(ex, st, dv), sl(ex, st, rx), sl(ex, st, ry), R(ex, st, rh), R(ex, st, rm), tro(ex, st)]
    def err(ex, st, r, a):
        r = rok(r); ensure_bool(ex, st, r.disc, ONE, "refused")
    for km, ko, nb in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (2, 3, 3), (3, 2, 3)):
        def mk(ex, st, km=km, ko=ko, nb=nb): return hash_args(ex, st, km, ko, nb)
        def post(ex, st, r, a):
            r = rok(r); st = st.fork(); st.assume(ONE - r.disc); H, rmem, rops, cr, cc, cd, cl, der, G_, rx, ry, rh, rm = ex.goal; lg = log_of(ex, st, a[12]); cur = Cur(ex, st, fm, lg); eqs = []
            walk_hash(ex, st, lg, cur, H, rmem, rops, cr, cc, cd, cl, der, G_, rx, ry, rh, rm, eqs); cur.end("hash layer"); holds(ex, st, eqs)
        add("HashLayerProof::verify %d cells %d accesses %d matrices" % (1 << km, 1 << ko, nb), HLP + "::verify", mk, post, panic="assume")
    for i, nm in enumerate(("row addresses", "row timestamps", "column addresses", "column timestamps", "values", "row dereferences", "column dereferences")):
        for d, w in ((-1, "few"), (1, "many")):
            def mk(ex, st, i=i, d=d): return hash_args(ex, st, 1, 1, 3, tuple(d if j == i else 0 for j in range(7)))
            add("HashLayerProof::verify: too %s %s" % (w, nm), HLP + "::verify", mk, err, panic="refuse")
    for nm, ct in (("all row addresses moved to the timestamps", (-3, 3, 0, 0, 0, 0, 0)), ("all column addresses moved to the timestamps", (0, 0, -3, 3, 0, 0, 0)), ("no column dereferences", (0, 0, 0, 0, 0, 3, -3)), ("values moved to the column timestamps", (0, 0, 0, 1, -1, 0, 0)), ("all lists one short", (-1,) * 7), ("all lists one long", (1,) * 7)):
        def mk(ex, st, ct=ct): return hash_args(ex, st, 1, 1, 3, ct)
        add("HashLayerProof::verify: %s" % nm, HLP + "::verify", mk, err, panic="refuse")
    for who, nm in (("der", "dereferenced values"), ("ops", "operations"), ("mem", "final timestamps")):
        add("HashLayerProof::verify: invalid opening of the %s" % nm, HLP + "::verify", lambda ex, st: hash_args(ex, st, 1, 1, 3), err, panic="refuse", fail=(who,))
    # ---- product layer
    def prod_proof(km, ko, nb, cut=(0,) * 6):
        n = [nb + c for c in cut]; rr, rw, cr, cw = [L.Ss(x, k) for x, k in zip(("prr", "prw", "pcr", "pcw"), n)]; vl, vr = L.Ss("pvl", n[4]), L.Ss("pvr", n[5]); ia = L.Ss("pia", 4)
        pm, lm, _ = batched("M", layers(km), 4, 0); po, lo, do = batched("O", layers(ko), 4 * nb, 2 * nb)
        v = L.mk(PLP, eval_row=Agg([ia[0], VecV(rr), VecV(rw), ia[1]]), eval_col=Agg([ia[2], VecV(cr), VecV(cw), ia[3]]), eval_val=Agg([VecV(vl), VecV(vr)]), proof_mem=pm, proof_ops=po)
        return v, dict(rr=Q(rr), rw=Q(rw), cr=Q(cr), cw=Q(cw), vl=Q(vl), vr=Q(vr), ia=Q(ia), lm=lm, lo=lo, do=do)
    def walk_prod(ex, st, lg, cur, P_, ev, eqs):
        i0 = cur.i; ri, ra, ci, ca = P_["ia"]
        eqs.append((ri * prod(P_["rw"]) - prod(P_["rr"]) * ra, "row multiset equation: initial times written is read times final")); eqs.append((ci * prod(P_["cw"]) - prod(P_["cr"]) * ca, "column multiset equation: initial times written is read times final"))
        for i, (x, y, e) in enumerate(zip(P_["vl"], P_["vr"], ev)): eqs.append((x + y - e, "the halves of the inner product of matrix %d sum to the claimed evaluation" % i))
        if i0 < len(cur.cs): bound(ex, st, lg, cur.cs[i0][0], P_["ia"] + P_["rr"] + P_["rw"] + P_["cr"] + P_["cw"] + P_["vl"] + P_["vr"], "product layer")
        co, cd, ro = walk_layers(cur, P_["lo"], P_["do"], P_["rr"] + P_["rw"] + P_["cr"] + P_["cw"], [x for q in zip(P_["vl"], P_["vr"]) for x in q], eqs, "accesses")
        cm, _, rm = walk_layers(cur, P_["lm"], ([], [], []), P_["ia"], [], eqs, "cells")
        return cm, rm, co, cd, ro
    for km, ko, nb in ((1, 1, 1), (1, 1, 3), (2, 2, 1), (1, 3, 2), (2, 2, 3)):
        def mk(ex, st, km=km, ko=ko, nb=nb): pf, P_ = prod_proof(km, ko, nb); ev = L.Ss("eva", nb); g(ex, P_, Q(ev)); return [R(ex, st, pf), C(1 << ko), C(1 << km), sl(ex, st, ev), tro(ex, st)]
        def post(ex, st, r, a):
            r = rok(r); st = st.fork(); st.assume(ONE - r.disc); P_, ev = ex.goal; lg = log_of(ex, st, a[4]); cur = Cur(ex, st, fm, lg); eqs = []; w = walk_prod(ex, st, lg, cur, P_, ev, eqs); cur.end("product layer"); holds(ex, st, eqs)
            for v, q, nm in zip(r.pay[0][0].f, w, ("claims about the cells", "point over the cells", "claims about the accesses", "inner product claims", "point over the accesses")): list_eq(ex, st, fm, v, q, nm)
        add("ProductLayerProof::verify %d cells %d accesses %d matrices" % (1 << km, 1 << ko, nb), PLP + "::verify", mk, post, panic="assume")
    for i, nm in enumerate(("row reads", "row writes", "column reads", "column writes", "left halves", "right halves")):
        for d, w in ((-1, "few"), (1, "many")):
            def mk(ex, st, i=i, d=d): pf, P_ = prod_proof(1, 1, 3, tuple(d if j == i else 0 for j in range(6))); return [R(ex, st, pf), C(2), C(2), sl(ex, st, L.Ss("eva", 3)), tro(ex, st)]
            add("ProductLayerProof::verify: too %s %s" % (w, nm), PLP + "::verify", mk, err, panic="refuse")
    L4 = ("row reads", "row writes", "column reads", "column writes")
    for i in range(4):
        for j in range(4):
            if i == j: continue
            def mk(ex, st, i=i, j=j): pf, P_ = prod_proof(1, 1, 3, tuple(1 if q == i else -1 if q == j else 0 for q in range(6))); return [R(ex, st, pf), C(2), C(2), sl(ex, st, L.Ss("eva", 3)), tro(ex, st)]
            add("ProductLayerProof::verify: one of the %s among the %s" % (L4[j], L4[i]), PLP + "::verify", mk, err, panic="refuse")
    # ---- the whole argument
    def sparse_proof(km, ko, nb):
        hp, H = hash_proof(nb); pp, P_ = prod_proof(km, ko, nb); dv, der, dp = derefs(1 << ko, nb)
        return L.mk(SEP, comm_derefs=dv, poly_eval_network_proof=L.mk(PNP, proof_prod_layer=pp, proof_hash_layer=hp)), H, P_, der, dp
    def walk_sparse(ex, st, lg, H, P_, der, dp, cl, G_, rx, ry, ev, eqs, pre=()):
        n = max(len(rx), len(ry)); ext = lambda r: [F0] * (n - len(r)) + r; cur = Cur(ex, st, fm, lg); rh, rm = cur.take(2, list(dp) + list(pre), "memory checking challenges")
        cm, rmem, co, cd, rops = walk_prod(ex, st, lg, cur, P_, ev, eqs); nb = len(ev)
        walk_hash(ex, st, lg, cur, H, rmem, rops, (cm[0], co[:nb], co[nb:2 * nb], cm[1]), (cm[2], co[2 * nb:3 * nb], co[3 * nb:], cm[3]), cd, cl, der, G_, ext(rx), ext(ry), rh, rm, eqs); cur.end("evaluation argument")
    for kx, ky, ko, nb in ((1, 1, 1, 1), (1, 1, 1, 3), (1, 2, 1, 3), (2, 1, 2, 3), (0, 2, 2, 2), (2, 2, 2, 3)):
        def mk(ex, st, kx=kx, ky=ky, ko=ko, nb=nb):
            km = max(kx, ky); pf, H, P_, der, dp = sparse_proof(km, ko, nb); cm, cl = commitment(1 << ko, nb, 1 << km); gn, G_ = gens(1 << ko, nb, 1 << km); rx, ry, ev = L.Ss("x", kx), L.Ss("y", ky), L.Ss("eva", nb)
            g(ex, H, P_, der, dp, cl, G_, Q(rx), Q(ry), Q(ev)); return [R(ex, st, pf), R(ex, st, cm), sl(ex, st, rx), sl(ex, st, ry), sl(ex, st, ev), R(ex, st, gn), tro(ex, st)]
        def post(ex, st, r, a):
            r = rok(r); st = st.fork(); st.assume(ONE - r.disc); eqs = []; walk_sparse(ex, st, log_of(ex, st, a[6]), *ex.goal, eqs); holds(ex, st, eqs)
        add("SparseMatPolyEvalProof::verify 2^%d x 2^%d, %d accesses, %d matrices" % (kx, ky, 1 << ko, nb), SEP + "::verify", mk, post, panic="assume")
    for nm, dk, dx, do in (("a point too short for the commitment", 1, -1, 0), ("a point too long for the commitment", 1, 1, 0), ("a commitment to more accesses", 1, 0, 1), ("a commitment to fewer accesses", 2, 0, -1)):
        def mk(ex, st, dk=dk, dx=dx, do=do):
            km = dk + 1; ko = dk; pf, *_ = sparse_proof(km, ko, 3); cm, cl = commitment(1 << (ko + do), 3, 1 << km); gn, _ = gens(1 << ko, 3, 1 << km); return [R(ex, st, pf), R(ex, st, cm), sl(ex, st, L.Ss("x", km + dx)), sl(ex, st, L.Ss("y", km + dx)), sl(ex, st, L.Ss("eva", 3)), R(ex, st, gn), tro(ex, st)]
        add("SparseMatPolyEvalProof::verify: %s" % nm, SEP + "::verify", mk, err, panic="refuse")
    # ---- completeness
    for nm, nx, ny, sh in [x for x in SHAPES if len(x[3]) == 3 and x[0] != "five"]:
        def mk(ex, st, nx=nx, ny=ny, sh=sh):
            Ms = syms(sh); d = dense_of(nx, ny, Ms); gn, G_ = gens(d[0], 3, d[1]); g(ex); return [sl(ex, st, [R(ex, st, smat(nx, ny, m)) for m in Ms]), sl(ex, st, L.Ss("x", nx)), sl(ex, st, L.Ss("y", ny)), R(ex, st, gn), tro(ex, st), tro(ex, st), R(ex, st, z.tape())]
        def post(ex, st, r, a):
            ensure_bool(ex, st, rok(r).disc, ZERO, "an honest evaluation proof is accepted"); same_log(ex, st, a[4], a[5])
        add("SparseMatPolyEvalProof::prove: %s" % nm, "rvc_roots::sparse_pv", mk, post)
    # ---- R1CS level
    RC, RD, RCG, REP, RSG = "r1csinstance::R1CSCommitment", "r1csinstance::R1CSDecommitment", "r1csinstance::R1CSCommitmentGens", "r1csinstance::R1CSEvalProof", "r1csproof::R1CSGens"
    IN, AS, CC, SG, SN = "Instance", "Assignment", "ComputationCommitment", "SNARKGens", "SNARK"
    def rcomm(nc, nv, ni, ko, nb=3): km = max(log2(nc), log2(2 * nv)); c, cl = commitment(1 << ko, nb, 1 << km); return L.mk(RC, num_cons=C(nc), num_vars=C(nv), num_inputs=C(ni), comm=c), cl, (nc, nv, ni, nb, 1 << ko, 1 << km)
    def comm_bound(ex, st, lg, upto, cl, sizes, what):
        for n, v in zip(("num_cons", "num_vars", "num_inputs", "batch_size", "num_ops", "num_mem_cells"), sizes): ex.record("ensures", "%s: %s is bound" % (what, n), any(e[0] == "m" and e[1] == n.encode() and e[2] == ("u", C(v).key()) for e in lg[:upto]), "normal form")
        bound(ex, st, lg, upto, cl["pts"], what)
    def mat(nx, ny, es): return smat(nx, ny, es)
    def rinst(nc, nv, ni, Ms): return L.mk(RI, num_cons=C(nc), num_vars=C(nv), num_inputs=C(ni), **{n: mat(log2(nc), log2(2 * nv), m) for n, m in zip("ABC", Ms)})
    for nc, nv, ni, ko in ((2, 2, 1, 1), (4, 2, 0, 2), (2, 8, 3, 3)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, ko=ko): c, cl, sz = rcomm(nc, nv, ni, ko); g(ex, cl, sz); return [R(ex, st, c), tro(ex, st)]
        def post(ex, st, r, a): lg = log_of(ex, st, a[1]); comm_bound(ex, st, lg, len(lg), ex.goal[0], ex.goal[1], "commitment"); ex.record("ensures", "nothing is drawn", not any(e[0] == "ch" for e in lg), "normal form")
        add("R1CSCommitment::append_to_transcript %d %d %d" % (nc, nv, ni), "rvc_roots::r1cs_comm_append", mk, post)
    def eval_gens_ok(ex, st, r, nx, ny, nnz):
        N = padded(nnz)
        for f, nv in (("gens_ops", log2(N) + 4), ("gens_mem", max(nx, ny) + 1), ("gens_derefs", log2(N) + 3)): ensure_int(ex, st, L.get(DG, L.get(PG, L.get(CG, L.get(RCG, r, "gens"), f), "gens"), "n"), C(1 << (nv - nv // 2)), f + ": generators for one row of the committed matrix")
    for nc, nv, ni, nnz in ((2, 2, 1, 0), (2, 2, 1, 1), (4, 2, 0, 3), (2, 8, 3, 4), (1, 1, 0, 1), (3, 2, 1, 5)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, nnz=nnz): return [ref(ex, st, Agg([C(x) for x in b"lab"])), C(nc), C(nv), C(ni), C(nnz)]
        def post(ex, st, r, a, nc=nc, nv=nv, nnz=nnz): eval_gens_ok(ex, st, r, log2(np2(nc)), log2(2 * nv), nnz)
        add("R1CSCommitmentGens::new %d %d %d %d" % (nc, nv, ni, nnz), RCG + "::new", mk, post)
    for nc, nv, ni, nnz in ((2, 2, 1, 1), (3, 3, 1, 5), (2, 1, 5, 2), (5, 4, 4, 0), (2, 4, 3, 8)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, nnz=nnz): return [C(nc), C(nv), C(ni), C(nnz)]
        def post(ex, st, r, a, nc=nc, nv=nv, ni=ni, nnz=nnz):
            m = np2(max(nv, ni + 1)); k = log2(m); ensure_int(ex, st, L.get(DG, L.get(PG, L.get(RSG, L.get(SG, r, "gens_r1cs_sat"), "gens_pc"), "gens"), "n"), C(1 << (k - k // 2)), "satisfiability: generators for one row of the witness matrix")
            eval_gens_ok(ex, st, L.get(SG, r, "gens_r1cs_eval"), log2(np2(nc)), log2(2 * m), nnz)
        add("SNARKGens::new %d %d %d %d" % (nc, nv, ni, nnz), SG + "::new", mk, post)
    def rgens(N, km): gn, G_ = gens(N, 3, 1 << km); return L.mk(RCG, gens=gn), G_
    for nm, nx, ny, sh in [x for x in SHAPES if x[0] in ("two", "tall", "four")]:
        def mk(ex, st, nx=nx, ny=ny, sh=sh):
            Ms = syms(sh); d = dense_of(nx, ny, Ms); gn, G_ = rgens(d[0], max(nx, ny)); g(ex, d, G_, (1 << nx, 1 << ny >> 1)); return [R(ex, st, rinst(1 << nx, 1 << ny >> 1, 0, Ms)), R(ex, st, gn)]
        def post(ex, st, r, a):
            d, G_, (nc, nv) = ex.goal; N, cells, row, col, val, rt, ct = d; rc, rd = r.f; cm = L.get(RC, rc, "comm"); dn = L.get(RD, rd, "dense")
            for f, w in (("num_cons", nc), ("num_vars", nv), ("num_inputs", 0)): ensure_int(ex, st, L.get(RC, rc, f), C(w), f)
            for f, w in (("batch_size", 3), ("num_ops", N), ("num_mem_cells", cells)): ensure_int(ex, st, L.get(CM, cm, f), C(w), f)
            for f, zs, q in (("comm_comb_ops", comb_ops(d), "ops"), ("comm_comb_mem", comb_mem(d), "mem")):
                xs = seqof(ex, st, L.get(PC, L.get(CM, cm, f), "C")); ws = rowcom(zs, G_[q]); ex.record("ensures", f + ": number of shares", len(xs) == len(ws), "normal form (%d)" % len(xs))
                for i, (x, w) in enumerate(zip(xs, ws)): ceq(ex, st, x, w, "%s %d: the rows of A, B, C in this order" % (f, i))
            denses(ex, st, L.get(MD, dn, "val"), val, "values")
        add("R1CSInstance::commit: %s" % nm, RI + "::commit", mk, post)
    def snark_claims(ex, st, lg, ev, what):
        """the three claimed evaluations, in this order under their labels"""
        pos = [[i for i, e in enumerate(lg) if e == ("m", n, ("s", v.key()))] for n, v in zip((b"Ar_claim", b"Br_claim", b"Cr_claim"), ev)]
        ex.record("ensures", what + ": the claimed evaluations of A, B, C are bound before the evaluation argument", all(pos) and all(q[0] < next((i for i, e in enumerate(lg) if e[0] == "ch"), -1) for q in pos), "normal form")
    for nc, nv, ni, ko in ((2, 1, 0, 1), (4, 2, 1, 1), (2, 4, 2, 2)):
        km = max(log2(nc), log2(2 * nv))
        def mk(ex, st, nc=nc, nv=nv, ni=ni, ko=ko, km=km):
            c, cl, sz = rcomm(nc, nv, ni, ko); pf, H, P_, der, dp = sparse_proof(km, ko, 3); gn, G_ = rgens(1 << ko, km); rx, ry = L.Ss("x", log2(nc)), L.Ss("y", log2(2 * nv)); ev = L.Ss("eva", 3)
            g(ex, H, P_, der, dp, cl, G_, Q(rx), Q(ry), Q(ev)); return [R(ex, st, L.mk(REP, proof=pf)), R(ex, st, c), sl(ex, st, rx), sl(ex, st, ry), R(ex, st, Agg(ev)), R(ex, st, gn), tro(ex, st)]
        def post(ex, st, r, a):
            r = rok(r); st = st.fork(); st.assume(ONE - r.disc); eqs = []; walk_sparse(ex, st, log_of(ex, st, a[6]), *ex.goal, eqs); holds(ex, st, eqs)
        add("R1CSEvalProof::verify %d constraints %d variables" % (nc, nv), REP + "::verify", mk, post, panic="assume")
    def snark_args(ex, st, nc, nv, ni, ko, di=0):
        km = max(log2(nc), log2(2 * nv)); c, cl, sz = rcomm(nc, nv, ni, ko); pf, H, P_, der, dp = sparse_proof(km, ko, 3); gn, G_ = rgens(1 << ko, km); ev = L.Ss("eva", 3); inp = L.Ss("in", ni + di)
        sn = L.mk(SN, r1cs_sat_proof=Obj("r1", ("sat",)), inst_evals=Agg(ev), r1cs_eval_proof=L.mk(REP, proof=pf)); g(ex, H, P_, der, dp, cl, G_, Q(ev), Q(inp), sz)
        return [R(ex, st, sn), R(ex, st, L.mk(CC, comm=c)), R(ex, st, L.mk(AS, assignment=VecV(inp))), tro(ex, st), R(ex, st, L.mk(SG, gens_r1cs_sat=Obj("r1g", (nv,)), gens_r1cs_eval=gn))]
    for nc, nv, ni, ko in ((2, 2, 1, 1), (4, 2, 0, 2), (2, 4, 2, 1)):
        def mk(ex, st, nc=nc, nv=nv, ni=ni, ko=ko): return snark_args(ex, st, nc, nv, ni, ko)
        def post(ex, st, r, a):
            H, P_, der, dp, cl, G_, ev, inp, sz = ex.goal; r = rok(r); st = st.fork(); st.assume(ONE - r.disc); lg = log_of(ex, st, a[3]); nc, nv, ni = sz[:3]
            pos = [i for i, e in enumerate(lg) if e[0] == "m" and e[2][0] == "r1"]; ex.record("ensures", "the satisfiability proof is checked once", len(pos) == 1, "normal form")
            if len(pos) != 1: return
            key = r1_key(nv, nc, inp, ev, nv); t = tid(lg[:pos[0]]); ex.record("ensures", "the satisfiability proof is checked for this size, these inputs and these claims", lg[pos[0]][2] == ("r1", "sat", key), "normal form")
            comm_bound(ex, st, lg, pos[0], cl, sz, "commitment to the computation"); ex.record("ensures", "nothing is drawn before", not any(e[0] == "ch" for e in lg[:pos[0]]), "normal form")
            ensure_bool(ex, st, satbit("sat", key, t), ONE, "the satisfiability proof is accepted"); snark_claims(ex, st, lg, ev, "claims"); eqs = []; rx, ry = r1_points(fm, nc, nv, t)
            walk_sparse(ex, st, lg, H, P_, der, dp, cl, G_, rx, ry, ev, eqs, pre=ev); holds(ex, st, eqs)
        add("SNARK::verify %d constraints %d variables %d inputs, %d entries" % (nc, nv, ni, 1 << ko), SN + "::verify", mk, post, panic="assume")
    for di in (-1, 1): add("SNARK::verify: %s input" % ("one missing" if di < 0 else "an extra"), SN + "::verify", lambda ex, st, di=di: snark_args(ex, st, 2, 2, 1, 1, di), err, panic="refuse")
    add("SNARK::verify: invalid satisfiability proof", SN + "::verify", lambda ex, st: snark_args(ex, st, 2, 2, 1, 1), err, panic="refuse", fail=("sat",))
    for who, nm in (("der", "dereferenced values"), ("ops", "operations"), ("mem", "final timestamps")): add("SNARK::verify: invalid opening of the %s" % nm, SN + "::verify", lambda ex, st: snark_args(ex, st, 2, 2, 1, 1), err, panic="refuse", fail=(who,))
    def sat_inst(nc, nv, ni, how):
        """a satisfied instance: rows of the form (sum) * (sum) = (constant) with a symbolic witness, or sparser"""
        v = L.Ss("v", nv); x = L.Ss("x", ni); zz = Q(v) + [F1] + Q(x); A, B_, C_ = [], [], []
        for i in range(nc):
            j, k = i % nv, nv + i % (ni + 1)
            if how == "empty": continue
            if how == "one" and i: continue
            A.append((i, j, L.S("ca%d" % i).p)); B_.append((i, k, L.S("cb%d" % i).p)); C_.append((i, nv, A[-1][2] * zz[j] * B_[-1][2] * zz[k]))
            if how == "two": A.append((i, nv, F1)); C_.append((i, k, B_[-1][2]))
        return v, x, (A, B_, C_)
    for nc, nv, ni, how in ((2, 2, 1, "one"), (2, 2, 0, "empty"), (2, 2, 1, "full"), (4, 2, 1, "one"), (4, 2, 0, "full"), (2, 2, 1, "two")):
        for short in ((0, 1) if how == "one" else (0,)):
            def mk(ex, st, nc=nc, nv=nv, ni=ni, how=how, short=short):
                v, x, Ms = sat_inst(nc, nv, ni, how); N = max(padded(len(m)) for m in Ms); km = max(log2(nc), log2(2 * nv)); gn, G_ = rgens(N, km)
                if short: v = v[:-1]
                return [R(ex, st, L.mk(IN, inst=rinst(nc, nv, ni, Ms), digest=VecV([Opq("digest")]))), L.mk(AS, assignment=VecV(v)), R(ex, st, L.mk(AS, assignment=VecV(x))), R(ex, st, L.mk(SG, gens_r1cs_sat=Obj("r1g", (nv,)), gens_r1cs_eval=gn)), tro(ex, st), tro(ex, st)]
            def post(ex, st, r, a, nc=nc, nv=nv):
                ensure_bool(ex, st, rok(r.f[1]).disc, ZERO, "an honest proof of a satisfied instance is accepted"); same_log(ex, st, a[4], a[5])
            add("SNARK::prove %d constraints %d variables %d inputs, %s%s" % (nc, nv, ni, how, ", short assignment" if short else ""), "rvc_roots::snark_pv", mk, post)
    return U
def r1_key(nv, nc, inp, ev, gnv): return (nv, nc, tuple(x.key() for x in inp), tuple(x.key() for x in ev), gnv)
def satbit(who, key, t): return Poly.atom(new_atom("sat", "var", 0, 1, key=("r1ok", who, key, t)))
def r1_points(fm, nc, nv, t):
    q = [Poly.atom(new_atom("r1p", "felt", key=("felt", "r1 point", t, i)), p) for i in range(log2(nc) + log2(2 * nv))]; return q[:log2(nc)], q[log2(nc):]
def r1_contracts(L, fm):
    """R1CSProof::prove and verify (S08 discharges both): the prover's instance must be satisfied"""
    def gnv(ex, st, x):
        x = deref(ex, st, x)
        if not (isinstance(x, Obj) and x.k == "r1g"): raise Unsupported("generators of the R1CS proof")
        return x.d[0]
    def pts(fm, nc, nv, t): rx, ry = r1_points(fm, nc, nv, t); return VecV([FE(x, fm.spec) for x in rx]), VecV([FE(x, fm.spec) for x in ry])
    def once(ex, st, t, e):
        out = []
        def f(i): out.append(i); return tid(TR[i] + (e(i),)), None
        tmap(ex, st, t, f)
        if len(out) != 1: raise Unsupported("R1CS proof over a conditional transcript")
        return out[0]
    def prove(ex, st, fn, args):
        inst, vs, inp, gn, t, tape = args; inst = deref(ex, st, inst); nc, nv, ni = [L.get(RI, inst, f).cval() for f in ("num_cons", "num_vars", "num_inputs")]
        v = [sval(ex, st, fm, x) for x in seqof(ex, st, vs)]; x = [sval(ex, st, fm, y) for y in seqof(ex, st, inp)]; zz = v + [F1] + x
        okk = len(v) == nv and len(x) == ni and gnv(ex, st, gn) == nv; ex.record("requires", "R1CS proof: one value per variable and input, generators for that many variables", okk, "normal form (%d, %d)" % (len(v), len(x)))
        if not okk: raise Unsupported("R1CS proof of the wrong shape")
        Ms = [[(L.get(ME, e, "row").cval(), L.get(ME, e, "col").cval(), sval(ex, st, fm, L.get(ME, e, "val"))) for e in seqof(ex, st, L.get(SM, L.get(RI, inst, n), "M"))] for n in "ABC"]
        for i in range(nc):
            A, B_, C_ = [sum((w * zz[k] for j, k, w in M if j == i), F0) for M in Ms]; q, how, info = ex.solver.prove_fzero(A * B_ - C_, st.pc); ex.record("requires", "R1CS proof: constraint %d is satisfied" % i, q, how, info)
        t0 = once(ex, st, t, lambda i: ("m", b"r1", ("r1", "h", (nv, nc, tuple(y.key() for y in x), nv)))); rx, ry = r1_points(fm, nc, nv, t0)
        ex_, ey = eq_table(rx, F1), eq_table(ry, F1); ev = [sum((w * ex_[j] * ey[k] for j, k, w in M), F0) for M in Ms]
        return Agg([Obj("r1", ("h", r1_key(nv, nc, x, ev, nv), t0))] + list(pts(fm, nc, nv, t0)))
    def verify(ex, st, fn, args):
        pr, nv, nc, inp, ev, t, gn = args; pr = deref(ex, st, pr); nv, nc = nv.cval(), nc.cval(); x = [sval(ex, st, fm, y) for y in seqof(ex, st, inp)]; key = r1_key(nv, nc, x, [sval(ex, st, fm, y) for y in deref(ex, st, ev).f], gnv(ex, st, gn)); who = pr.d[0]
        t0 = once(ex, st, t, lambda i: ("m", b"r1", ("r1", who, key if who != "h" else (key[0], key[1], key[2], key[4]))))
        if who == "h": okv = ONE if pr.d[1:] == (key, t0) else satbit(who, key, t0)
        elif who in FAIL: okv = ZERO
        else: okv = ONE; st.assume(satbit(who, key, t0))
        return Enum(ONE - okv, {0: (Agg(list(pts(fm, nc, nv, t0))),), 1: (Enum(ZERO, {0: ()}),)})
    return {"r1csproof::R1CSProof::prove": prove, "r1csproof::R1CSProof::verify": verify}
def contracts(prog, fm): return dict(eval_contracts(Lib(prog, fm), fm), **r1_contracts(Lib(prog, fm), fm))
