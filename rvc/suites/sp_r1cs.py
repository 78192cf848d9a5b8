"""R1CS instances of Spartan-secq: construction and padding (lib.rs), satisfiability and matrix products (r1csinstance.rs, sparse_mlpoly.rs)"""
from .spartan import *
RI = "r1csinstance::R1CSInstance"; SM = "sparse_mlpoly::SparseMatPolynomial"; ME = "sparse_mlpoly::SparseMatEntry"; DP = "dense_mlpoly::DensePolynomial"
def np2(n):
    r = 1
    while r < n: r *= 2
    return r
def log2(n): return n.bit_length() - 1
def contracts(prog):
    d = {}
    d["timer::Timer::print"] = lambda ex, st, fn, args: Agg([])
    d["timer::Timer::new"] = lambda ex, st, fn, args: Opq("timer")
    d["timer::Timer::stop"] = lambda ex, st, fn, args: Agg([])
    d["r1csinstance::R1CSInstance::get_digest"] = lambda ex, st, fn, args: VecV([Opq("digest")])
    return d
def deb(n): return n % p
# ---- reference semantics on plain integers
def mulv(M, n, z):
    r = [0] * n
    for i, j, v in M: r[i] = (r[i] + v * z[j]) % p
    return r
def sat(nc, A, B, C_, z): return all((a * b - c) % p == 0 for a, b, c in zip(mulv(A, nc, z), mulv(B, nc, z), mulv(C_, nc, z)))
def enc_m(M): return ",".join("%d:%d:%s" % (i, j, (v % 2**256).to_bytes(32, "little").hex()) for i, j, v in M) or "-"
def o_inst(nc, nv, ni, A, B, C_, vs=None, xs=None):
    """what Instance::new followed by is_sat answers"""
    for M in (A, B, C_):
        for i, j, v in M:
            if i >= nc or j >= nv + 1 + ni: return "InvalidIndex"
            if v >= p: return "InvalidScalar"
    if vs is None: return None
    for v in list(vs) + list(xs):
        if v >= p: return "InvalidScalar"
    pad = np2(max(nv, ni + 1))
    if len(vs) > pad or len(xs) != ni: return "InvalidNumberOfInputs"
    z = (list(vs) + [0] * pad)
    zz = [z[k] for k in range(nv)] + [1] + list(xs)
    return "true" if sat(nc, A, B, C_, zz) else "false"
def gen_inst(satbias):
    def f(rng):
        nc, nv, ni = rng.randrange(0, 6), rng.randrange(0, 6), rng.randrange(0, 5)
        vs = [rsc(rng) for _ in range(nv)]; xs = [rsc(rng) for _ in range(ni)]
        if rng.random() < .3: vs = vs[:rng.randrange(len(vs) + 1)]
        if rng.random() < .1: vs += [rsc(rng)] * rng.randrange(1, 6)
        if rng.random() < .05: xs = xs + [1]
        W = nv + 1 + ni
        M = [[], [], []]
        if nc:
            for m in M[:2]:
                for _ in range(rng.randrange(0, 6)): m.append((rng.randrange(nc), rng.randrange(W), rsc(rng)))
            z = (vs + [0] * nv)[:nv] + [1] + (xs + [0] * ni)[:ni]
            if satbias:
                a, b = mulv(M[0], nc, z), mulv(M[1], nc, z)
                for i in range(nc):
                    t = a[i] * b[i] % p
                    if rng.random() < .5 and z[:nv]:
                        j = rng.randrange(nv); w = rsc(rng); M[2].append((i, j, w)); t = (t - w * z[j]) % p
                    M[2].append((i, nv, t))
                if rng.random() < .4:
                    k = rng.randrange(len(M[2])); i, j, v = M[2][k]; M[2][k] = (i, j, (v + 1) % p)
            else:
                for _ in range(rng.randrange(0, 5)): M[2].append((rng.randrange(nc), rng.randrange(W), rsc(rng)))
        if rng.random() < .15 and M[0]:
            i, j, v = M[0][-1]; M[0][-1] = rng.choice([(nc, j, v), (i, W, v), (i, j, p), (i, j, 2**256 - 1), (i, W - 1, p - 1), (i + nc, j, v)])
        return (nc, nv, ni, M[0], M[1], M[2], vs, xs)
    return f
def enc_inst(t): return "%d %d %d %s %s %s %s %s" % (t[0], t[1], t[2], enc_m(t[3]), enc_m(t[4]), enc_m(t[5]), encr(t[6]), encr(t[7]))
def encr(v): return "".join((x % 2**256).to_bytes(32, "little").hex() for x in v) or "-"

def units(prog, fm):
    L = Lib(prog, fm); U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "r1cs"); kw.setdefault("bounded", "matrix shape enumerated, values symbolic"); U.append(Unit(name, fn, mk, post, **kw))
    def g(ex, *a): ex.goal = a
    def mat(nx, ny, es): return L.mk(SM, num_vars_x=C(nx), num_vars_y=C(ny), M=VecV([L.mk(ME, row=C(i), col=C(j), val=v) for i, j, v in es]))
    def inst(nc, nv, ni, Ms):
        nx, ny = log2(nc), log2(2 * nv)
        return L.mk(RI, num_cons=C(nc), num_vars=C(nv), num_inputs=C(ni), **{n: mat(nx, ny, m) for n, m in zip("ABC", Ms)})
    shapes = [(2, 2, 1, [(0, 0), (1, 2)], [(0, 1), (1, 3)], [(0, 3), (1, 1)]),
              (2, 1, 0, [(0, 0), (0, 1), (1, 0)], [(1, 1)], [(0, 1)]),
              (4, 4, 2, [(0, 0), (1, 1), (2, 2), (3, 3), (0, 0)], [(0, 4), (1, 5), (2, 6), (3, 0)], [(3, 5), (0, 2), (2, 4)]),
              (2, 2, 0, [], [(0, 0)], []), (1, 1, 0, [(0, 0)], [(0, 0)], [(0, 1)]),
              (4, 2, 1, [(3, 0), (3, 1), (3, 2), (3, 3)], [(3, 2)], [(3, 3)])]
    def sym(sh):
        return [[(i, j, L.S("%s%d" % (n, k))) for k, (i, j) in enumerate(m)] for n, m in zip("abc", sh[3:])]
    def pm(M, n, z):
        r = [F0] * n
        for i, j, v in M: r[i] = r[i] + v.p * z[j]
        return r
    for k, sh in enumerate(shapes):
        nc, nv, ni = sh[:3]
        def mk_sat(ex, st, sh=sh):
            Ms = sym(sh); vs = L.Ss("v", sh[1]); xs = L.Ss("x", sh[2]); z = Q(vs) + [F1] + Q(xs)
            g(ex, [pm(M, sh[0], z) for M in Ms]); return [ref(ex, st, inst(*sh[:3], Ms)), sl(ex, st, vs), sl(ex, st, xs)]
        def post_sat(ex, st, r, a):
            A, B, Cc = ex.goal[0]; q = ONE
            for x, y, w in zip(A, B, Cc): q = q * feq0(x * y - w)
            ensure_bool(ex, st, r, q, "true exactly when every constraint holds")
        add("R1CSInstance::is_sat #%d" % k, RI + "::is_sat", mk_sat, post_sat)
        def mk_mv(ex, st, sh=sh):
            Ms = sym(sh); n = sh[1] + 1 + sh[2]; z = L.Ss("z", n)
            g(ex, [pm(M, sh[0], Q(z)) for M in Ms]); return [ref(ex, st, inst(*sh[:3], Ms)), C(sh[0]), C(n), sl(ex, st, z)]
        def post_mv(ex, st, r, a):
            for n, v, w in zip("ABC", r.f, ex.goal[0]): list_eq(ex, st, fm, L.get(DP, v, "Z"), w, n + " z")
        add("R1CSInstance::multiply_vec #%d" % k, RI + "::multiply_vec", mk_mv, post_mv)
        def mk_ct(ex, st, sh=sh):
            Ms = sym(sh); n = 2 * sh[1]; e = L.Ss("e", sh[0]); out = []
            for M in Ms:
                t = [F0] * max(n, sh[1] + 1 + sh[2])
                for i, j, v in M: t[j] = t[j] + e[i].p * v.p
                out.append(t)
            g(ex, out); return [ref(ex, st, inst(*sh[:3], Ms)), C(sh[0]), C(len(out[0])), sl(ex, st, e)]
        def post_ct(ex, st, r, a):
            for n, v, w in zip("ABC", r.f, ex.goal[0]): list_eq(ex, st, fm, v, w, "row combination of " + n)
        add("R1CSInstance::compute_eval_table_sparse #%d" % k, RI + "::compute_eval_table_sparse", mk_ct, post_ct)
        def mk_ev(ex, st, sh=sh):
            Ms = sym(sh); rx = L.Ss("rx", log2(sh[0])); ry = L.Ss("ry", log2(2 * sh[1])); tx = eq_table(Q(rx), F1); ty = eq_table(Q(ry), F1); out = []
            for M in Ms:
                t = F0
                for i, j, v in M: t = t + tx[i] * ty[j] * v.p
                out.append(t)
            g(ex, out); return [ref(ex, st, inst(*sh[:3], Ms)), sl(ex, st, rx), sl(ex, st, ry)]
        def post_ev(ex, st, r, a):
            for n, v, w in zip("ABC", r.f, ex.goal[0]): feq(ex, st, fm, v, w, n + "(rx,ry)")
        def or_ev(t, nx=log2(nc), ny=log2(2 * nv)):
            A, B, Cc, rx, ry = t
            return " ".join(e1(sum(eq_table(rx, 1)[i] * eq_table(ry, 1)[j] * v for i, j, v in M)) for M in (A, B, Cc))
        if sh[1] >= 1: add("R1CSInstance::evaluate #%d" % k, RI + "::evaluate", mk_ev, post_ev,
            rp=("r1cs", "evaluate", [(gx(lambda rng, sh=sh: tuple([[(i, j, rsc(rng)) for i, j in m] for m in sh[3:]] + [[rsc(rng) for _ in range(log2(sh[0]))], [rsc(rng) for _ in range(log2(2 * sh[1]))]]),
                lambda t, sh=sh: "%d %d %d %s %s %s %s %s" % (sh[0], sh[1], sh[2], enc_m(t[0]), enc_m(t[1]), enc_m(t[2]), enc(t[3]), enc(t[4]))), "t")], or_ev))
    # ---- sparse matrix products on their own, incl. repeated coordinates
    for n in range(1, 5):
        def mk_nz(ex, st, n=n):
            return [ref(ex, st, mat(1, 1, [(0, 0, L.S("v%d" % i)) for i in range(n)]))]
        add("get_num_nz_entries %d" % n, SM + "::get_num_nz_entries", mk_nz, lambda ex, st, r, a, n=n: ensure_int(ex, st, r, C(max(np2(n), 2)), "entries rounded to a power of two of at least two"))
    # ---- Assignment
    AS = "Assignment"
    def byts(ex, st, n, pre):
        out = []; ints = []
        for i in range(n):
            b = int_args(ex, 32, 8, pre="%s%d_" % (pre, i)); out.append(Agg(b)); ints.append(le_int(b))
        return out, ints
    def E(v): return merge_enum(v) if isinstance(v, Phi) else v
    for n in range(4):
        def mk_as(ex, st, n=n):
            o, ints = byts(ex, st, n, "b"); g(ex, ints); return [sl(ex, st, o)]
        def post_as(ex, st, r, a):
            q = ONE
            for x in ex.goal[0]: q = q * lt0(x - p)
            r = E(r)
            ensure_bool(ex, st, r.disc, ONE - q, "refused exactly when an element is not below the modulus")
            s2 = st.fork(); s2.assume(q)
            vs = L.get(AS, r.pay[0][0], "assignment")
            if isinstance(vs, Phi): raise Unsupported("merged assignment")
            list_eq(ex, s2, fm, vs, [x.tofield(p) for x in ex.goal[0]], "assignment")
        add("Assignment::new %d" % n, AS + "::new", mk_as, post_as, bounded="vector length",
            rp=("r1cs", "assign", [(gx(lambda rng, n=n: [rng.choice([rsc(rng), rsc(rng), rsc(rng), rsc(rng), p, p - 1, p + 1, 2**256 - 1]) for _ in range(n)], encr), "v")], lambda v: "ok " + encr(v) if all(x < p for x in v) else "InvalidScalar"))
        for m in (n + 1, n + 3):
            def mk_pad(ex, st, n=n, m=m):
                v = L.Ss("v", n); g(ex, Q(v) + [F0] * (m - n)); return [ref(ex, st, L.mk(AS, assignment=VecV(v))), C(m)]
            add("Assignment::pad %d->%d" % (n, m), AS + "::pad", mk_pad, lambda ex, st, r, a: list_eq(ex, st, fm, L.get(AS, r, "assignment"), ex.goal[0], "padded with zeros"), bounded="vector length")
    # ---- Instance::new: padding, index and scalar checks, column shift
    IN = "Instance"
    grid = [(2, 2, 1, (1, 1, 1)), (3, 3, 1, (2, 1, 0)), (1, 1, 0, (1, 0, 0)), (0, 1, 0, (0, 0, 0)), (5, 1, 4, (1, 0, 1)), (4, 4, 3, (1, 0, 0)), (1, 0, 0, (0, 1, 0)), (2, 5, 2, (0, 0, 1)), (1, 3, 3, (2, 0, 0))]
    for k, (nc, nv, ni, ns) in enumerate(grid):
        def mk_new(ex, st, nc=nc, nv=nv, ni=ni, ns=ns):
            Ms = []; gs_ = []
            for nm, n in zip("abc", ns):
                o, ints = byts(ex, st, n, nm); es = []; ge = []
                for i in range(n):
                    r_, c_ = int_args(ex, 2, 64, pre="%srow%d_" % (nm, i)); es.append(Agg([r_, c_, o[i]])); ge.append((r_, c_, ints[i]))
                Ms.append(sl(ex, st, es)); gs_.append(ge)
            g(ex, gs_); return [C(nc), C(nv), C(ni)] + Ms
        def post_new(ex, st, r, a, nc=nc, nv=nv, ni=ni):
            pc, pv = np2(max(nc, 2)), np2(max(nv, ni + 1))
            q = ONE
            for M in ex.goal[0]:
                for i, j, v in M: q = q * lt0(i - nc) * lt0(j - (nv + 1 + ni)) * lt0(v - p)
            r = E(r)
            ensure_bool(ex, st, r.disc, ONE - q, "refused exactly when an index or a value is out of range")
            s2 = st.fork(); s2.assume(q)
            if not ex.feasible(s2): return
            v = L.get(IN, r.pay[0][0], "inst")
            for nm, w in (("num_cons", pc), ("num_vars", pv), ("num_inputs", ni)): ensure_int(ex, s2, L.get(RI, v, nm), C(w), nm)
            for nm, M in zip("ABC", ex.goal[0]):
                m = L.get(RI, v, nm)
                ensure_int(ex, s2, L.get(SM, m, "num_vars_x"), C(log2(pc)), nm + " row variables"); ensure_int(ex, s2, L.get(SM, m, "num_vars_y"), C(log2(2 * pv)), nm + " column variables")
                es = seqof(ex, s2, L.get(SM, m, "M"))
                ex.record("ensures", nm + ": at least the given entries", len(es) >= len(M), "normal form")
                for x, (i, j, val) in zip(es, M):
                    ensure_int(ex, s2, L.get(ME, x, "row"), i, nm + " row")
                    ensure_int(ex, s2, L.get(ME, x, "col"), merge_val(lt0(j - nv), j, j + (pv - nv)), nm + " column, shifted past the padding when it is the constant or an input")
                    feq(ex, s2, fm, L.get(ME, x, "val"), val.tofield(p), nm + " value")
                for x in es[len(M):]: feq(ex, s2, fm, L.get(ME, x, "val"), F0, nm + ": padding entries are zero")
                for x in es[len(M):]:
                    for f_, w in (("row", pc), ("col", 2 * pv)):
                        y = L.get(ME, x, f_); ensure_bool(ex, s2, lt0(y - w), ONE, nm + ": padding entry in range")
        add("Instance::new %d x %d, %d inputs #%d" % (nc, nv, ni, k), IN + "::new", mk_new, post_new, bounded="sizes enumerated; rows, columns and values symbolic",
            rp=("r1cs", "dims", [(("dec", 0, 70), "nc"), (("dec", 0, 70), "nv"), (("dec", 0, 70), "ni")], lambda nc, nv, ni: "%d %d %d" % (np2(max(nc, 2)), np2(max(nv, ni + 1)), ni)) if k == 3 else None)
    # ---- Instance::is_sat: padding and length checks
    for k, (nc, nv, ni, nvv, nx) in enumerate([(2, 2, 1, 2, 1), (2, 4, 1, 2, 1), (2, 2, 1, 3, 1), (2, 2, 1, 2, 2), (2, 2, 1, 1, 0), (2, 1, 0, 0, 0)]):
        W = nv + 1 + ni
        def mk_is(ex, st, nc=nc, nv=nv, ni=ni, nvv=nvv, nx=nx, W=W):
            Ms = [[(i, j, L.S("%s%d_%d" % (n, i, j))) for i in range(nc) for j in range(W) if (i + j + k2) % 2] for k2, n in enumerate("abc")]
            vs = L.Ss("v", nvv); xs = L.Ss("x", nx)
            g(ex, Ms, Q(vs), Q(xs)); return [ref(ex, st, L.mk(IN, inst=inst(nc, nv, ni, Ms), digest=VecV([Opq("digest")]))), ref(ex, st, L.mk(AS, assignment=VecV(vs))), ref(ex, st, L.mk(AS, assignment=VecV(xs)))]
        def post_is(ex, st, r, a, nc=nc, nv=nv, ni=ni, nvv=nvv, nx=nx):
            r = E(r); Ms, vs, xs = ex.goal
            if nvv > nv or nx != ni: ensure_bool(ex, st, r.disc, ONE, "an error, no answer"); return
            ensure_bool(ex, st, r.disc, ZERO, "answers")
            z = vs + [F0] * (nv - nvv) + [F1] + xs; q = ONE
            for x, y, w in zip(*[pm(M, nc, z) for M in Ms]): q = q * feq0(x * y - w)
            ensure_bool(ex, st, r.pay[0][0], q, "true exactly when the padded assignment satisfies every constraint")
        add("Instance::is_sat #%d" % k, IN + "::is_sat", mk_is, post_is,
            rp=("r1cs", "inst_sat", [(gx(gen_inst(k % 2 == 0), enc_inst), "t")], lambda t: o_inst(*t)))
    # ---- synthetic instances really are satisfied: exercised on the compiled code only through R1CSProof completeness (S08)
    return U
