"""multilinear and univariate polynomials of Spartan-secq (dense_mlpoly.rs, unipoly.rs, the evaluation parts of sparse_mlpoly.rs)"""
from .spartan import *
D = "dense_mlpoly::"
def units(prog, fm):
    L = Lib(prog, fm); U = []
    def add(name, fn, mk, post, **kw):
        kw.setdefault("tag", "ml"); kw.setdefault("bounded", "shape enumerated, contents symbolic"); U.append(Unit(name, fn, mk, post, **kw))
    def g(ex, *a): ex.goal = a
    M = lambda ops: ("ml",) + ops
    DP = D + "DensePolynomial"
    Zof = lambda v: L.get(DP, v, "Z")
    for n in range(6):
        def mk_ev(ex, st, n=n):
            r = L.Ss("r", n); g(ex, Q(r)); return [ref(ex, st, L.eq(r))]
        add("EqPolynomial::evals %d" % n, D + "EqPolynomial::evals", mk_ev, lambda ex, st, r, a: list_eq(ex, st, fm, r, eq_table(ex.goal[0], F1), "eq table"),
            rp=("ml", "eq_evals", [(gl(n), "r")], lambda r: enc([x % p for x in eq_table(r, 1)])))
        def mk_fe(ex, st, n=n):
            r = L.Ss("r", n); g(ex, Q(r)); return [ref(ex, st, L.eq(r))]
        def post_fe(ex, st, r, a):
            rr = ex.goal[0]; h = len(rr) // 2; A, B_ = r.f
            list_eq(ex, st, fm, A, eq_table(rr[:h], F1), "left factor"); list_eq(ex, st, fm, B_, eq_table(rr[h:], F1), "right factor")
        add("EqPolynomial::compute_factored_evals %d" % n, D + "EqPolynomial::compute_factored_evals", mk_fe, post_fe,
            rp=("ml", "eq_factored", [(gl(n), "r")], lambda r: enc(eq_table(r[:len(r) // 2], 1)) + " " + enc(eq_table(r[len(r) // 2:], 1))))
        def mk_ee(ex, st, n=n):
            r = L.Ss("r", n); x = L.Ss("x", n); g(ex, Q(r), Q(x)); return [ref(ex, st, L.eq(r)), sl(ex, st, x)]
        def eqv(r, x, one):
            t = one
            for a, b in zip(r, x): t = t * (a * b + (one - a) * (one - b))
            return t
        add("EqPolynomial::evaluate %d" % n, D + "EqPolynomial::evaluate", mk_ee, lambda ex, st, r, a: feq(ex, st, fm, r, eqv(*ex.goal, F1), "eq(r,x)"),
            rp=("ml", "eq_eval", [(gl(n), "r"), (gl(n), "x")], lambda r, x: e1(eqv(r, x, 1))))
        def mk_id(ex, st, n=n):
            r = L.Ss("r", n); g(ex, Q(r)); return [ref(ex, st, L.mk(D + "IdentityPolynomial", size_point=C(n))), sl(ex, st, r)]
        idv = lambda r: sum((x * (1 << (len(r) - 1 - i)) for i, x in enumerate(r)), 0)
        add("IdentityPolynomial::evaluate %d" % n, D + "IdentityPolynomial::evaluate", mk_id, lambda ex, st, r, a: feq(ex, st, fm, r, sum((x.scale(1 << (len(ex.goal[0]) - 1 - i)) for i, x in enumerate(ex.goal[0])), F0), "identity polynomial"),
            rp=("ml", "id_eval", [(gl(n), "r")], lambda r: e1(idv(r))))
    def mk_cfl(ex, st): x = int_args(ex, 1, 64)[0]; g(ex, x); return [x]
    def post_cfl(ex, st, r, a):
        l, rr = r.f; n = ex.goal[0]
        ensure_int(ex, st, l + rr, n, "the two halves add up")
        ensure_bool(ex, st, lt0(l - rr) + eq0(l - rr) if False else ONE - lt0(rr - l), ONE, "left is not larger"); ensure_bool(ex, st, ONE - lt0(l + 1 - rr), ONE, "halves differ by at most one")
    add("EqPolynomial::compute_factored_lens", D + "EqPolynomial::compute_factored_lens", mk_cfl, post_cfl, bounded=None,
        rp=("ml", "factored_lens", [(("dec", 0, 2**64 - 1), "n")], lambda n: "%d %d" % (n // 2, n - n // 2)))
    for n in range(5):
        N = 1 << n
        def mk_z(ex, st, n=n, N=N):
            z = L.Ss("z", N); g(ex, Q(z)); return [ref(ex, st, L.dense(z))]
        def mk_new(ex, st, N=N):
            z = L.Ss("z", N); g(ex, Q(z)); return [VecV(z)]
        def dense_post(zs):
            def f(ex, st, r, a, want=None):
                w = zs(ex)
                dense_is(ex, st, r, w)
            return f
        def dense_is(ex, st, v, w, what="polynomial"):
            list_eq(ex, st, fm, Zof(v), w, what + " evaluations")
            ensure_int(ex, st, L.get(DP, v, "len"), C(len(w)), what + " len"); ensure_int(ex, st, L.get(DP, v, "num_vars"), C(len(w).bit_length() - 1), what + " num_vars")
        add("DensePolynomial::new %d" % n, DP + "::new", mk_new, dense_post(lambda ex: ex.goal[0]), rp=("ml", "dense_new", [(gl(N), "z")], lambda z, n=n: "%d %d %s" % (n, len(z), enc(z))))
        add("DensePolynomial::clone %d" % n, DP + "::clone", mk_z, dense_post(lambda ex: ex.goal[0]), rp=("ml", "dense_clone", [(gl(N), "z")], lambda z, n=n: "%d %d %s" % (n, len(z), enc(z))))
        def mk_eval(ex, st, n=n, N=N):
            z = L.Ss("z", N); r = L.Ss("r", n); g(ex, Q(z), Q(r)); return [ref(ex, st, L.dense(z)), sl(ex, st, r)]
        add("DensePolynomial::evaluate %d" % n, DP + "::evaluate", mk_eval, lambda ex, st, r, a: feq(ex, st, fm, r, dot(ex.goal[0], eq_table(ex.goal[1], F1), F0), "multilinear extension"),
            rp=("ml", "dense_eval", [(gl(N), "z"), (gl(n), "r")], lambda z, r: e1(dot(z, eq_table(r, 1), 0))))
        def mk_bound(ex, st, n=n, N=N):
            z = L.Ss("z", N); l = L.Ss("l", 1 << (n // 2)); g(ex, Q(z), Q(l)); return [ref(ex, st, L.dense(z)), sl(ex, st, l)]
        def bnd(z, l, zero):
            R = len(z) // len(l)
            out = []
            for i in range(R):
                t = zero
                for j in range(len(l)): t = t + l[j] * z[j * R + i]
                out.append(t)
            return out
        add("DensePolynomial::bound %d" % n, DP + "::bound", mk_bound, lambda ex, st, r, a: list_eq(ex, st, fm, r, bnd(*ex.goal, F0), "L^T Z"),
            rp=("ml", "dense_bound", [(gl(N), "z"), (gl(1 << (n // 2)), "l")], lambda z, l: enc(bnd(z, l, 0))))
        if n:
            h = N // 2
            def mk_bt(ex, st, N=N):
                z = L.Ss("z", N); r = L.S("r"); g(ex, Q(z), r.p); return [ref(ex, st, L.dense(z)), ref(ex, st, r)]
            top = lambda z, r: [z[i] + r * (z[i + len(z) // 2] - z[i]) for i in range(len(z) // 2)]
            bot = lambda z, r: [z[2 * i] + r * (z[2 * i + 1] - z[2 * i]) for i in range(len(z) // 2)]
            for nm, f in (("top", top), ("bot", bot)):
                def post_b(ex, st, r, a, f=f, h=h, n=n):
                    v = ex.load(st, a[0]); want = f(*ex.goal)
                    zs = seqof(ex, st, Zof(v))
                    for i in range(h): feq(ex, st, fm, zs[i] if i < len(zs) else None, want[i], "bound value [%d]" % i)
                    ensure_int(ex, st, L.get(DP, v, "len"), C(h), "len halves"); ensure_int(ex, st, L.get(DP, v, "num_vars"), C(n - 1), "one variable fewer")
                add("DensePolynomial::bound_poly_var_%s %d" % (nm, n), DP + "::bound_poly_var_" + nm, mk_bt, post_b,
                    rp=("ml", "dense_bind_" + nm, [(gl(N), "z"), (gs(), "r")], lambda z, r, f=f, n=n: "%d %d %s" % (n - 1, len(z) // 2, enc(f(z, r)))))
            def mk_split(ex, st, N=N, h=h):
                z = L.Ss("z", N); g(ex, Q(z)); return [ref(ex, st, L.dense(z)), C(h)]
            def post_split(ex, st, r, a, h=h):
                x, y = r.f; dense_is(ex, st, x, ex.goal[0][:h], "low half"); dense_is(ex, st, y, ex.goal[0][h:], "high half")
            add("DensePolynomial::split %d" % n, DP + "::split", mk_split, post_split, rp=("ml", "dense_split", [(gl(N), "z")], lambda z: enc(z[:len(z) // 2]) + " " + enc(z[len(z) // 2:])))
        def mk_ext(ex, st, N=N):
            z = L.Ss("z", N); y = L.Ss("y", N); g(ex, Q(z), Q(y)); return [ref(ex, st, L.dense(z)), ref(ex, st, L.dense(y))]
        add("DensePolynomial::extend %d" % n, DP + "::extend", mk_ext, lambda ex, st, r, a: dense_is(ex, st, ex.load(st, a[0]), ex.goal[0] + ex.goal[1]),
            rp=("ml", "dense_extend", [(gl(N), "z"), (gl(N), "y")], lambda z, y, n=n: "%d %d %s" % (n + 1, 2 * len(z), enc(z + y))))
    for k in range(1, 5):
        def mk_us(ex, st, k=k):
            xs = int_args(ex, 1 << (k - 1), 64); g(ex, [x.tofield(p) for x in xs]); return [sl(ex, st, xs)]
        add("DensePolynomial::from_usize %d" % (k - 1), DP + "::from_usize", mk_us, lambda ex, st, r, a: dense_is(ex, st, r, ex.goal[0]),
            rp=("ml", "dense_from_usize", [(gx(lambda rng, k=k: [rng.choice([0, 1, 2**64 - 1, rng.getrandbits(64)]) for _ in range(1 << (k - 1))], lambda v: ",".join(map(str, v))), "v")], lambda v: enc(v)))
    for sizes in ((1,), (2, 2), (1, 1, 1), (4, 4, 4), (2, 2, 2, 2, 2)):
        def mk_m(ex, st, sizes=sizes):
            ps = [L.Ss("z%d_" % i, n) for i, n in enumerate(sizes)]; g(ex, [x for q in ps for x in Q(q)]); return [sl(ex, st, [L.dense(q) for q in ps])]
        def post_m(ex, st, r, a):
            w = list(ex.goal[0]); n = 1
            while n < len(w): n *= 2
            dense_is(ex, st, r, w + [F0] * (n - len(w)))
        def or_m(*zs):
            w = [x for z in zs for x in z]; n = 1
            while n < len(w): n *= 2
            return enc(w + [0] * (n - len(w)))
        add("DensePolynomial::merge %s" % (sizes,), "rvc_roots::merge", mk_m, post_m, rp=("ml", "dense_merge", [(gl(n), "z%d" % i) for i, n in enumerate(sizes)], or_m))
    def mk_ix(ex, st):
        z = L.Ss("z", 8); g(ex, Q(z)); return [ref(ex, st, L.dense(z)), C(5)]
    add("DensePolynomial index", "<%s as std::ops::Index<usize>>::index" % DP, mk_ix, lambda ex, st, r, a: feq(ex, st, fm, ex.load(st, r), ex.goal[0][5], "index"))
    for k in range(5):
        def mk_dp(ex, st, k=k):
            a = L.Ss("a", k); b = L.Ss("b", k); g(ex, Q(a), Q(b)); return [sl(ex, st, a), sl(ex, st, b)]
        for nm in ("DotProductProof", "DotProductProofLog"):
            add("%s::compute_dotproduct %d" % (nm, k), "nizk::%s::compute_dotproduct" % nm, mk_dp, lambda ex, st, r, a: feq(ex, st, fm, r, dot(*ex.goal, F0), "inner product"),
                rp=("ml", "dot_" + nm.lower(), [(gl(k), "a"), (gl(k), "b")], lambda a, b: e1(dot(a, b, 0))))
        add("bullet inner_product %d" % k, "nizk::bullet::inner_product", mk_dp, lambda ex, st, r, a: feq(ex, st, fm, r, dot(*ex.goal, F0), "inner product"))
    # sparse polynomial given by its non-zero entries
    SP = "sparse_mlpoly::SparsePolynomial"; SE = "sparse_mlpoly::SparsePolyEntry"
    for n, idxs in ((0, [0]), (1, [1, 0]), (2, [2]), (3, [1, 6, 3]), (3, []), (4, [8, 1, 15, 10]), (2, [3, 3])):
        def mk_sp(ex, st, n=n, idxs=idxs):
            v = L.Ss("v", len(idxs)); r = L.Ss("r", n); g(ex, Q(v), Q(r))
            return [ref(ex, st, L.mk(SP, num_vars=C(n), Z=VecV([L.mk(SE, idx=C(i), val=x) for i, x in zip(idxs, v)]))), sl(ex, st, r)]
        def spv(v, r, idxs, one, zero):
            t = eq_table(r, one); s = zero
            for i, x in zip(idxs, v): s = s + t[i] * x
            return s
        add("SparsePolynomial::evaluate %d %s" % (n, idxs), SP + "::evaluate", mk_sp, lambda ex, st, r, a, idxs=idxs: feq(ex, st, fm, r, spv(*ex.goal, idxs, F1, F0), "multilinear extension of the sparse vector"),
            rp=("ml", "sparse_eval", [(gx(lambda rng, idxs=idxs: idxs, lambda v: ",".join(map(str, v)) or "-"), "idx"), (gl(len(idxs)), "v"), (gl(n), "r")], lambda idxs, v, r: e1(spv(v, r, idxs, 1, 0))))
    # --- univariate
    UP = "unipoly::UniPoly"; CP = "unipoly::CompressedUniPoly"
    def up(c): return L.mk(UP, coeffs=VecV(c))
    co = lambda v: L.get(UP, v, "coeffs")
    def ev(c, x, zero, one):
        t = zero; q = one
        for y in c: t = t + y * q; q = q * x
        return t
    for n in (3, 4):
        def mk_fe(ex, st, n=n):
            e = L.Ss("e", n); g(ex, Q(e)); return [sl(ex, st, e)]
        def post_fe(ex, st, r, a, n=n):
            cs = seqof(ex, st, co(r)); ex.record("ensures", "degree %d" % (n - 1), len(cs) == n, "normal form")
            cs = [fm.canon(ex, st, x, "coefficient").p for x in cs]
            for i in range(n): feq(ex, st, fm, L.fm.fe(ev(cs, Poly.const(i, p), F0, F1)), ex.goal[0][i], "interpolates at %d" % i)
        def or_fe(e):
            def ok(g):
                b = bytes.fromhex(g); cs = [int.from_bytes(b[32 * i:32 * i + 32], "little") for i in range(len(b) // 32)]
                return len(cs) == len(e) and all(ev(cs, i, 0, 1) % p == e[i] % p for i in range(len(e)))
            return ok
        add("UniPoly::from_evals %d" % n, UP + "::from_evals", mk_fe, post_fe, tag="uni", bounded=None, rp=("ml", "uni_from_evals", [(gl(n), "e")], or_fe))
    for n in range(1, 6):
        def mk_u(ex, st, n=n):
            c = L.Ss("c", n); g(ex, Q(c)); return [ref(ex, st, up(c))]
        def mk_ue(ex, st, n=n):
            c = L.Ss("c", n); x = L.S("x"); g(ex, Q(c), x.p); return [ref(ex, st, up(c)), ref(ex, st, x)]
        add("UniPoly::evaluate %d" % n, UP + "::evaluate", mk_ue, lambda ex, st, r, a: feq(ex, st, fm, r, ev(*ex.goal, F0, F1), "value"), tag="uni", rp=("ml", "uni_eval", [(gl(n), "c"), (gs(), "x")], lambda c, x: e1(ev(c, x, 0, 1))))
        add("UniPoly::eval_at_zero %d" % n, UP + "::eval_at_zero", mk_u, lambda ex, st, r, a: feq(ex, st, fm, r, ex.goal[0][0], "value at 0"), tag="uni", rp=("ml", "uni_eval0", [(gl(n), "c")], lambda c: e1(c[0])))
        add("UniPoly::eval_at_one %d" % n, UP + "::eval_at_one", mk_u, lambda ex, st, r, a: feq(ex, st, fm, r, ev(ex.goal[0], F1, F0, F1), "value at 1"), tag="uni", rp=("ml", "uni_eval1", [(gl(n), "c")], lambda c: e1(sum(c))))
        add("UniPoly::degree %d" % n, UP + "::degree", mk_u, lambda ex, st, r, a, n=n: ensure_int(ex, st, r, C(n - 1), "degree"), tag="uni")
        add("UniPoly::as_vec %d" % n, UP + "::as_vec", mk_u, lambda ex, st, r, a: list_eq(ex, st, fm, r, ex.goal[0], "coefficients"), tag="uni")
        if n >= 2:
            cc = lambda v: L.get(CP, v, "coeffs_except_linear_term")
            add("UniPoly::compress %d" % n, UP + "::compress", mk_u, lambda ex, st, r, a: list_eq(ex, st, fm, cc(r), ex.goal[0][:1] + ex.goal[0][2:], "coefficients except the linear one"), tag="uni", rp=("ml", "uni_compress", [(gl(n), "c")], lambda c: enc(c)))
            def mk_ud(ex, st, n=n):
                c = L.Ss("c", n - 1); h = L.S("h"); g(ex, Q(c), h.p); return [ref(ex, st, L.mk(CP, coeffs_except_linear_term=VecV(c))), ref(ex, st, h)]
            def dec(c, h): return [c[0], h - c[0] - c[0] - sum(c[2:], c[1]) if len(c) > 1 else h - c[0] - c[0]] + c[1:]
            add("CompressedUniPoly::decompress %d" % n, CP + "::decompress", mk_ud, lambda ex, st, r, a: list_eq(ex, st, fm, co(r), dec(*ex.goal), "the polynomial with g(0)+g(1)=hint"), tag="uni")
            # round trip on the real functions
            def mk_rt(ex, st, n=n):
                c = L.Ss("c", n); g(ex, Q(c)); return [VecV(c)]
            add("compress/decompress round trip %d" % n, "rvc_roots::uni_roundtrip", lambda ex, st, n=n: (lambda c: (g(ex, Q(c)), [ref(ex, st, up(c))])[1])(L.Ss("c", n)), lambda ex, st, r, a: list_eq(ex, st, fm, co(r), ex.goal[0], "round trip"), tag="uni")
    for u in U:
        if u.name.startswith("UniPoly::") and u.name.endswith(" 1"): u.rp = None       # no public constructor
    return U
