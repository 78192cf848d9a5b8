"""The secq256k1 group (C05) and hashing to it (C06).

C05: affine.rs puts operators and encodings on top of the primeorder crate; that crate is carried by contracts that say its
operations are those of a group of prime order p acting on discrete logarithms.  C06: hash_to_curve and from_uniform_bytes,
for every input, against RFC 9380's simplified SWU map followed by the 3-isogeny onto y^2 = x^3 + 7."""
from .field import *
from ..field import *
from ..poly import *
from .. import poly as P
from ..exec import *
from ..check import Unit
from ..uni import *
from .proto import GS, G, gatom, deref
from .proto import gval as gval0
import math
Q = NSECP; p = PSECP
A_ = 3642995984045157452672683439396299070953881827175886364060394186787010798372
B_ = 1771
Z_ = Q - 14
K_ = [0x8e38e38e38e38e38e38e38e38e38e38d842841d57dd303af6a9150f8e5737996, 0xaf867d571bfa082cca513504a8e40322d2b452799c09320d886081a9e6f91392, 0x49ddb66f633e7cd880099b7112ade2b229f393090dfc3717b228d50959878387, 0x8e38e38e38e38e38e38e38e38e38e38d842841d57dd303af6a9150f8e57379d1, 0x2bba680ffbca49931cdadd29f0041c41083db8de609f01134c7657ac3d7c289c, 0xca623dbf77972ad5810364ecf856e8d351e877a5ae9d6ddd8b8de222bfcf1676, 0x84bda12f684bda12f684bda12f684bd96a47b4e9645e8bf90e213a81e738939d, 0x57c33eab8dfd041665289a8254720191695a293cce049906c43040d4f37c89c9, 0xed79cedc13a746f2acde49e99d2e9e3df23938fd95429c5cd6e03eacd654bae, 0xa12f684bda12f684bda12f684bda12f5b7e95badb0bbf31c23717de6e1e94557, 0x41979c17f9af6e5cab484bbee8062a618c5c954d90ee819cf2b183825c3a3cea, 0x5f26b93e66c58080830a2ec6e904ba7c805bad23ad4709212304e94e9f00c0e0, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0363e4d]
GX = 0x76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6
GY = 0x3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f
# ---------------------------------------------------------------- reference arithmetic
def ec_add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % Q == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, Q) % Q
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, Q) % Q
    x = (l * l - a[0] - b[0]) % Q; return x, (l * (a[0] - x) - a[1]) % Q
def ec_mul(k, a):
    r = None; k %= p
    while k:
        if k & 1: r = ec_add(r, a)
        a = ec_add(a, a); k >>= 1
    return r
def sec1(a): return "00" if a is None else "%02x%064x" % (2 + (a[1] & 1), a[0])
def swu_ref(u):
    t = (Z_ * Z_ * pow(u, 4, Q) + Z_ * u * u) % Q
    x1 = B_ * pow(Z_ * A_, -1, Q) % Q if t == 0 else -B_ * pow(A_, -1, Q) * (1 + pow(t, -1, Q)) % Q
    def g(x): return (x ** 3 + A_ * x + B_) % Q
    x = x1
    if pow(g(x), (Q - 1) // 2, Q) == Q - 1: x = Z_ * u * u * x1 % Q
    y = sqrt_mod(g(x), Q)
    return x, y if (y & 1) == (u & 1) else Q - y
def iso_ref(x, y):
    k = K_; xn = (k[0] * x ** 3 + k[1] * x * x + k[2] * x + k[3]) % Q; xd = (x * x + k[4] * x + k[5]) % Q
    yn = (k[6] * x ** 3 + k[7] * x * x + k[8] * x + k[9]) % Q; yd = (x ** 3 + k[10] * x * x + k[11] * x + k[12]) % Q
    return xn * pow(xd, -1, Q) % Q, y * yn * pow(yd, -1, Q) % Q
# ---------------------------------------------------------------- C05 contracts
def gval(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Phi): return fite(v.c, gval(ex, st, v.a), gval(ex, st, v.b))
    if isinstance(v, Agg) and len(v.f) == 1 and not isinstance(v.f[0], Poly): return gval(ex, st, v.f[0])
    if isinstance(v, Agg) and len(v.f) == 3:
        def co(x):
            if isinstance(x, FE) and x.p.is_const(): return x.p.cval()
            l = [y.cval() for y in x.f[0].f] if isinstance(x, Agg) and all(isinstance(y, Poly) and y.is_const() for y in x.f[0].f) else None
            if l is None: raise Unsupported("point coordinates")
            return sum(y << 64 * i for i, y in enumerate(l)) * pow(2**256, -1, Q) % Q
        x, y, z = co(v.f[0]), co(v.f[1]), v.f[2]
        if isinstance(z, Poly):                      # affine constant
            if z.is_const() and z.cval() == 1: return Poly.const(0, p)
            if z.is_const() and z.cval() == 0 and (x, y) == (GX, GY): return G(Poly.atom(new_atom("gen", "felt", key=("felt", "G", "gen")), p)).p
        else:
            if co(z) == 0 and y: return Poly.const(0, p)
            if co(z) == 1 and (x, y) == (GX, GY): return gatom("gen").p
        raise Unsupported("unknown constant point")
    return gval0(ex, st, v)
def sc_val(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, FE) and v.spec.p == p and v.spec is not GS: return v.p
    if isinstance(v, Agg):
        from .curve import flat
        return sum((x.scale(1 << 64 * i) for i, x in enumerate(flat(v))), ZERO).tofield(p)
    raise Unsupported("scalar")
AF = "affine::AffinePoint"; CA = "primeorder::AffinePoint<Secq256K1>"; CP = "primeorder::ProjectivePoint<Secq256K1>"
def contracts(prog):
    d = {}
    def un(f): return lambda ex, st, fn, args: G(f(gval(ex, st, args[0])))
    def bi(f): return lambda ex, st, fn, args: G(f(gval(ex, st, args[0]), gval(ex, st, args[1])))
    def asg(f):
        def g(ex, st, fn, args): ex.store(st, args[0], G(f(gval(ex, st, args[0]), gval(ex, st, args[1])))); return UNIT
        return g
    add = lambda a, b: a + b; sub = lambda a, b: a - b
    def mul(ex, st, fn, args): return G(gval(ex, st, args[0]) * sc_val(ex, st, args[1]))
    def isid(ex, st, fn, args): return Agg([feq0(gval(ex, st, args[0]))])
    def enc(ex, st, fn, args):
        c = args[1]
        if not c.is_const(): raise Unsupported("compression flag")
        return Obj("cpt", (gval(ex, st, args[0]), bool(c.cval())))
    def dec(ex, st, fn, args):
        v = deref(ex, st, args[0])
        if not (isinstance(v, Obj) and v.k == "ept"): raise Unsupported("encoded point")
        return Agg([G(v.d[0]), Agg([v.d[1]])])
    def eq(ex, st, fn, args): return feq0(gval(ex, st, args[0]) - gval(ex, st, args[1]))
    for f in prog.fns.values():
        n = strip_crate(f["name"])
        if "primeorder::" not in n: continue
        if n.startswith("affine") or n.startswith("<affine") or n.startswith("<&affine") or "FnOnce" in n or "CtOption" in n: continue
        m = n.rsplit("::", 1)[1]
        if not (n.startswith("<" + CA) or n.startswith("<" + CP) or n.startswith("<&" + CA) or n.startswith("<&" + CP) or n.startswith("primeorder::AffinePoint::<Secq") or n.startswith("primeorder::ProjectivePoint::<Secq")): continue
        c = {"add": bi(add), "sub": bi(sub), "neg": un(lambda a: -a), "mul": mul, "add_assign": asg(add), "sub_assign": asg(sub), "from": un(lambda a: a), "into": un(lambda a: a), "to_affine": un(lambda a: a), "clone": un(lambda a: a), "is_identity": isid, "to_encoded_point": enc, "from_encoded_point": dec, "double": un(lambda a: a + a), "eq": eq, "default": lambda ex, st, fn, args: G(Poly.const(0, p)), "identity": lambda ex, st, fn, args: G(Poly.const(0, p)), "generator": lambda ex, st, fn, args: gatom("gen"),
             "ct_eq": lambda ex, st, fn, args: Agg([eq(ex, st, fn, args)]),
             "conditional_select": lambda ex, st, fn, args: G(fite(args[2].f[0], gval(ex, st, args[1]), gval(ex, st, args[0])))}.get(m)
        if c: d[n] = c
    return d
def ensure_g(ex, st, v, goal, what):
    r, how, info = ex.solver.prove_fzero(gval(ex, st, v) - goal, st.pc); ex.record("ensures", what, r, how, info)
S = ("bytes", 32, p)
def k_(b): return int.from_bytes(bytes(b), "little") % p
def pt_(b): return ec_mul(k_(b), (GX, GY))
def units(prog):
    U = []
    def add(*a, **kw): U.append(Unit(*a, tag="grp", **kw))
    def wrap(x): return Agg([G(x.p)])
    def mkpp(ex, st):
        a, b = gatom("P"), gatom("Q"); ex.goal = (a.p, b.p); return args_for(ex, st, [wrap(a), wrap(b)])
    def mkp(ex, st):
        a = gatom("P"); ex.goal = (a.p,); return args_for(ex, st, [wrap(a)])
    def mkps(ex, st):
        a = gatom("P"); s, n = sc_fresh("k"); ex.goal = (a.p, n); return args_for(ex, st, [wrap(a), s])
    from .scalar import fresh as sfresh
    def sc_fresh(nm):
        v, n = sfresh(p, nm); return v, n.tofield(p)
    T = "scalar::Scalar"
    def E(a): return sec1(a)
    def names(suffix): return [n for n in prog.byname if suffix(n) and any(prog.fns[k].get("blocks") for k in prog.byname[n])]
    for n in sorted(prog.byname):
        if n.startswith("<" + AF + " as std::ops::") or n.startswith("<&" + AF + " as std::ops::"):
            m = n.rsplit("::", 1)[1]
            l = "r" if n.startswith("<&") else "v"; t = n.split(" as std::ops::")[1]; r = "r" if "<&" in t else "v"
            if m in ("add", "sub"):
                f = (lambda a, b: a + b) if m == "add" else (lambda a, b: a - b)
                add(n, n, mkpp, (lambda f, m: lambda ex, st, r, a: ensure_g(ex, st, r, f(*ex.goal), m))(f, m), rp=("gp", "%s_%s%s" % (m, l, r), [(S, "a"), (S, "b")], (lambda m: lambda a, b: E(ec_mul(k_(a) + (k_(b) if m == "add" else -k_(b)), (GX, GY))))(m)))
            elif m in ("add_assign", "sub_assign"):
                f = (lambda a, b: a + b) if m[:3] == "add" else (lambda a, b: a - b)
                add(n, n, mkpp, (lambda f, m: lambda ex, st, r, a: ensure_g(ex, st, ex.load(st, a[0]), f(*ex.goal), m))(f, m), rp=("gp", "%s_%s" % (m, r), [(S, "a"), (S, "b")], (lambda m: lambda a, b: E(ec_mul(k_(a) + (k_(b) if m[:3] == "add" else -k_(b)), (GX, GY))))(m)))
            elif m == "mul": add(n, n, mkps, lambda ex, st, r, a: ensure_g(ex, st, r, ex.goal[0] * ex.goal[1], "mul"), rp=("gp", "mul_%s%s" % (l, r), [(S, "a"), (S, "b")], lambda a, b: E(ec_mul(k_(a) * k_(b), (GX, GY)))))
            elif m == "mul_assign": add(n, n, mkps, lambda ex, st, r, a: ensure_g(ex, st, ex.load(st, a[0]), ex.goal[0] * ex.goal[1], "mul_assign"), rp=("gp", "mul_assign_%s" % r, [(S, "a"), (S, "b")], lambda a, b: E(ec_mul(k_(a) * k_(b), (GX, GY)))))
            elif m == "neg": add(n, n, mkp, lambda ex, st, r, a: ensure_g(ex, st, r, -ex.goal[0], "neg"), rp=("gp", "neg", [(S, "a")], lambda a: E(ec_mul(-k_(a), (GX, GY)))))
    GR = "<%s as elliptic_curve::Group>::" % AF
    for n in (AF + "::identity", GR + "identity"): add(n, n, lambda ex, st: [], lambda ex, st, r, a: ensure_g(ex, st, r, Poly.const(0, p), "identity"))
    for n in (AF + "::generator", GR + "generator"): add(n, n, lambda ex, st: [], lambda ex, st, r, a: ensure_g(ex, st, r, gatom("gen").p, "generator"), rp=("gp", "mul_vv", [(S, "a"), (S, "b")], lambda a, b: E(ec_mul(k_(a) * k_(b), (GX, GY)))))
    add(GR + "double", GR + "double", mkp, lambda ex, st, r, a: ensure_g(ex, st, r, ex.goal[0].scale(2), "double"), rp=("gp", "double", [(S, "a")], lambda a: E(ec_mul(2 * k_(a), (GX, GY)))))
    add(GR + "is_identity", GR + "is_identity", mkp, lambda ex, st, r, a: ensure_bool(ex, st, r.f[0], feq0(ex.goal[0]), "is_identity"), rp=("gp", "is_identity", [(S, "a")], lambda a: str(int(k_(a) == 0))))
    add("eq", "<%s as std::cmp::PartialEq>::eq" % AF, mkpp, lambda ex, st, r, a: ensure_bool(ex, st, r, feq0(ex.goal[0] - ex.goal[1]), "equality of group elements"))
    for n in names(lambda n: n.startswith("<%s as std::convert::From<" % AF)): add(n, n, mkp, lambda ex, st, r, a: ensure_g(ex, st, r, ex.goal[0], "From"))
    # encodings: the compressed SEC1 form, and its inverse
    def post_c(ex, st, r, a):
        r = deref(ex, st, r)
        ex.record("ensures", "compress: the compressed SEC1 encoding", isinstance(r, Obj) and r.k == "cpt" and r.d[1] is True, "normal form")
        rr, how, info = ex.solver.prove_fzero(r.d[0] - ex.goal[0], st.pc); ex.record("ensures", "compress: of this element", rr, how, info)
    add("compress", AF + "::compress", mkp, post_c, rp=("gp", "compress", [(S, "a")], lambda a: E(pt_(a))))
    def mkd(ex, st):
        x = gatom("P").p; okk = Poly.atom(new_atom("decodes", "var", 0, 1)); ex.goal = (x, okk); return args_for(ex, st, [Obj("ept", (x, okk))])
    def post_d(ex, st, r, a):
        v, f = ctoption(r); ensure_bool(ex, st, f, ex.goal[1], "decompress: defined exactly when the encoding is that of a group element"); 
        rr, how, info = ex.solver.prove_fzero((gval(ex, st, v) - ex.goal[0]) * f.tofield(p), st.pc); ex.record("ensures", "decompress: that element", rr, how, info)
    def or_dec(b):
        b = bytes(b); x = int.from_bytes(b[1:], "big"); par = b[0] & 1
        if b[0] not in (2, 3): return None
        if x >= Q or pow((x**3 + 7) % Q, (Q - 1) // 2, Q) == Q - 1: return "0"
        y = sqrt_mod((x**3 + 7) % Q, Q)
        if y & 1 != par: y = Q - y
        return "1 " + sec1((x, y))
    def g33(rng, consts): return [rng.choice([2, 3])] + (list(((Q if rng.random() < .5 else 0) + rng.randrange(1000) - 500 & 2**256 - 1).to_bytes(32, "big")) if rng.random() < .3 else [rng.randrange(256) for _ in range(32)])
    add("decompress", AF + "::decompress", mkd, post_d, rp=("gp", "decompress", [(("gen", g33, lambda b: bytes(b).hex()), "b")], or_dec))
    # sums
    for nm, byref in (("sum_val", False), ("sum_ref", True)):
        for k in range(0, 4):
            def mk(ex, st, k=k, byref=byref):
                gs = [gatom("P%d" % i) for i in range(k)]; ex.goal = tuple(g.p for g in gs); v = VecV([wrap(g) for g in gs])
                return [ex.alloc(st, v) if byref else v]
            add("%s of %d points" % (nm, k), "rvc_roots::gp::" + nm, mk, lambda ex, st, r, a: ensure_g(ex, st, r, sum(ex.goal, Poly.const(0, p)), "sum"), bounded="0 to 3 points")
    # curve parameters
    def post_k(ex, st, r, a):
        def fv(x):
            from .curve import flat
            if isinstance(x, FE): return x.p.cval()
            l = [y.cval() for y in flat(x)]; n = sum(y << 64 * i for i, y in enumerate(l)); return n * pow(2**256, -1, Q) % Q if len(l) == 5 else n
        a_, b_, gx, gy, o1, o2, z, one = [fv(x) for x in r.f]
        ob = lambda m, v: ex.record("ensures", m, v, "computed")
        ob("EQUATION_A is 0 and EQUATION_B is 7", (a_, b_) == (0, 7)); ob("the generator is on the curve", (gy * gy - gx**3 - 7) % Q == 0)
        ob("the declared orders are the base field modulus of secp256k1", o1 == p and o2 == p); ob("ZERO and ONE", (z, one) == (0, 1))
        ob("the generator has that order", ec_mul_raw(p, (gx, gy)) is None if (gy * gy - gx**3 - 7) % Q == 0 else False)
        ob("the generator is the repository's", (gx, gy) == (GX, GY))
    def ec_mul_raw(k, a):
        r = None
        while k:
            if k & 1: r = ec_add(r, a)
            a = ec_add(a, a); k >>= 1
        return r
    add("curve parameters", "rvc_roots::gp::consts", lambda ex, st: [], post_k, rp=("gp", "gen", [], lambda: sec1((GX, GY))))
    return U
# ---------------------------------------------------------------- C06
def h2c_contracts(prog, fm):
    PR = {}
    def setup(ex):
        ex.pr = {}          # u atom id -> Problem
        ex.bit_u = {}       # bit / y atom -> u atom id
    def us(ex, q, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for a in q.atoms():
            if a in seen: continue
            seen.add(a); A = ATOMS[a]
            if a in ex.pr: out.add(a)
            elif a in ex.bit_u: out.add(ex.bit_u[a])
            elif A.kind in ("feq0", "fpow", "fbase"): out |= us(ex, A.defn, seen)
            else: raise Unsupported("atom %s" % A.name)
        return out
    def prob(ex, *qs):
        s = set()
        for q in qs: s |= us(ex, q)
        if len(s) != 1: raise Unsupported("%d inputs" % len(s))
        return ex.pr[s.pop()]
    def val(ex, st, v): return fm.canon(ex, st, deref(ex, st, v), "operand").p
    def nonzero(ex, st, q, what):
        if q.is_const(): okk, how = not q.is_zero(), "normal form"
        else:
            try: okk, how = prob(ex, q).run(lambda d: d.poly(q), nonzero=True)
            except Unsupported as e: okk, how = False, str(e)
        ex.record("ensures", what, okk, "polynomial roots over F_q: %s" % (how,)); return okk
    def ratio(ex, st, fn, args):
        u, v = val(ex, st, args[0]), val(ex, st, args[1])
        nonzero(ex, st, v, "sqrt_ratio: the denominator is never zero (precondition)")
        pr = prob(ex, u, v)
        b = new_atom("issq%d" % len(pr.isq), "var", 0, 1, key=("issq", u.key(), v.key())); y = new_atom("root%d" % len(pr.isq), "felt", key=("root", u.key(), v.key()))
        pr.isq[b.id] = (u, v); pr.ys[y.id] = (u, v, b.id); ex.bit_u[b.id] = pr.u; ex.bit_u[y.id] = pr.u
        return Agg([Agg([Poly.atom(b)]), FE(Poly.atom(y, Q), fm.spec)])
    def inv(ex, st, fn, args):
        a = val(ex, st, args[0])
        okk = nonzero(ex, st, a, "invert: the argument is never zero")
        return Agg([FE(P.finv(a), fm.spec), Agg([ONE if okk else ONE - feq0(a)])])
    def odd(ex, st, fn, args):
        def go(q):
            bits = [a for a in q.atoms() if ATOMS[a].isbool]
            if bits:
                a = bits[0]; q1 = q.subst({a: Poly.const(1, Q)}); q0 = q.subst({a: Poly.const(0, Q)})
                i1, i0 = go(q1), go(q0); c = Poly.atom(ATOMS[a]); return c * i1 + (ONE - c) * i0
            if q.is_const(): return C(q.cval() & 1)
            pr = prob(ex, q); b = new_atom("odd%d" % len(pr.odd), "var", 0, 1, key=("odd", q.key())); pr.odd[b.id] = q; ex.bit_u[b.id] = pr.u; return Poly.atom(b)
        return Agg([go(val(ex, st, args[0]))])
    d = {}
    t = fm.ty
    for n in prog.byname:
        if n.endswith("SqrtRatio>::sqrt_ratio") and t in n: d[n] = ratio
        if n.endswith("::is_odd") and t in n: d[n] = odd
    for n in (t + "::invert", "<%s as ff::Field>::invert" % t): d[n] = inv
    d["<%s as ff::Field>::square" % t] = lambda ex, st, fn, args: FE((lambda a: a * a)(val(ex, st, args[0])), fm.spec)
    def fbw(ex, st, fn, args):
        n = le_int(ex.seq(st, args[0])); a = new_atom("u", "felt", key=("wide", n.key())); ex.wide.append((a.id, n)); ex.pr.setdefault(a.id, Problem(a.id, Q, Z_))
        return FE(Poly.atom(a, Q), fm.spec)
    d[t + "::from_bytes_wide"] = fbw
    # SEC1 uncompressed encodings, decoding and addition, on coordinates
    def enc(ex, st, fn, args):
        xb, yb = ex.seq(st, args[0]), ex.seq(st, args[1]); c = args[2]
        if not (c.is_const() and c.cval() == 0): raise Unsupported("compressed")
        return Obj("sec1u", (tuple(xb), tuple(yb)))
    def dec(ex, st, fn, args):
        e = deref(ex, st, args[0])
        if not (isinstance(e, Obj) and e.k == "sec1u"): raise Unsupported("encoded point")
        out = []; can = True
        for bs in e.d:
            n = le_int(list(bs)[::-1]); r, how, info = ex.solver.prove_ge0(C(Q - 1) - n, st.pc); can = can and r; out.append(fnorm(n.tofield(Q)))
        ex.record("ensures", "the coordinates are encoded canonically", can, "z3")
        okk = on_curve(ex, st, out[0], out[1], "the decoded point is on the curve")
        return Agg([Obj("xy", tuple(out)), Agg([ONE if okk else feq0(out[1] * out[1] - out[0] ** 3 - Poly.const(7, Q))])])
    def ident(ex, st, fn, args):
        v = deref(ex, st, args[0])
        while isinstance(v, Agg) and len(v.f) == 1: v = deref(ex, st, v.f[0])
        return v
    def padd_(ex, st, fn, args): return Obj("ptsum", (ident(ex, st, fn, args[:1]), ident(ex, st, fn, args[1:])))
    for n in prog.byname:
        if n.startswith("sec1::point::EncodedPoint::<") and n.endswith("::from_affine_coordinates"): d[n] = enc
        if n.endswith("::from_encoded_point") and "primeorder" in n: d[n] = dec
        if ("<" + CP in n[:60] or "<" + CA in n[:60]) and not "CtOption" in n:
            m = n.rsplit("::", 1)[1]
            if m in ("into", "from", "clone"): d[n] = ident
            if m == "add": d[n] = padd_
        if n.endswith("ProjectivePoint::<Secq256K1>::to_affine"): d[n] = ident
    d["_"] = None; del d["_"]
    global _setup; _setup = setup
    return d
def on_curve(ex, st, X, Y, what):
    q = Y * Y - X ** 3 - Poly.const(7, Q)
    try:
        s = problems(ex, X, Y); okk, how = s.run(lambda d: curve_eq(d, d.poly(X), d.poly(Y)))
    except Unsupported as e: okk, how = False, str(e)
    ex.record("ensures", what, okk, "case split over the input: %s" % (how,)); return okk
def curve_eq(d, X, Y): return d.add(d.mul(Y, Y), d.neg(d.add(d.mul(X, d.mul(X, X)), d.c(7))))
def problems(ex, *qs):
    def us(q, seen):
        out = set()
        for a in q.atoms():
            if a in seen: continue
            seen.add(a); A = ATOMS[a]
            if a in ex.pr: out.add(a)
            elif a in ex.bit_u: out.add(ex.bit_u[a])
            elif A.kind in ("feq0", "fpow", "fbase"): out |= us(A.defn, seen)
        return out
    s = set()
    for q in qs: s |= us(q, set())
    if len(s) != 1: raise Unsupported("%d inputs" % len(s))
    return ex.pr[s.pop()]
def spec_diff(pr, X, Y):
    """f(dom): X - X_spec(u), Y - Y_spec(u) for the SWU map followed by the isogeny"""
    def f(d):
        u = d.u(); c = d.c; m = d.mul; a = d.add
        t = m(c(Z_), m(u, u)); t2 = a(m(t, t), t); conc = isinstance(d, Conc)
        if not conc: d.exc |= roots(d.nrm(t2), Q)
        if conc and t2 == 0: x1 = c(B_ * pow(Z_ * A_, -1, Q))
        else: x1 = m(c(-B_ * pow(A_, -1, Q)), a(c(1), d.inv(t2)))
        g = lambda x: a(m(x, m(x, x)), a(m(c(A_), x), c(B_)))
        if conc:
            x, y = swu_ref(d.v)
        else:
            gx = g(x1); sq = None
            for b, (n, dn) in pr.isq.items():
                if d.isz(a(m(d.poly(n), d.inv(d.poly(dn))), d.neg(gx))): sq = b; break
            if sq is None: raise Unsupported("no residue bit for g(x1)")
            isq = bool(d.atom(sq).a)
            yat = next(k for k, v in pr.ys.items() if v[2] == sq)
            if isq: x, y = x1, d.atom(yat)
            else: x, y = m(t, x1), m(m(t, u), d.atom(yat))
            if not d.isz(a(m(y, y), d.neg(g(x)))): raise Unsupported("root of g(x)")
            # parity of y against parity of u
            def par(v):
                for b, q in pr.odd.items():
                    w = d.poly(q)
                    if d.isz(a(w, d.neg(v))): return bool(d.atom(b).a), False
                    if d.isz(a(w, v)): return bool(d.atom(b).a), True
                raise Unsupported("no parity bit for the ordinate")
            pu, nu = par(u); py, ny = par(y)
            d.exc |= roots(d.nrm(y), Q) | {0}
            if (pu ^ nu) != (py ^ ny): y = d.neg(y)
        k = [c(v) for v in K_]; x2 = m(x, x); x3 = m(x2, x)
        xn = a(a(m(k[0], x3), m(k[1], x2)), a(m(k[2], x), k[3])); xd = a(x2, a(m(k[4], x), k[5]))
        yn = a(a(m(k[6], x3), m(k[7], x2)), a(m(k[8], x), k[9])); yd = a(a(x3, m(k[10], x2)), a(m(k[11], x), k[12]))
        XS = m(xn, d.inv(xd)); YS = m(y, m(yn, d.inv(yd)))
        return [a(d.poly(X), d.neg(XS)), a(d.poly(Y), d.neg(YS)), curve_eq(d, XS, YS)]
    return f
def ensure_map(ex, st, fm, X, Y, uid, what):
    pr = ex.pr[uid]
    okk, how = pr.run(spec_diff(pr, X, Y))
    ex.record("ensures", what + ": equals isogeny(SWU(u)), a point of y^2 = x^3 + 7, for every u", okk, "case split over the input and root finding: %s" % (how,), how if isinstance(how, dict) else None)
def h2c_units(prog, fm):
    U = []
    F = fkind(fm); kk = F[1]
    def mk(ex, st):
        ex.wide = []; _setup(ex)
        a, b = fm.fresh("u1"), fm.fresh("u2")
        for v in (a, b):
            i = list(v.p.atoms())[0]; ex.pr[i] = Problem(i, Q, Z_)
        ex.goal = [list(v.p.atoms())[0] for v in (a, b)]
        return args_for(ex, st, [a, b])
    def post(ex, st, r, a):
        for i, (pt, uid) in enumerate(zip(r.f, ex.goal)):
            X, Y = [fm.canon(ex, st, v, "result").p for v in pt.f]
            ensure_map(ex, st, fm, X, Y, uid, "hash_to_curve: point %d" % (i + 1))
    def orc(u, v):
        out = []
        for w in (u, v): out += [kk.enc_val(z) for z in iso_ref(*swu_ref(w))]
        return " ".join(out)
    U.append(Unit("hash_to_curve", "rvc_roots::gp::h2c", mk, post, tag="h2c", rp=("gp", "h2c", [(F, "u1"), (F, "u2")], orc)))
    def mkb(ex, st):
        ex.wide = []; _setup(ex); xs = int_args(ex, 128, 8, pre="b"); ex.goal = [le_int(xs[:64]), le_int(xs[64:])]; return [ex.alloc(st, Agg(xs))]
    def postb(ex, st, r, a):
        while isinstance(r, Agg) and len(r.f) == 1: r = r.f[0]
        if not (isinstance(r, Obj) and r.k == "ptsum" and all(isinstance(x, Obj) and x.k == "xy" for x in r.d)): raise Unsupported("result is not the sum of two decoded points")
        w = {}
        for i, n in ex.wide:
            for k, g in enumerate(ex.goal):
                if (n - g).is_zero(): w[k] = i
        ex.record("ensures", "the two halves of the input are each reduced to a field element", len(w) == 2, "normal form")
        if len(w) < 2: return
        for x in r.d:
            pr = problems(ex, *x.d)
            ks = [k for k in w if w[k] == pr.u]
            if not ks: ex.record("ensures", "summand is a function of one half of the input", False, "normal form"); continue
            ensure_map(ex, st, fm, x.d[0], x.d[1], pr.u, "from_uniform_bytes: summand for half %d" % (ks[0] + 1)); w.pop(ks[0])
        ex.record("ensures", "both halves are used", not w, "normal form")
    def orb(b):
        b = bytes(b); us_ = [int.from_bytes(b[i:i + 64], "little") % Q for i in (0, 64)]
        return sec1(ec_add(*[iso_ref(*swu_ref(u)) for u in us_]))
    U.append(Unit("from_uniform_bytes", AF + "::from_uniform_bytes", mkb, postb, tag="h2c", rp=("gp", "uniform", [(("bytes", 128), "b")], orb)))
    return U
