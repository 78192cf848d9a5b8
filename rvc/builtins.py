"""Contracts assumed for library functions (core, alloc, std, subtle, num-bigint, ...).

Each entry states the documented behaviour of the library function over abstract values."""
from .poly import *
from . import exec as X
from .exec import Agg, Enum, FE, Ref, VecV, Clo, FnV, It, Obj, Opq, Phi, UNIT, none, some, ok, err, C, Unsupported, merge_val, feq0, same, UNINIT

TABLE = {}
PATS = []
def b(*names):
    def w(f):
        for n in names: TABLE[n] = f
        return f
    return w
def lookup(d, fn):
    r = TABLE.get(d)
    if r is not None: return r
    if fn is not None:
        i = fn.get("intr")
        if i: return TABLE.get("intrinsic:" + i)
    # core::num::<impl u64>::x
    if d.startswith("core::num::<impl "):
        ty, _, m = d[len("core::num::<impl "):].partition(">::")
        f = NUM.get(m)
        if f is not None: return lambda c: f(c, ty)
    return None

NUM = {}
def num(*names):
    def w(f):
        for n in names: NUM[n] = f
        return f
    return w
def tinfo(ty):
    if ty in ("usize", "u64"): return 64, False
    if ty in ("isize", "i64"): return 64, True
    return int(ty[1:]), ty[0] == "i"

@num("wrapping_add")
def _(c, ty): w, s = tinfo(ty); return c.ex.wrap(X.arith('Add', c.args[0], c.args[1]), w, s)[0]
@num("wrapping_sub")
def _(c, ty): w, s = tinfo(ty); return c.ex.wrap(X.arith('Sub', c.args[0], c.args[1]), w, s)[0]
@num("wrapping_mul")
def _(c, ty): w, s = tinfo(ty); return c.ex.wrap(X.arith('Mul', c.args[0], c.args[1]), w, s)[0]
@num("wrapping_neg")
def _(c, ty): w, s = tinfo(ty); return c.ex.wrap(-c.args[0], w, s)[0]
def _ovf(f):
    def g(c, ty):
        w, s = tinfo(ty); v, o = c.ex.wrap(f(*c.args), w, s); return Agg([v, o])
    return g
NUM["overflowing_add"] = _ovf(lambda a, b: X.arith('Add', a, b))
NUM["overflowing_sub"] = _ovf(lambda a, b: X.arith('Sub', a, b))
NUM["overflowing_mul"] = _ovf(lambda a, b: X.arith('Mul', a, b))
def _chk(f):
    def g(c, ty):
        w, s = tinfo(ty); v, o = c.ex.wrap(f(*c.args), w, s)
        return Enum(ONE - o, {1: (v,), 0: ()})
    return g
NUM["checked_add"] = _chk(lambda a, b: X.arith('Add', a, b))
NUM["checked_sub"] = _chk(lambda a, b: X.arith('Sub', a, b))
NUM["checked_mul"] = _chk(lambda a, b: X.arith('Mul', a, b))
@num("checked_shl")
def _(c, ty):
    w, s = tinfo(ty); n = c.args[1]
    if not n.is_const(): return NotImplemented
    n = n.cval()
    if n >= w: return none()
    return some(c.ex.wrap(c.args[0].scale(1 << n), w, s)[0])
@num("saturating_sub")
def _(c, ty):
    w, s = tinfo(ty)
    if s: return NotImplemented
    d = c.args[0] - c.args[1]; l = lt0(d)
    r = d - l * d
    set_bounds(r, 0, (1 << w) - 1)
    return r
@num("from_le_bytes", "from_be_bytes", "from_ne_bytes")
def _from_le(c, ty): return NotImplemented
def _bytes_to(c, ty, le):
    v = c.args[0]
    if not isinstance(v, (Agg, VecV)): raise Unsupported("from_bytes of %s" % type(v).__name__)
    f = v.f if le else v.f[::-1]
    r = ZERO
    for i, x in enumerate(f): r = r + x.scale(1 << (8 * i))
    return r
NUM["from_le_bytes"] = lambda c, ty: _bytes_to(c, ty, True)
NUM["from_ne_bytes"] = NUM["from_le_bytes"]
NUM["from_be_bytes"] = lambda c, ty: _bytes_to(c, ty, False)
def _to_bytes(c, ty, le):
    w, s = tinfo(ty); x = c.args[0]; out = []
    for i in range(w // 8):
        x, lo = divmod2k(x, 8) if i < w // 8 - 1 else (ZERO, x)
        out.append(lo)
    return Agg(out if le else out[::-1])
NUM["to_le_bytes"] = lambda c, ty: _to_bytes(c, ty, True)
NUM["to_ne_bytes"] = NUM["to_le_bytes"]
NUM["to_be_bytes"] = lambda c, ty: _to_bytes(c, ty, False)
@num("pow")
def _(c, ty):
    w, s = tinfo(ty); a, n = c.args
    if n.is_const():
        r = C(1)
        for _i in range(n.cval()):
            r2, o = c.ex.wrap(r * a, w, s)
            if not o.is_zero():
                if c.ex.panic != "assume": c.ex.prove(c.st, ONE - o, "no-panic", "overflow in pow")
            r = r2
        return r
    if a.is_const():
        lo, hi = n.bounds()
        if lo is None or hi is None or hi - lo > 300: raise Unsupported("symbolic exponent")
        r = None
        for k in range(lo, hi + 1):
            v = a.cval() ** k
            if v >= 1 << w:
                c.ex.prove(c.st, lt0(n - k), "no-panic", "overflow in pow"); break
            r = C(v) if r is None else merge_val(eq0(n - k), C(v), r)
        return r
    return NotImplemented
def _clz(c, x, w):
    if x.is_const(): return C(w - x.cval().bit_length())
    at = new_atom("clz", "var", 0, w, key=("clz", x.key(), w))
    r = Poly.atom(at)
    # definition by cases: bit length L = w - clz, 2^(L-1) <= x < 2^L
    return _casebits(c, x, w)
def _casebits(c, x, w):
    r = C(w)
    # clz = sum over i of [x < 2^i]
    r = ZERO
    for i in range(w): r = r + lt0(x - (1 << i))
    set_bounds(r, 0, w)
    return r
@num("leading_zeros")
def _(c, ty): return _clz(c, c.args[0], tinfo(ty)[0])
@num("trailing_zeros")
def _(c, ty):
    w = tinfo(ty)[0]; x = c.args[0]
    if x.is_const():
        v = x.cval(); return C((v & -v).bit_length() - 1 if v else w)
    raise Unsupported("trailing_zeros")
@num("count_ones")
def _(c, ty):
    x = c.args[0]
    if x.is_const(): return C(bin(x.cval()).count("1"))
    raise Unsupported("count_ones")
@num("is_power_of_two")
def _(c, ty):
    x = c.args[0]; w = tinfo(ty)[0]
    if x.is_const(): v = x.cval(); return C(int(v > 0 and v & (v - 1) == 0))
    r = ZERO
    for i in range(w): r = r + eq0(x - (1 << i))
    set_bounds(r, 0, 1)
    return r
@num("next_power_of_two")
def _(c, ty):
    x = c.args[0]
    if x.is_const():
        v = x.cval(); return C(1 if v <= 1 else 1 << (v - 1).bit_length())
    w = tinfo(ty)[0]
    lo, hi = x.bounds()
    n = (hi - 1).bit_length() if hi is not None and hi > 0 else w
    r = C(1)
    # 2^ceil(log2 x) = 1 + sum_{i} [x > 2^i] 2^i
    for i in range(n): r = r + lt0(C(1 << i) - x).scale(1 << i)
    return r
@num("min_value")
def _(c, ty): w, s = tinfo(ty); return C(-(1 << w - 1) if s else 0)
@num("max_value")
def _(c, ty): w, s = tinfo(ty); return C((1 << w - 1) - 1 if s else (1 << w) - 1)
@num("abs_diff")
def _(c, ty):
    d = c.args[0] - c.args[1]; l = lt0(d); return d - (l * d).scale(2)

# ---- intrinsics and trivial std
@b("intrinsic:ctpop")
def _(c): 
    if c.args[0].is_const(): return C(bin(c.args[0].cval()).count("1"))
    raise Unsupported("ctpop")
@b("intrinsic:black_box", "subtle::black_box", "std::hint::black_box", "core::hint::black_box")
def _(c): return c.args[0]
@b("intrinsic:cold_path")
def _(c): return UNIT
@b("intrinsic:is_val_statically_known")
def _(c): return ZERO
@b("intrinsic:saturating_sub")
def _(c):
    d = c.args[0] - c.args[1]; return d - lt0(d) * d
@b("std::ptr::read_volatile", "core::ptr::read_volatile", "std::ptr::read", "intrinsic:volatile_load")
def _(c): return c.ex.load(c.st, c.args[0])
@b("std::mem::swap")
def _(c):
    x = c.ex.load(c.st, c.args[0]); y = c.ex.load(c.st, c.args[1])
    c.ex.store(c.st, c.args[0], y); c.ex.store(c.st, c.args[1], x); return UNIT
@b("std::mem::replace")
def _(c):
    x = c.ex.load(c.st, c.args[0]); c.ex.store(c.st, c.args[0], c.args[1]); return x
@b("std::mem::drop", "std::mem::forget")
def _(c): return UNIT
@b("std::mem::size_of")
def _(c):
    t = c.cal["args"][0]; T = c.ex.ty(t)
    def sz(T):
        if T["k"] in ("uint", "int"): return T["w"] // 8
        if T["k"] == "bool": return 1
        if T["k"] == "array": return sz(c.ex.ty(T["e"])) * T["n"]
        raise Unsupported("size_of")
    return C(sz(T))
@b("std::clone::Clone::clone")
def _(c):
    if c.fn is not None and c.fn.get("blocks") and c.ex.prog.is_local(c.fn): return NotImplemented
    v = c.ex.load(c.st, c.args[0])
    return deep_clone(c, v)
def deep_clone(c, v):
    if isinstance(v, Obj) and v.k == "box":
        return Obj("box", c.ex.alloc(c.st, deep_clone(c, c.ex.load(c.st, v.d))))
    return v
@b("std::borrow::ToOwned::to_owned")
def _(c):
    v = c.ex.load(c.st, c.args[0])
    if isinstance(v, Agg) and c.argty(0)["k"] == "ref" and c.ex.ty(c.argty(0)["e"])["k"] in ("slice", "str"): return VecV(v.f)
    return v
@b("std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut")
def _(c):
    r = c.args[0]
    if isinstance(r, Ref):
        v = c.ex.load(c.st, r)
        if isinstance(v, Ref) and c.argty(0)["k"] == "ref" and c.ex.ty(c.argty(0)["e"])["k"] == "ref" : return v
        if isinstance(v, Obj) and v.k == "box": return v.d
    return r
@b("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "core::array::<impl [T; N]>::as_slice", "core::slice::<impl [T]>::as_ref", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes", "std::string::String::as_str")
def _(c):
    if isinstance(c.args[0], Ref) and isinstance(c.ex.load(c.st, c.args[0]), Opq): return c.args[0]
    r = c.args[0]
    v = c.ex.load(c.st, r)
    if isinstance(v, Obj) and v.k == "box": return v.d
    if isinstance(v, Obj) and v.k == "zeroizing": return Ref(r.cell, r.path)
    if isinstance(v, VecV): return r
    if isinstance(v, Obj) and v.k == "lebytes": return r
    T = c.argty(0); T = c.ex.ty(T["e"]) if "e" in T else None
    if T is not None and T["k"] == "adt" and T["name"].split("::")[-1] in ("Zeroizing",):
        return Ref(r.cell, r.path + (("f", 0),))
    if isinstance(v, Ref): return v
    if T is not None and T["k"] == "adt" and T["name"].endswith("GenericArray") and isinstance(v, Agg): return r
    if isinstance(v, Agg): 
        if c.fn is not None and c.fn.get("blocks") and "lazy_static" not in c.cal["def"] and T is not None and T["k"] == "adt": return NotImplemented
        return r
    if c.fn is not None and c.fn.get("blocks"): return NotImplemented
    return r
import re
def ga_len(name):
    """N of GenericArray<T, N> from the printed type (typenum, most significant bit innermost)"""
    i = name.find("UInt<"); b = re.findall(r"\bB([01])\b", name[i:]) if i >= 0 else []
    return int("".join(b), 2) if b else None
@b("generic_array::GenericArray::<T, N>::from_slice", "generic_array::GenericArray::<T, N>::from_mut_slice")
def _(c):
    n = ga_len(c.fn["name"] if c.fn else c.cal.get("name", ""))
    k = slen(c, base(c, c.args[0]))
    if n is None: return NotImplemented
    if isinstance(k, Poly): k = k.cval() if k.is_const() else None
    if k is None: raise Unsupported("GenericArray::from_slice of a slice of unknown length")
    if k != n: c.ex.do_panic(c.st, "GenericArray::from_slice: length %d, expected %d" % (k, n)); return None
    c.ex.record("no-panic", "GenericArray::from_slice length", True, "const")
    return c.args[0]
@b("zeroize::Zeroizing::<Z>::new")
def _(c): return Agg([c.args[0]])
@b("zeroize::Zeroize::zeroize")
def _(c):
    if c.fn is not None and c.fn.get("blocks") and c.ex.prog.is_local(c.fn): return NotImplemented
    return NotImplemented
@b("std::default::Default::default")
def _(c):
    T = c.ex.ty(c.rty)
    if T["k"] == "adt" and T["name"].endswith("GenericArray") and c.fn is not None and "GenericArray<u8," in c.fn["name"]:
        n = ga_len(c.fn["name"])
        if n: return Agg([ZERO] * n)
    v = default_of(c.ex, T)
    return NotImplemented if v is None else v
def default_of(ex, T):
    k = T["k"]
    if k in ("uint", "int", "bool", "char"): return ZERO
    if k == "adt" and T["name"] in ("std::vec::Vec", "std::string::String"): return VecV(())
    if k == "tuple": return Agg([default_of(ex, ex.ty(x)) for x in T["f"]])
    if k == "array":
        e = default_of(ex, ex.ty(T["e"]))
        return None if e is None else Agg([e] * T["n"])
    return None

# ---- conversions
@b("std::convert::Into::into")
def _(c):
    T = c.ex.ty(c.rty); a = c.args[0]
    if isinstance(a, Poly) and T["k"] in ("uint", "int"): return a
    S = c.argty(0)
    if isinstance(a, Agg) and T["k"] == "adt" and T["name"] == "std::vec::Vec": return VecV(a.f)
    return NotImplemented
@b("std::convert::From::from")
def _(c):
    T = c.ex.ty(c.rty); a = c.args[0]
    if isinstance(a, Poly) and T["k"] in ("uint", "int"): return a
    S = c.argty(0)
    if T["k"] == "adt":
        n = T["name"].split("::")[-1]
        if n == "Choice": return Agg([a]) if isinstance(a, Poly) else a
        if T["name"] == "std::io::Error": return a if isinstance(a, Opq) else Opq("io::Error")
        if n == "Vec":
            if isinstance(a, Ref): return VecV(c.ex.seq(c.st, a))
            return VecV(a.f)
        if n == "BigUint" and isinstance(a, Poly): return Obj("big", a)
        if S is not None and S["k"] == "adt" and S.get("d") == T.get("d"): return a
    if S is not None and S["k"] == "adt" and S["name"].endswith("subtle::Choice"):
        if T["k"] == "bool": return a.f[0]
        if T["k"] == "adt" and T["name"] == "std::option::Option": return NotImplemented
    return NotImplemented
@b("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(c):
    T = c.ex.ty(c.rty)
    # Result<X, E>
    X_ = c.ex.ty(T["v"][0]["f"][0])
    a = c.args[0]
    if X_["k"] == "array":
        f = c.ex.seq(c.st, a)
        if len(f) == X_["n"]: return Enum(ZERO, {0: (Agg(f),), 1: (UNIT,)})
        return Enum(ONE, {1: (a,), 0: (UNINIT,)})
    if X_["k"] == "ref" and c.ex.ty(X_["e"])["k"] == "array":
        f = c.ex.seq(c.st, a)
        if len(f) == c.ex.ty(X_["e"])["n"]: return ok(a)
        return err(UNIT)
    if X_["k"] in ("uint", "int") and isinstance(a, Poly):
        w, s = c.ex.intinfo(T["v"][0]["f"][0])
        mn, mx = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
        good = b_and(ONE - lt0(a - mn), ONE - lt0(C(mx) - a))
        return Enum(ONE - good, {0: (a,), 1: (UNIT,)})
    return NotImplemented

# ---- comparisons on references / arrays
def val_eq(c, x, y):
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    while isinstance(y, Ref): y = c.ex.load(c.st, y)
    if isinstance(x, Poly) and isinstance(y, Poly): return c.ex.cmp(c.st, "Eq", x, y)
    if isinstance(x, FE) and isinstance(y, FE): return feq0(x.p - y.p)
    if isinstance(x, (Agg, VecV)) and isinstance(y, (Agg, VecV)):
        if len(x.f) != len(y.f): return ZERO
        r = ONE
        for p, q in zip(x.f, y.f): r = r * val_eq(c, p, q)
        return r
    if isinstance(x, Enum) and isinstance(y, Enum):
        r = eq0(x.disc - y.disc)
        for v in x.pay:
            if v in y.pay and x.pay[v]:
                e = ONE
                for p, q in zip(x.pay[v], y.pay[v]): e = e * val_eq(c, p, q)
                r = r * (ONE - eq0(x.disc - v) * (ONE - e))
        return r
    raise Unsupported("equality of %s" % type(x).__name__)
def prim_only(ex, T, depth=0):
    k = T["k"]
    if k in ("uint", "int", "bool", "char", "str"): return True
    if k in ("ref", "array", "slice"): return prim_only(ex, ex.ty(T["e"]))
    if k == "tuple": return all(prim_only(ex, ex.ty(x)) for x in T["f"])
    if k == "adt" and T["name"] in ("std::vec::Vec", "std::option::Option", "std::string::String"):
        return all(prim_only(ex, ex.ty(x)) for x in T["args"] if isinstance(x, int) and ex.ty(x)["k"] != "adt")
    return False
@b("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(c):
    neg = c.cal["def"].endswith("ne")
    T = c.argty(0)
    if c.fn is not None and c.fn.get("blocks") and not prim_only(c.ex, T):
        # element types with their own equality: compare element-wise through the real `eq`
        return NotImplemented if not seq_like(c) else seq_eq(c, neg)
    r = val_eq(c, c.args[0], c.args[1])
    return ONE - r if neg else r
def seq_like(c):
    x = c.args[0]
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    return isinstance(x, VecV) or (isinstance(x, Agg) and c.argty(0)["k"] == "ref" and c.ex.ty(c.argty(0)["e"])["k"] in ("array", "slice"))
def seq_eq(c, neg):
    r = val_eq(c, c.args[0], c.args[1])
    return ONE - r if neg else r
@b("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _(c):
    x, y = c.args
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    while isinstance(y, Ref): y = c.ex.load(c.st, y)
    if isinstance(x, Poly) and isinstance(y, Poly):
        return c.ex.cmp(c.st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.cal["def"].split("::")[-1]], x, y)
    return NotImplemented
@b("std::cmp::Ord::max", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::min")
def _(c):
    x, y = c.args
    if not (isinstance(x, Poly) and isinstance(y, Poly)): return NotImplemented
    l = lt0(x - y)
    return merge_val(l, y, x) if c.cal["def"].endswith("max") else merge_val(l, x, y)
@b("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _(c):
    x, y = c.args
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    while isinstance(y, Ref): y = c.ex.load(c.st, y)
    if not (isinstance(x, Poly) and isinstance(y, Poly)): return NotImplemented
    l, e = lt0(x - y), c.ex.cmp(c.st, "Eq", x, y)
    o = Enum(C(2) - l.scale(2) - e, {0: (), 1: (), 2: ()})      # Less, Equal, Greater
    return some(o) if c.cal["def"].endswith("partial_cmp") else o

# ---- arithmetic operator traits on primitive integers
def _opt(name, op):
    @b("std::ops::%s::%s" % (name, name.lower()))
    def f(c):
        x, y = c.args
        while isinstance(x, Ref): x = c.ex.load(c.st, x)
        while isinstance(y, Ref): y = c.ex.load(c.st, y)
        if isinstance(x, Poly) and isinstance(y, Poly):
            t = c.rty
            w, sg = c.ex.intinfo(t)
            if op in ("Add", "Sub", "Mul"):
                r = x + y if op == "Add" else x - y if op == "Sub" else x * y
                v, o = c.ex.wrap(r, w, sg)
                if not o.is_zero():
                    if c.ex.panic == "assume": return r
                    c.ex.prove(c.st, ONE - o, "no-panic", "arithmetic overflow")
                return v
            return c.ex.binop(c.st, op, x, y, t, None)
        if isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Poly) and c.argty(0)["k"] == "adt" and c.argty(0)["name"].endswith("subtle::Choice"):
            p, q = x.f[0], y.f[0]
            return Agg([{"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}[op](p, q)])
        return NotImplemented
    f
for n_, o_ in (("Add", "Add"), ("Sub", "Sub"), ("Mul", "Mul"), ("Div", "Div"), ("Rem", "Rem"), ("BitAnd", "BitAnd"), ("BitOr", "BitOr"), ("BitXor", "BitXor"), ("Shl", "Shl"), ("Shr", "Shr")):
    _opt(n_, o_)
def _opa(name, op):
    nm = {"Add": "add", "Sub": "sub", "Mul": "mul", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}[op]
    @b("std::ops::%sAssign::%s_assign" % (name, nm))
    def f(c):
        x = c.ex.load(c.st, c.args[0]); y = c.args[1]
        while isinstance(y, Ref): y = c.ex.load(c.st, y)
        if isinstance(x, Poly) and isinstance(y, Poly):
            t = c.fn["locals"][1]; t = c.ex.ty(t)["e"]
            w, sg = c.ex.intinfo(t)
            if op in ("Add", "Sub", "Mul"):
                r = x + y if op == "Add" else x - y if op == "Sub" else x * y
                v, o = c.ex.wrap(r, w, sg)
                if not o.is_zero() and c.ex.panic != "assume": c.ex.prove(c.st, ONE - o, "no-panic", "arithmetic overflow")
                if not o.is_zero() and c.ex.panic == "assume": v = r
            else: v = c.ex.binop(c.st, op, x, y, t, None)
            c.ex.store(c.st, c.args[0], v)
            return UNIT
        if isinstance(x, Agg) and len(x.f) == 1 and isinstance(y, Agg) and op in ("BitAnd", "BitOr", "BitXor"):
            p, q = x.f[0], y.f[0]
            c.ex.store(c.st, c.args[0], Agg([{"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}[op](p, q)]))
            return UNIT
        return NotImplemented
    f
for o_ in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"): _opa(o_, o_)
@b("std::ops::Not::not")
def _(c):
    x = c.args[0]
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    if isinstance(x, Poly):
        T = c.ex.ty(c.rty)
        if T["k"] == "bool": return ONE - x
        return C((1 << T["w"]) - 1) - x if T["k"] == "uint" else -x - 1
    if isinstance(x, Agg) and len(x.f) == 1: return Agg([ONE - x.f[0]])
    return NotImplemented
@b("std::ops::Neg::neg")
def _(c):
    x = c.args[0]
    if isinstance(x, Poly): return -x
    return NotImplemented

# ---- subtle
@b("subtle::Choice::unwrap_u8")
def _(c): return c.ex.load(c.st, c.args[0]).f[0]
@b("subtle::ConstantTimeEq::ct_eq")
def _(c):
    if c.fn is not None and c.ex.prog.is_local(c.fn): return NotImplemented
    return Agg([val_eq(c, c.args[0], c.args[1])])
@b("subtle::ConditionallySelectable::conditional_select")
def _(c):
    x = c.ex.load(c.st, c.args[0]); y = c.ex.load(c.st, c.args[1]); ch = c.args[2].f[0]
    if isinstance(x, Poly): return merge_val(ch, y, x)
    return NotImplemented
@b("subtle::ConditionallySelectable::conditional_assign")
def _(c):
    x = c.ex.load(c.st, c.args[0])
    if isinstance(x, Poly):
        y = c.ex.load(c.st, c.args[1]); c.ex.store(c.st, c.args[0], merge_val(c.args[2].f[0], y, x)); return UNIT
    return NotImplemented

# ---- slices, arrays, vectors
def rng(c, idx, n, T):
    """(from, to) of a range value by its type"""
    nm = T["name"].split("::")[-1]
    def i(v):
        v = c.st.simp(v)
        if not v.is_const(): raise Unsupported("symbolic range bound")
        return v.cval()
    if nm == "Range": return i(idx.f[0]), i(idx.f[1])
    if nm == "RangeTo": return 0, i(idx.f[0])
    if nm == "RangeFrom": return i(idx.f[0]), n
    if nm == "RangeFull": return 0, n
    if nm == "RangeInclusive": return i(idx.f[0]), i(idx.f[1]) + 1
    if nm == "RangeToInclusive": return 0, i(idx.f[0]) + 1
    raise Unsupported("range " + nm)
def slen(c, r):
    return len(c.ex.seq(c.st, r))
def base(c, r):
    """follow references until the one that points at the sequence itself"""
    while True:
        v = c.ex.load(c.st, r)
        if isinstance(v, Ref): r = v
        elif isinstance(v, Obj) and v.k == "box": r = v.d
        else: return r
@b("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(c):
    if c.fn is not None and c.ex.prog.is_local(c.fn): return NotImplemented
    r = base(c, c.args[0]); idx = c.args[1]
    v = c.ex.load(c.st, r)
    if not isinstance(v, (Agg, VecV)):
        return NotImplemented
    n = len(v.f)
    if isinstance(idx, Poly):
        idx = c.st.simp(idx)
        if idx.is_const() and idx.cval() >= n: c.ex.do_panic(c.st, "index %d out of bounds (len %d)" % (idx.cval(), n)); return None
        chk_idx(c, idx, n)
        return Ref(r.cell, r.path + (("i", idx.cval() if idx.is_const() else idx),))
    T = c.argty(1)
    a, e = rng(c, idx, n, T)
    return subslice(c, r, a, e, n)
def chk_idx(c, idx, n):
    if c.ex.panic == "assume": return
    if idx.is_const():
        if idx.cval() < n: c.ex.record("no-panic", "index in bounds", True, "const")
        else:
            c.ex.prove(c.st, ZERO, "no-panic", "index %d out of bounds (len %d)" % (idx.cval(), n))
        return
    c.ex.prove(c.st, lt0(idx - n), "no-panic", "index out of bounds (len %d)" % n)
class PanicNow(Exception): pass
def subslice(c, r, a, e, n):
    if not (a <= e <= n):
        c.ex.do_panic(c.st, "slice range %d..%d of length %d" % (a, e, n)); return None
    c.ex.record("no-panic", "slice in bounds", True, "const")
    return Ref(r.cell, r.path + (("s", a, e - a),))
@b("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "std::string::String::len", "core::str::<impl str>::len")
def _(c): return C(slen(c, c.args[0]))
@b("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty", "core::str::<impl str>::is_empty")
def _(c): return C(int(slen(c, c.args[0]) == 0))
@b("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _(c):
    r = base(c, c.args[0]); n = slen(c, r); m = c.args[1]
    if not m.is_const(): raise Unsupported("symbolic split")
    m = m.cval()
    if m > n: c.ex.do_panic(c.st, "split_at %d of %d" % (m, n)); return None
    return Agg([Ref(r.cell, r.path + (("s", 0, m),)), Ref(r.cell, r.path + (("s", m, n - m),))])
@b("core::slice::<impl [T]>::copy_from_slice", "core::slice::copy_from_slice_impl", "core::slice::<impl [T]>::clone_from_slice")
def _(c):
    r = base(c, c.args[0]); src = c.ex.seq(c.st, c.args[1]); n = slen(c, r)
    if n != len(src): c.ex.do_panic(c.st, "copy_from_slice length mismatch %d/%d" % (n, len(src))); return None
    c.ex.record("no-panic", "copy_from_slice lengths", True, "const")
    old = c.ex.load(c.st, r)
    c.ex.store(c.st, r, type(old)(src)); return UNIT
@b("core::slice::<impl [T]>::reverse")
def _(c):
    r = base(c, c.args[0]); v = c.ex.load(c.st, r); c.ex.store(c.st, r, type(v)(v.f[::-1])); return UNIT
@b("core::slice::<impl [T]>::swap")
def _(c):
    r = base(c, c.args[0]); v = c.ex.load(c.st, r); i, j = (x.cval() for x in c.args[1:3]); f = list(v.f)
    f[i], f[j] = f[j], f[i]; c.ex.store(c.st, r, type(v)(f)); return UNIT
@b("core::slice::<impl [T]>::fill")
def _(c):
    r = base(c, c.args[0]); v = c.ex.load(c.st, r); c.ex.store(c.st, r, type(v)([c.args[1]] * len(v.f))); return UNIT
@b("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first_mut")
def _(c):
    r = base(c, c.args[0]); n = slen(c, r); m = c.cal["def"].split("::")[-1]
    if m.startswith("first"): i = C(0)
    elif m.startswith("last"): i = C(n - 1)
    else:
        i = c.st.simp(c.args[1])
        if not isinstance(i, Poly):
            a, e = rng(c, i, n, c.argty(1))
            if not (a <= e <= n): return none()
            return some(Ref(r.cell, r.path + (("s", a, e - a),)))
    if i.is_const():
        if 0 <= i.cval() < n: return some(Ref(r.cell, r.path + (("i", i.cval()),)))
        return none()
    return Enum(lt0(i - n), {1: (Ref(r.cell, r.path + (("i", i),)),), 0: ()})
@b("std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec")
def _(c):
    x = c.args[0]
    while isinstance(x, Ref): x = c.ex.load(c.st, x)
    if isinstance(x, Obj) and x.k == "lebytes": return x
    if isinstance(c.args[0], Obj) and c.args[0].k == "box": return VecV(c.ex.seq(c.st, c.args[0].d))
    return VecV(c.ex.seq(c.st, c.args[0]))
@b("std::slice::<impl [T]>::concat")
def _(c):
    out = []
    for x in c.ex.seq(c.st, c.args[0]):
        out += list(c.ex.seq(c.st, x))
    return VecV(out)
@b("std::vec::from_elem")
def _(c):
    n = c.st.simp(c.args[1])
    if not n.is_const(): raise Unsupported("symbolic vector length")
    if n.cval() > 1 << 20: raise Unsupported("large vector")
    return VecV([c.args[0]] * n.cval())
@b("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::new_in", "std::string::String::new")
def _(c): return VecV(())
@b("std::vec::Vec::<T, A>::push")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); c.ex.store(c.st, r, VecV(v.f + (c.args[1],))); return UNIT
@b("std::vec::Vec::<T, A>::pop")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r)
    if not v.f: return none()
    c.ex.store(c.st, r, VecV(v.f[:-1])); return some(v.f[-1])
@b("std::vec::Vec::<T, A>::truncate")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); c.ex.store(c.st, r, VecV(v.f[:c.args[1].cval()])); return UNIT
@b("std::vec::Vec::<T, A>::clear")
def _(c): c.ex.store(c.st, c.args[0], VecV(())); return UNIT
@b("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit")
def _(c): return UNIT
@b("std::vec::Vec::<T, A>::resize")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); n = c.st.simp(c.args[1])
    if not n.is_const(): raise Unsupported("symbolic resize")
    n = n.cval()
    if isinstance(v, Obj) and v.k == "lebytes":
        lo, hi = v.d.bounds()
        if hi is None or hi.bit_length() > 8 * n: raise Unsupported("resize of a long integer")
        k = min(n, max(1, (hi.bit_length() + 7) // 8))
        c.ex.store(c.st, r, VecV(tuple(le_bytes_of(v.d, k)) + (c.args[2],) * (n - k))); return UNIT
    c.ex.store(c.st, r, VecV(v.f[:n] + (c.args[2],) * (n - len(v.f)))); return UNIT
@b("std::vec::Vec::<T, A>::extend_from_slice")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); c.ex.store(c.st, r, VecV(v.f + tuple(c.ex.seq(c.st, c.args[1])))); return UNIT
@b("std::vec::Vec::<T, A>::append")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); o = c.ex.load(c.st, c.args[1])
    c.ex.store(c.st, r, VecV(v.f + o.f)); c.ex.store(c.st, c.args[1], VecV(())); return UNIT
@b("std::vec::Vec::<T, A>::insert")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); i = c.args[1].cval()
    c.ex.store(c.st, r, VecV(v.f[:i] + (c.args[2],) + v.f[i:])); return UNIT
@b("std::vec::Vec::<T, A>::remove")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); i = c.args[1].cval()
    c.ex.store(c.st, r, VecV(v.f[:i] + v.f[i + 1:])); return v.f[i]
@b("std::vec::Vec::<T, A>::split_off")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r); i = c.args[1].cval()
    c.ex.store(c.st, r, VecV(v.f[:i])); return VecV(v.f[i:])
@b("std::vec::Vec::<T, A>::into_boxed_slice")
def _(c): return Obj("box", c.ex.alloc(c.st, c.args[0]))
@b("std::boxed::Box::<T>::new")
def _(c): return Obj("box", c.ex.alloc(c.st, c.args[0]))
@b("std::boxed::box_new", "std::boxed::Box::<T>::new_uninit", "alloc::boxed::box_new")
def _(c): return Obj("box", c.ex.alloc(c.st, c.args[0] if c.args else UNINIT))

@b("std::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::box_assume_init_into_vec_unsafe")
def _(c):
    v = c.ex.load(c.st, c.args[0].d)
    if isinstance(v, Agg) and len(v.f) == 2 and v.f[0] is UNINIT: v = v.f[1].f[0]      # MaybeUninit { value: ManuallyDrop { value: [T; N] } }
    return VecV(v.f)
# ---- iterators: abstract sequences of items
@b("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _(c):
    r = base(c, c.args[0]); n = slen(c, r)
    return It("list", tuple(Ref(r.cell, r.path + (("i", i),)) for i in range(n)), 0, n)
@b("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::chunks_mut", "core::slice::<impl [T]>::windows")
def _(c):
    r = base(c, c.args[0]); n = slen(c, r); k = c.args[1].cval(); m = c.cal["def"].split("::")[-1]
    if m == "windows": out = [(i, k) for i in range(0, n - k + 1)]
    else:
        out = [(i, min(k, n - i)) for i in range(0, n, k)]
        if m == "chunks_exact": out = [x for x in out if x[1] == k]
    return It("list", tuple(Ref(r.cell, r.path + (("s", i, l),)) for i, l in out), 0, len(out))
@b("std::iter::IntoIterator::into_iter")
def _(c):
    return to_iter(c, c.args[0], c.argty(0))
def to_iter(c, a, T=None):
    if isinstance(a, It): return a
    if isinstance(a, VecV): return It("list", a.f, 0, len(a.f))
    if isinstance(a, Obj) and a.k == "box":
        f = c.ex.seq(c.st, a.d); return It("list", tuple(f), 0, len(f))
    if isinstance(a, Ref):
        v = c.ex.load(c.st, a)
        if isinstance(v, It): return It("byref", a)
        if isinstance(v, (VecV, Agg)):
            r = a
            return It("list", tuple(Ref(r.cell, r.path + (("i", i),)) for i in range(len(v.f))), 0, len(v.f))
        if isinstance(v, Ref): return to_iter(c, v)
    if isinstance(a, Agg):
        if T is not None and T["k"] == "adt":
            n = T["name"].split("::")[-1]
            if n == "Range": return It("range", a.f[0], a.f[1])
            if n == "RangeInclusive": return It("range", a.f[0], a.f[1] + 1)
            if n == "RangeFrom": return It("from", a.f[0])
        if T is not None and T["k"] == "array": return It("list", a.f, 0, len(a.f))
    if isinstance(a, Enum):    # Option
        d = c.st.simp(a.disc)
        if d.is_const(): return It("list", a.pay[1] if d.cval() == 1 else (), 0, d.cval())
    raise Unsupported("into_iter of %s" % type(a).__name__)
def as_it(c, a, T=None):
    if isinstance(a, It): return a
    return to_iter(c, a, T)
def items(c, it):
    """fully enumerate an iterator (concrete length)"""
    out = []
    while True:
        x, it = nxt(c, it)
        if x is None: return out
        out.append(x[0])
        if len(out) > 1 << 16: raise Unsupported("iterator length")
def nxt(c, it):
    """-> ((item,), it') or (None, it')"""
    k = it.k; d = it.d
    if k == "list":
        if d[1] < d[2]: return (d[0][d[1]],), It("list", d[0], d[1] + 1, d[2])
        return None, it
    if k == "range":
        a, e = c.st.simp(d[0]), c.st.simp(d[1])
        t = lt0(a - e)
        t = c.st.simp(t)
        if not t.is_const(): raise Unsupported("symbolic range iteration")
        if t.cval(): return (a,), It("range", a + 1, e)
        return None, it
    if k == "from": return (d[0],), It("from", d[0] + 1)
    if k == "repeat": return (d[0],), it
    if k == "once":
        if d[1]: return (d[0],), It("once", d[0], False)
        return None, it
    if k == "byref":
        inner = c.ex.load(c.st, d[0])
        x, i2 = nxt(c, inner); c.ex.store(c.st, d[0], i2)
        return x, it
    if k == "rev":
        x, i = nxtb(c, d[0]); return x, It("rev", i)
    if k == "enum":
        x, i = nxt(c, d[0])
        if x is None: return None, It("enum", i, d[1])
        return (Agg([d[1], x[0]]),), It("enum", i, d[1] + 1)
    if k == "zip":
        x, i = nxt(c, d[0])
        if x is None: return None, It("zip", i, d[1])
        y, j = nxt(c, d[1])
        if y is None: return None, It("zip", i, j)
        return (Agg([x[0], y[0]]),), It("zip", i, j)
    if k == "map":
        x, i = nxt(c, d[0])
        if x is None: return None, It("map", i, d[1])
        v = c.ex.call_closure(c.st, d[1], [x[0]])
        if v is None: raise Diverge()
        return (v,), It("map", i, d[1])
    if k == "filter":
        i = d[0]
        while True:
            x, i = nxt(c, i)
            if x is None: return None, It("filter", i, d[1])
            rr = c.ex.alloc(c.st, x[0])
            v = c.st.simp(c.ex.call_closure(c.st, d[1], [rr]))
            if not v.is_const(): raise Unsupported("symbolic filter")
            if v.cval(): return x, It("filter", i, d[1])
    if k == "cloned":
        x, i = nxt(c, d[0])
        if x is None: return None, It("cloned", i)
        return (deep_clone(c, c.ex.load(c.st, x[0])),), It("cloned", i)
    if k == "take":
        if d[1] == 0: return None, it
        x, i = nxt(c, d[0]); return x, It("take", i, d[1] - 1)
    if k == "skip":
        i = d[0]
        for _i in range(d[1]): _x, i = nxt(c, i)
        x, i = nxt(c, i); return x, It("skip", i, 0)
    if k == "stepby":
        i = d[0]
        x, i = nxt(c, i)
        if x is None: return None, It("stepby", i, d[1])
        for _i in range(d[1] - 1): _x, i = nxt(c, i)
        return x, It("stepby", i, d[1])
    if k == "chain":
        x, i = nxt(c, d[0])
        if x is not None: return x, It("chain", i, d[1])
        x, j = nxt(c, d[1]); return x, It("chain", i, j)
    if k == "flatmap":
        outer, f, cur = d
        while True:
            if cur is not None:
                x, cur = nxt(c, cur)
                if x is not None: return x, It("flatmap", outer, f, cur)
            y, outer = nxt(c, outer)
            if y is None: return None, It("flatmap", outer, f, None)
            z = c.ex.call_closure(c.st, f, [y[0]]) if f is not None else y[0]
            cur = to_iter(c, z, None)
    raise Unsupported("iterator " + k)
class Diverge(Exception): pass
def itlen(c, it):
    k = it.k; d = it.d
    if k == "list": return d[2] - d[1]
    if k == "range":
        n = c.st.simp(d[1] - d[0])
        if not n.is_const(): raise Unsupported("symbolic range length")
        return max(n.cval(), 0)
    if k in ("rev", "enum", "map", "cloned"): return itlen(c, d[0])
    if k == "zip":
        try: a = itlen(c, d[0])
        except Unsupported: return itlen(c, d[1])
        try: return min(a, itlen(c, d[1]))
        except Unsupported: return a
    if k == "take":
        try: return min(d[1], itlen(c, d[0]))
        except Unsupported: return d[1]
    if k == "skip": return max(0, itlen(c, d[0]) - d[1])
    if k == "stepby": return -(-itlen(c, d[0]) // d[1])
    if k == "chain": return itlen(c, d[0]) + itlen(c, d[1])
    if k == "once": return int(d[1])
    if k == "byref": return itlen(c, c.ex.load(c.st, d[0]))
    raise Unsupported("length of iterator " + k)
def nxtb(c, it):
    k = it.k; d = it.d
    if k == "list":
        if d[1] < d[2]: return (d[0][d[2] - 1],), It("list", d[0], d[1], d[2] - 1)
        return None, it
    if k == "range":
        t = c.st.simp(lt0(d[0] - d[1]))
        if not t.is_const(): raise Unsupported("symbolic range iteration")
        if t.cval(): return (d[1] - 1,), It("range", d[0], d[1] - 1)
        return None, it
    if k == "rev":
        x, i = nxt(c, d[0]); return x, It("rev", i)
    if k == "map":
        x, i = nxtb(c, d[0])
        if x is None: return None, It("map", i, d[1])
        return (c.ex.call_closure(c.st, d[1], [x[0]]),), It("map", i, d[1])
    if k == "cloned":
        x, i = nxtb(c, d[0])
        if x is None: return None, It("cloned", i)
        return (c.ex.load(c.st, x[0]),), It("cloned", i)
    if k == "enum":
        n = itlen(c, d[0])
        x, i = nxtb(c, d[0])
        if x is None: return None, it
        return (Agg([d[1] + (n - 1), x[0]]),), It("enum", i, d[1])
    if k == "zip":
        a, bb = itlen(c, d[0]), itlen(c, d[1])
        i, j = d
        while a > bb: _x, i = nxtb(c, i); a -= 1
        while bb > a: _x, j = nxtb(c, j); bb -= 1
        x, i = nxtb(c, i); y, j = nxtb(c, j)
        if x is None: return None, It("zip", i, j)
        return (Agg([x[0], y[0]]),), It("zip", i, j)
    if k in ("take", "skip", "stepby", "chain"):
        xs = items(c, it)
        return nxtb(c, It("list", tuple(xs), 0, len(xs)))
    raise Unsupported("reverse iterator " + k)

def local_iter(c):
    return c.fn is not None and c.fn.get("blocks") and c.ex.prog.is_local(c.fn)
def self_it(c, i=0):
    a = c.args[i]
    if isinstance(a, It): return a
    T = c.argty(i)
    return to_iter(c, a, T)
def It1(name, f):
    @b("std::iter::Iterator::" + name)
    def g(c):
        if local_iter(c): return NotImplemented
        return f(c)
It1("rev", lambda c: It("rev", self_it(c)))
It1("enumerate", lambda c: It("enum", self_it(c), ZERO))
It1("zip", lambda c: It("zip", self_it(c), to_iter(c, c.args[1], c.argty(1))))
It1("map", lambda c: It("map", self_it(c), c.args[1]))
It1("filter", lambda c: It("filter", self_it(c), c.args[1]))
It1("cloned", lambda c: It("cloned", self_it(c)))
It1("copied", lambda c: It("cloned", self_it(c)))
def ci(c, i):
    v = c.st.simp(c.args[i])
    if not v.is_const(): raise Unsupported("symbolic iterator argument")
    return v.cval()
It1("take", lambda c: It("take", self_it(c), ci(c, 1)))
It1("skip", lambda c: It("skip", self_it(c), ci(c, 1)))
It1("step_by", lambda c: It("stepby", self_it(c), ci(c, 1)))
It1("chain", lambda c: It("chain", self_it(c), to_iter(c, c.args[1], c.argty(1))))
It1("flat_map", lambda c: It("flatmap", self_it(c), c.args[1], None))
It1("flatten", lambda c: It("flatmap", self_it(c), None, None))
It1("by_ref", lambda c: c.args[0])
It1("peekable", lambda c: NotImplemented)
@b("std::iter::zip")
def _(c): return It("zip", to_iter(c, c.args[0], c.argty(0)), to_iter(c, c.args[1], c.argty(1)))
@b("std::iter::repeat")
def _(c): return It("repeat", c.args[0])
@b("std::iter::once")
def _(c): return It("once", c.args[0], True)
def opt(x): return none() if x is None else some(x[0])
@b("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def _(c):
    if local_iter(c): return NotImplemented
    r = c.args[0]
    it = c.ex.load(c.st, r)
    while isinstance(it, Ref): r = it; it = c.ex.load(c.st, r)
    if isinstance(it, Agg):
        T = c.ex.ty(c.argty(0)["e"])
        n = T["name"].split("::")[-1] if T["k"] == "adt" else ""
        if n == "Range":
            x, i = (nxt if c.cal["def"].endswith("next") else nxtb)(c, It("range", it.f[0], it.f[1]))
            c.ex.store(c.st, r, Agg([i.d[0], i.d[1]])); return opt(x)
    if not isinstance(it, It): 
        if isinstance(it, Phi): raise Unsupported("merged iterator")
        return NotImplemented
    x, i = (nxt if c.cal["def"].endswith("next") else nxtb)(c, it)
    c.ex.store(c.st, r, i)
    return opt(x)
@b("std::iter::Iterator::fold")
def _(c):
    if local_iter(c): return NotImplemented
    it = self_it(c); acc = c.args[1]
    while True:
        x, it = nxt(c, it)
        if x is None: return acc
        acc = c.ex.call_closure(c.st, c.args[2], [acc, x[0]])
        if acc is None: return None
@b("std::iter::Iterator::for_each")
def _(c):
    it = self_it(c)
    while True:
        x, it = nxt(c, it)
        if x is None: return UNIT
        if c.ex.call_closure(c.st, c.args[1], [x[0]]) is None: return None
@b("std::iter::Iterator::count")
def _(c): return C(len(items(c, self_it(c))))
@b("std::iter::Iterator::last")
def _(c):
    l = items(c, self_it(c)); return some(l[-1]) if l else none()
@b("std::iter::Iterator::nth")
def _(c):
    r = c.args[0]; it = c.ex.load(c.st, r); x = None
    for _i in range(ci(c, 1) + 1): x, it = nxt(c, it)
    c.ex.store(c.st, r, it); return opt(x)
@b("std::iter::Iterator::all", "std::iter::Iterator::any")
def _(c):
    r = c.args[0]; it = c.ex.load(c.st, r)
    anyq = c.cal["def"].endswith("any")
    acc = ONE
    for x in items(c, it):
        v = c.ex.call_closure(c.st, c.args[1], [x])
        acc = acc * (ONE - v if anyq else v)
    return ONE - acc if anyq else acc
@b("std::iter::Iterator::max", "std::iter::Iterator::min")
def _(c):
    l = [c.ex.load(c.st, x) if isinstance(x, Ref) else x for x in items(c, self_it(c))]
    if not l: return none()
    r = l[0]
    for x in l[1:]:
        t = lt0(x - r)
        r = merge_val(t, r, x) if c.cal["def"].endswith("max") else merge_val(t, x, r)
    return some(r)
@b("std::iter::ExactSizeIterator::len")
def _(c): return C(itlen(c, c.ex.load(c.st, c.args[0])))
@b("std::iter::Iterator::sum", "std::iter::Iterator::product")
def _(c):
    T = c.ex.ty(c.rty)
    if T["k"] in ("uint", "int"):
        isum = c.cal["def"].endswith("sum")
        r = ZERO if isum else ONE
        for x in items(c, self_it(c)):
            x = c.ex.load(c.st, x) if isinstance(x, Ref) else x
            r = r + x if isum else r * x
        v, o = c.ex.wrap(r, T["w"], T["k"] == "int")
        if not o.is_zero() and c.ex.panic != "assume": c.ex.prove(c.st, ONE - o, "no-panic", "overflow in sum")
        return v
    return NotImplemented
@b("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def _(c):
    if c.cal["def"].endswith("from_iter"): it = to_iter(c, c.args[0], c.argty(0))
    else: it = self_it(c)
    T = c.ex.ty(c.rty)
    n = T["name"] if T["k"] == "adt" else ""
    if n in ("std::vec::Vec", "std::string::String"): return VecV(items(c, it))
    if n == "std::boxed::Box": return Obj("box", c.ex.alloc(c.st, VecV(items(c, it))))
    if n == "std::result::Result":
        inner = c.ex.ty(T["v"][0]["f"][0])
        if inner["k"] == "adt" and inner["name"] == "std::vec::Vec":
            out = []; bad = ZERO; ev = ()
            for x in items(c, it):
                d = c.st.simp(x.disc)
                if 1 in x.pay and not d.is_zero(): ev = x.pay[1]
                bad = b_or(bad, d)
                if d.is_const() and d.cval() == 1: return Enum(ONE, {1: x.pay[1]}) if bad.is_const() else Enum(bad, {1: x.pay[1], 0: (VecV(()),)})
                out.append(x.pay[0][0])
            return Enum(bad, {0: (VecV(out),), 1: ev})
    return NotImplemented
@b("std::vec::Vec::<T, A>::drain")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r)
    a, e = rng(c, c.args[1], len(v.f), c.argty(1))
    c.ex.store(c.st, r, VecV(v.f[:a] + v.f[e:]))
    return It("list", v.f[a:e], 0, e - a)
@b("std::iter::Extend::extend")
def _(c):
    r = c.args[0]; v = c.ex.load(c.st, r)
    if not isinstance(v, VecV): return NotImplemented
    xs = [c.ex.load(c.st, x) if isinstance(x, Ref) and c.argty(1)["k"] == "ref" else x for x in items(c, to_iter(c, c.args[1], c.argty(1)))]
    c.ex.store(c.st, r, VecV(v.f + tuple(xs))); return UNIT
# closures
@b("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _(c): return c.ex.call_closure(c.st, c.args[0], list(c.args[1].f))

# ---- formatting (values only reach panics or Display)
@b("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_lower_hex", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::format", "std::string::ToString::to_string", "alloc::fmt::format")
def _(c): return Opq("fmt")
@b("std::io::_print", "std::io::_eprint")
def _(c): return UNIT

# ---- num-bigint (assumed: exact natural-number arithmetic)
@b("num_bigint_dig::BigUint::from_bytes_le", "num_bigint_dig::BigUint::from_bytes_be")
def _(c):
    f = c.ex.seq(c.st, c.args[0])
    if c.cal["def"].endswith("be"): f = f[::-1]
    r = ZERO
    for i, x in enumerate(f): r = r + x.scale(1 << 8 * i)
    return Obj("big", r)
@b("num_bigint_dig::ModInverse::mod_inverse")
def _(c):
    a = c.args[0]; m = c.args[1]
    while isinstance(a, Ref): a = c.ex.load(c.st, a)
    while isinstance(m, Ref): m = c.ex.load(c.st, m)
    if not m.d.is_const(): raise Unsupported("mod_inverse modulus")
    p = m.d.cval()
    return mod_inverse(c, a.d, p)
def mod_inverse(c, a, p):
    # Some(v) with 0 <= v < p and a*v = 1 (mod p) iff gcd(a,p) = 1; p prime: iff a != 0 (mod p)
    fa = a.tofield(p)
    nz = ONE - feq0(fa)
    inv = finv(fa)
    at = new_atom("inv", "var", 0, p - 1, key=("modinv", a.key(), p))
    at.frule[p] = inv
    return Enum(nz, {1: (Obj("bigint", Poly.atom(at)),), 0: ()})
@b("num_bigint_dig::BigInt::to_bytes_le")
def _(c):
    v = c.args[0]
    while isinstance(v, Ref): v = c.ex.load(c.st, v)
    return Agg([Enum(C(2), {0: (), 1: (), 2: ()}), Obj("lebytes", v.d)])
def le_bytes_of(n, k):
    out = []
    for i in range(k - 1):
        n, lo = divmod2k(n, 8); out.append(lo)
    return out + [n]
@b("num_bigint_dig::BigUint::to_bytes_le")
def _(c):
    v = c.args[0]
    while isinstance(v, Ref): v = c.ex.load(c.st, v)
    return Obj("lebytes", v.d)
@b("std::intrinsics::sqrt", "intrinsic:sqrt", "intrinsic:sqrtf64", "std::intrinsics::sqrtf64", "std::f64::<impl f64>::sqrt")
def _(c):
    v = c.args[0]
    if isinstance(v, Obj) and v.k == "float" and v.d[0] == "int": return Obj("float", ("sqrt", v.d[1]))
    raise Unsupported("sqrt")
# ---- maps keyed by integers (association list, newest first)
def _maps(*fs):
    return [p + f for f in fs for p in ("std::collections::HashMap::<K, V>::", "std::collections::HashMap::<K, V, S>::", "std::collections::HashMap::<K, V, S, A>::", "std::collections::BTreeMap::<K, V>::", "std::collections::BTreeMap::<K, V, A>::")]
@b(*_maps("new", "with_capacity"))
def _(c): return Obj("map", ())
def _mkey(c, k):
    while isinstance(k, Ref): k = c.ex.load(c.st, k)
    if not isinstance(k, Poly): raise Unsupported("map key")
    return c.st.simp(k)
def _mapv(c):
    m = c.ex.load(c.st, c.args[0])
    if not isinstance(m, Obj) or m.k != "map": raise Unsupported("map value")
    return m
def _mfind(c, m, k):
    """list of (condition, index) in order, and the condition that nothing matches"""
    rest = ONE; out = []
    for i, (q, _v) in enumerate(m.d):
        e = c.st.simp(eq0(q - k))
        if e.is_zero(): continue
        out.append((rest * e, i)); rest = rest * (ONE - e)
        if rest.is_zero(): break
    return out, rest
@b(*_maps("insert"))
def _(c):
    m = _mapv(c); k = _mkey(c, c.args[1]); hit, rest = _mfind(c, m, k)
    if hit and not (len(hit) == 1 and rest.is_zero()): raise Unsupported("map insert with undetermined key")
    old = none()
    d = [e for i, e in enumerate(m.d) if not hit or i != hit[0][1]]
    if hit: old = some(m.d[hit[0][1]][1])
    if any(not (eq0(q - k).is_const()) for q, _v in m.d): raise Unsupported("map insert with undetermined key")
    c.ex.store(c.st, c.args[0], Obj("map", ((k, c.args[2]),) + tuple(d)))
    return old
@b(*_maps("get", "contains_key", "get_mut", "remove"))
def _(c):
    m = _mapv(c); k = _mkey(c, c.args[1]); hit, rest = _mfind(c, m, k)
    if c.fn is None: op = c.cal["def"].split("::")[-1]
    else: op = c.fn["def"].split("::")[-1]
    if op == "contains_key": return ONE - rest
    if hit and not (len(hit) == 1 and rest.is_zero()):
        if op != "get": raise Unsupported("map " + op + " with undetermined key")
        r = none()
        for cond, i in reversed(hit): r = merge_val(cond, some(c.ex.alloc(c.st, m.d[i][1])), r)
        return r
    if not hit: return none()
    i = hit[0][1]
    if op == "get": return some(c.ex.alloc(c.st, m.d[i][1]))
    if op == "remove":
        c.ex.store(c.st, c.args[0], Obj("map", tuple(e for j, e in enumerate(m.d) if j != i))); return some(m.d[i][1])
    raise Unsupported("map get_mut")
@b("std::io::Error::new", "std::io::Error::other", "alloc::io::error::<impl std::io::Error>::new", "alloc::io::error::<impl std::io::Error>::other", "std::io::error::<impl std::io::Error>::new")
def _(c): return Opq("io::Error")
@b("std::path::Path::new")
def _(c): return c.args[0]
@b("std::array::<impl [T; N]>::map", "core::array::<impl [T; N]>::map")
def _(c):
    v = c.args[0]
    if not isinstance(v, Agg): return NotImplemented
    return Agg([c.ex.call_closure(c.st, c.args[1], [x]) for x in v.f])
@b("std::io::Read::read_exact", "alloc::io::Read::read_exact")
def _(c):
    if c.fn is None or not c.fn["name"].endswith("Read for &[u8]>::read_exact"): return NotImplemented
    p = c.args[0]; src = c.ex.load(c.st, p)
    while isinstance(src, Ref) and isinstance(c.ex.load(c.st, src), Ref): p = src; src = c.ex.load(c.st, src)
    n = slen(c, src); buf = base(c, c.args[1]); k = slen(c, buf)
    if k > n:
        c.ex.store(c.st, p, Ref(src.cell, src.path + (("s", n, 0),))); return Enum(ONE, {1: (Opq("io::Error"),)})
    old = c.ex.load(c.st, buf); c.ex.store(c.st, buf, type(old)(c.ex.seq(c.st, src)[:k]))
    c.ex.store(c.st, p, Ref(src.cell, src.path + (("s", k, n - k),))); return Enum(ZERO, {0: (UNIT,)})
