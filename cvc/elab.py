"""Elaboration of circom templates over a domain.

A value is a python int (a constant of F_p) or whatever the domain makes (a Poly); every expression also carries circom's own
classification (0 constant, 1 linear, 2 quadratic, 3 beyond), so that a constraint the circom compiler would refuse is refused here.
The domain decides what `<--` means (a free value when soundness is argued, the computed value when completeness is), receives every
`===`, and may answer a component by contract instead of having it elaborated."""
from .parse import CircomError

class Return(Exception):
    def __init__(self, v): self.v = v

class Comp:
    __slots__ = ("name", "params", "ins", "need", "outs", "path", "line")

class Sig:
    """a signal array (or scalar) of the template being elaborated"""
    __slots__ = ("kind", "dims", "vals")
    def __init__(self, kind, dims): self.kind = kind; self.dims = dims; self.vals = {}

def flat(dims):
    if not dims: return [()]
    return [(i,) + r for i in range(dims[0]) for r in flat(dims[1:])]

class Elab:
    def __init__(self, prog, dom):
        self.prog = prog; self.dom = dom; self.p = dom.p
        self.sigs = {}
    # signature of a template: its input and output signals with dimensions
    def signature(self, name, params):
        k = (name, tuple(map(str, params)))
        if k in self.sigs: return self.sigs[k]
        if name not in self.prog.defs:
            if not self.prog.haslib(name): raise CircomError("template %s is not defined by any included file" % name)
            s = self.dom.libsig(name, params)
        else:
            d = self.prog.defs[name]
            if d[0] != "template": raise CircomError(name + " is not a template")
            if len(d[2]) != len(params): raise CircomError("%s takes %d parameters" % (name, len(d[2])))
            f = Frame(self, d, params, None)
            s = ({}, {})
            def walk(stmts):
                for st in stmts:
                    if st[0] in ("multi", "block"): walk(st[1])
                    elif st[0] == "decl" and st[1] == "var": f.stmt(st)
                    elif st[0] == "decl" and st[1] in ("input", "output"):
                        s[0 if st[1] == "input" else 1][st[2]] = [f.const(x) for x in st[3]]
                    elif st[0] == "assign" and st[2][0] == "var" and st[2][1] in f.vars: f.stmt(st)
            walk(d[3])
        self.sigs[k] = s
        return s
    def run(self, name, params, inputs, path="main"):
        """inputs: {(signal, index tuple): value}; returns the outputs in the same form"""
        r = self.dom.component(self, name, params, inputs, path)
        if r is not None: return r
        return self.inline(name, params, inputs, path)
    def inline(self, name, params, inputs, path):
        if name not in self.prog.defs: raise CircomError("no contract for library template " + name)
        f = Frame(self, self.prog.defs[name], params, path)
        f.inputs = inputs
        f.block(self.prog.defs[name][3])
        f.finish()
        out = {}
        for n, s in f.sig.items():
            if s.kind == "output":
                for ix in flat(s.dims): out[(n, ix)] = f.readsig(n, ix)
        return out

def param(v): return [param(x) for x in v] if isinstance(v, list) else v if isinstance(v, tuple) else (v, 0)

class Frame:
    def __init__(self, el, d, params, path):
        self.el, self.dom, self.p, self.path = el, el.dom, el.p, path
        self.vars, self.sig, self.comp, self.inputs = {}, {}, {}, {}
        for n, v in zip(d[2], params): self.vars[n] = param(v)
        self.name = d[1]; self.fn = d[4]; self.line = 0
        self.nanon = 0
    def err(self, m): raise CircomError("%s: %s (line %s): %s" % (self.fn.split("/packages/")[-1], self.name, self.line, m))
    # --- expressions: (value, kind)
    def const(self, e):
        v, k = self.ev(e)
        if not isinstance(v, int): self.err("not a constant expression")
        return v
    def index(self, acc): return tuple(self.const(x[1]) for x in acc)
    def ev(self, e, wit=False):
        t = e[0]
        if t == "num": return (e[1] % self.p, 0)
        if t == "bin": return self.binop(e[1], e[2], e[3], wit)
        if t == "var": return self.read(e)
        if t == "un":
            v, k = self.ev(e[2], wit)
            if e[1] == "-": return (self.neg(v), k)
            if e[1] == "+": return (v, k)
            if e[1] == "!": return self.notb(v, wit)
            return (self.dom.bitop("~", v, None), 3) if not isinstance(v, int) else ((~v) % self.p, 0)
        if t == "cond":
            c, k = self.ev(e[1], wit)
            if isinstance(c, int): return self.ev(e[2] if c else e[3], wit)
            if not wit: self.err("condition depends on signals")
            return self.ev(e[3] if self.dom.branch_zero(c) else e[2], wit)[0], 3
        if t == "arr": return [self.ev(x, wit) for x in e[1]]
        if t == "call":
            d = self.el.prog.defs.get(e[1])
            if d is None or d[0] != "function": self.err("no function " + e[1])
            return self.callf(d, [self.ev(x, wit) for x in e[2]], wit)
        if t == "anon": return self.anon(e)
        self.err("expression " + t)
    def notb(self, v, wit):
        if isinstance(v, int): return (0 if v else 1, 0)
        if not wit: self.err("condition depends on signals")
        return (1 if self.dom.branch_zero(v) else 0, 3)
    def neg(self, v): return (-v) % self.p if isinstance(v, int) else -v
    def signed(self, v): return v if v <= self.p // 2 else v - self.p
    def binop(self, op, ea, eb, wit):
        a, ka = self.ev(ea, wit)
        if op in ("&&", "||") and isinstance(a, int) and bool(a) == (op == "||"): return (int(bool(a)), 0)
        b, kb = self.ev(eb, wit)
        if isinstance(a, list) or isinstance(b, list): self.err("arithmetic on arrays")
        ia, ib = isinstance(a, int), isinstance(b, int)
        p = self.p
        if op in ("+", "-"):
            k = max(ka, kb)
            if ka == 2 and kb == 2: k = 3
            if ia and ib: return ((a + b if op == "+" else a - b) % p, k)
            return (a + b if op == "+" else a - b, k)
        if op == "*":
            k = 3 if ka + kb > 2 else ka + kb
            if ia and ib: return (a * b % p, k)
            if ia or ib: return ((b * a) if ia else (a * b), k)
            return (self.dom.mul(a, b), k)
        if op == "/":
            if ib and kb == 0:
                if b == 0: self.err("division by zero")
                i = pow(b, -1, p); return (a * i % p if ia else a * i, ka)
            if not wit: return (None, 3)
            return (self.dom.div(a, b), 3)
        if ia and ib:
            k = 0 if ka == 0 and kb == 0 else 3
            s = self.signed
            if op == "**": return (pow(a, b, p), k)
            if op == "\\": return (a // b, k)
            if op == "%": return (a % b, k)
            if op == "<<": return (((a << b) & ((1 << p.bit_length()) - 1)) % p if b <= p // 2 else a >> (p - b), k)
            if op == ">>": return (a >> b if b <= p // 2 else 0, k)
            if op == "&": return (a & b, k)
            if op == "|": return ((a | b) % p, k)
            if op == "^": return ((a ^ b) % p, k)
            if op == "==": return (int(a == b), k)
            if op == "!=": return (int(a != b), k)
            if op == "<": return (int(s(a) < s(b)), k)
            if op == ">": return (int(s(a) > s(b)), k)
            if op == "<=": return (int(s(a) <= s(b)), k)
            if op == ">=": return (int(s(a) >= s(b)), k)
            if op == "&&": return (int(bool(a) and bool(b)), k)
            if op == "||": return (int(bool(a) or bool(b)), k)
        if op == "**" and ib:
            r, k = 1, 0
            for i in range(b):
                k = 3 if k + ka > 2 else k + ka
                r = a if isinstance(r, int) and r == 1 else self.dom.mul(r, a)
            return (r, k)
        if not wit: return (None, 3)
        return (self.dom.bitop(op, a, b), 3)
    def callf(self, d, args, wit):
        f = Frame(self.el, d, [], self.path)
        if len(args) != len(d[2]): self.err("arguments of " + d[1])
        for n, v in zip(d[2], args): f.vars[n] = v
        f.isfun = True
        try: f.block(d[3])
        except Return as r: return r.v
        self.err("function %s returns nothing" % d[1])
    # --- reading
    def pick(self, v, acc):
        for x in acc:
            i = self.const(x[1])
            if not isinstance(v, list) or not 0 <= i < len(v): self.err("index %d out of range" % i)
            v = v[i]
        return v
    def readsig(self, n, ix):
        s = self.sig[n]
        if len(ix) == len(s.dims):
            if any(not 0 <= i < d for i, d in zip(ix, s.dims)): self.err("index out of range: %s%s" % (n, list(ix)))
            if s.kind == "input":
                if (n, ix) not in self.inputs: self.err("input %s%s is not assigned" % (n, list(ix)))
                return self.inputs[(n, ix)]
            if ix not in s.vals: s.vals[ix] = self.dom.unassigned("%s.%s%s" % (self.path, n, "".join("[%d]" % i for i in ix)))
            return s.vals[ix]
        return None
    def read(self, e):
        n, acc = e[1], e[2]
        if n in self.sig:
            ix = self.index([a for a in acc])
            s = self.sig[n]
            if len(ix) == len(s.dims): return (self.readsig(n, ix), 1)
            return self.arr(lambda r: (self.readsig(n, ix + r), 1), s.dims[len(ix):])
        if n in self.comp:
            k = next((i for i, a in enumerate(acc) if a[0] == "m"), None)
            if k is None: self.err("component used as a value")
            c = self.getcomp(n, self.index(acc[:k]))
            m = acc[k][1]; ix = self.index(acc[k + 1:])
            ins, outs = self.el.signature(c.name, c.params)
            if m in ins:
                dims = ins[m]; src = lambda i: c.ins.get((m, i))
            else:
                if m not in outs: self.err("%s has no signal %s" % (c.name, m))
                dims = outs[m]
                if c.outs is None: self.err("output %s of component %s read before all its inputs are assigned" % (m, n))
                src = lambda i: c.outs.get((m, i))
            def get(i):
                v = src(i)
                if v is None: self.err("signal %s.%s%s has no value" % (n, m, list(i)))
                return (v, 1)
            if len(ix) == len(dims): return get(ix)
            return self.arr(lambda r: get(ix + r), dims[len(ix):])
        if n in self.vars: return self.pick(self.vars[n], acc)
        self.err("unknown name " + n)
    def arr(self, f, dims, pre=()):
        if not dims: return f(pre)
        return [self.arr(f, dims[1:], pre + (i,)) for i in range(dims[0])]
    def getcomp(self, n, ix):
        d = self.comp[n]
        if ix not in d["c"]: self.err("component %s%s is not instantiated" % (n, list(ix)))
        return d["c"][ix]
    # --- statements
    def block(self, stmts):
        for s in stmts: self.stmt(s)
    def stmt(self, s):
        t = s[0]
        if t == "multi": return self.block(s[1])
        if t == "block":
            if any(x[0] == "decl" and x[1] == "var" for x in s[1]):
                before = set(self.vars)
                shadow = {x[2]: self.vars[x[2]] for x in s[1] if x[0] == "decl" and x[2] in self.vars}
                self.block(s[1])
                for n in set(self.vars) - before: del self.vars[n]
                self.vars.update(shadow)
                return
            return self.block(s[1])
        self.line = s[-1]
        if t == "decl": return self.decl(s)
        if t == "assign": return self.assign(s[1], s[2], s[3])
        if t == "constrain":
            a, b = self.ev(s[1]), self.ev(s[2])
            self.cons(a, b); return
        if t == "if":
            c = self.ev(s[1])[0]
            if not isinstance(c, int): self.err("condition depends on signals")
            return self.scoped(s[2] if c else s[3])
        if t == "while":
            n = 0
            while True:
                c = self.ev(s[1])[0]
                if not isinstance(c, int): self.err("loop condition depends on signals")
                if not c: return
                self.scoped(s[2]); self.line = s[-1]; n += 1
                if n > 2000000: self.err("loop does not end")
        if t == "return": raise Return(self.ev(s[1]))
        if t == "assert":
            v = self.ev(s[1])[0]
            if isinstance(v, int) and not v: self.err("assertion fails")
            return
        self.err("statement " + t)
    def scoped(self, stmts):
        ds = [x[2] for x in stmts if x[0] == "decl" and x[1] == "var"]
        if not ds: return self.block(stmts)
        old = {n: self.vars.get(n) for n in ds}
        self.block(stmts)
        for n, v in old.items():
            if v is None: self.vars.pop(n, None)
            else: self.vars[n] = v
    def cons(self, a, b):
        if isinstance(a, list) or isinstance(b, list):
            if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)): self.err("shapes differ")
            for x, y in zip(a, b): self.cons(x, y)
            return
        k = max(a[1], b[1])
        if a[1] == 2 and b[1] == 2: k = 3
        if k == 3 or a[0] is None or b[0] is None: self.err("constraint is not quadratic")
        if k == 0:
            if a[0] != b[0]: self.err("constant constraint is false")
            return
        d = (a[0] - b[0]) % self.p if isinstance(a[0], int) and isinstance(b[0], int) else a[0] - b[0]
        self.dom.constrain(d, "%s line %d" % (self.name, self.line), self.path)
    def zeros(self, dims): return (0, 0) if not dims else [self.zeros(dims[1:]) for _ in range(dims[0])]
    def decl(self, s):
        _, kind, n, ds, op, e, _ = s
        dims = [self.const(x) for x in ds]
        if kind == "var":
            v = self.ev(e) if e is not None else self.zeros(dims)
            self.vars[n] = self.copy(v); return
        if kind == "component":
            self.comp[n] = {"dims": dims, "c": {}}
            if e is not None: self.assign("=", ("var", n, []), e)
            return
        if n in self.sig: self.err("signal %s declared twice" % n)
        self.sig[n] = Sig(kind, dims)
        if e is not None: self.assign(op, ("var", n, []), e)
    def copy(self, v): return [self.copy(x) for x in v] if isinstance(v, list) else v
    def assign(self, op, l, e):
        if l[0] == "tuple":
            r = self.ev(e)
            if not l[1]: return
            if not isinstance(r, list) or len(r) != len(l[1]): self.err("tuple sizes differ")
            for x, v in zip(l[1], r):
                if not (x[1] == "_"): self.setto(op, x, lambda w, v=v: v)
            return
        if l[0] != "var": self.err("cannot assign")
        n, acc = l[1], l[2]
        if n in self.comp:
            k = next((i for i, a in enumerate(acc) if a[0] == "m"), None)
            if k is None:
                ix = self.index(acc)
                if e[0] != "call": self.err("component must be instantiated with a template")
                if len(ix) != len(self.comp[n]["dims"]) or any(not 0 <= i < d for i, d in zip(ix, self.comp[n]["dims"])): self.err("component index")
                if ix in self.comp[n]["c"]: self.err("component %s assigned twice" % n)
                self.comp[n]["c"][ix] = self.newcomp(e[1], [self.plain(self.ev(x)) for x in e[2]], "%s.%s%s" % (self.path, n, "".join("[%d]" % i for i in ix)))
                return
        self.setto(op, l, lambda w: self.ev(e, w))
    def plain(self, v):
        if isinstance(v, list): return [self.plain(x) for x in v]
        if not isinstance(v[0], int): self.err("template parameter is not constant")
        return v[0]
    def newcomp(self, name, params, path):
        c = Comp(); c.name, c.params, c.ins, c.outs, c.path, c.line = name, params, {}, None, path, self.line
        ins, _ = self.el.signature(name, params)
        c.need = sum(len(flat(d)) for d in ins.values())
        self.trycomp(c)
        return c
    def trycomp(self, c):
        if c.outs is None and len(c.ins) == c.need: c.outs = self.el.run(c.name, c.params, c.ins, c.path)
    def setto(self, op, l, f):
        n, acc = l[1], l[2]
        if n in self.vars and n not in self.sig:
            if op in ("<==", "<--"): self.err("%s is a variable" % n)
            r = f(False)
            if op != "=":
                cur = self.pick(self.vars[n], acc)
                r = self.arith(op[:-1], cur, r)
            if not acc: self.vars[n] = self.copy(r)
            else:
                v = self.pick(self.vars[n], acc[:-1]); i = self.const(acc[-1][1])
                if not isinstance(v, list) or not 0 <= i < len(v): self.err("index out of range")
                v[i] = self.copy(r)
            return
        if op not in ("<==", "<--"): self.err("signal %s assigned with %s" % (n, op))
        if n in self.sig:
            s = self.sig[n]
            if s.kind == "input": self.err("input %s assigned" % n)
            ix = self.index(acc)
            dims = s.dims[len(ix):]
            def put(i, v):
                if any(not 0 <= x < d for x, d in zip(i, s.dims)): self.err("index out of range: %s%s" % (n, list(i)))
                if i in s.vals: self.err("signal %s%s assigned twice" % (n, list(i)))
                s.vals[i] = v
            nm = "%s.%s" % (self.path, n)
        elif n in self.comp:
            k = next(i for i, a in enumerate(acc) if a[0] == "m")
            c = self.getcomp(n, self.index(acc[:k])); m = acc[k][1]; ix = self.index(acc[k + 1:])
            ins, _ = self.el.signature(c.name, c.params)
            if m not in ins: self.err("%s has no input %s" % (c.name, m))
            dims = ins[m][len(ix):]
            def put(i, v):
                if len(i) != len(ins[m]) or any(not 0 <= x < d for x, d in zip(i, ins[m])): self.err("index out of range: %s.%s%s" % (n, m, list(i)))
                if (m, i) in c.ins: self.err("input %s.%s%s assigned twice" % (n, m, list(i)))
                c.ins[(m, i)] = v
                self.trycomp(c)
            nm = c.path + "." + m
        else: self.err("unknown name " + n)
        wit = op == "<--"
        if wit and self.dom.sound:
            for r in flat(dims): put(ix + r, self.dom.free(nm + "".join("[%d]" % i for i in ix + r)))
            return
        v = f(wit)
        def deep(v, dims, i):
            if dims:
                if not isinstance(v, list) or len(v) != dims[0]: self.err("shapes differ in assignment to " + n)
                for j, x in enumerate(v): deep(x, dims[1:], i + (j,))
                return
            if isinstance(v, list): self.err("array assigned to a signal")
            if not wit and (v[1] == 3 or v[0] is None): self.err("constraint is not quadratic")
            put(i, (self.dom.hinted if wit else self.dom.define)(nm + "".join("[%d]" % j for j in i), v[0]))
        deep(v, dims, ix)
    def arith(self, op, a, b):
        f = Frame.__new__(Frame); f.__dict__.update(self.__dict__)
        f.vars = {"$a": a, "$b": b}; f.sig = {}; f.comp = {}
        return f.binop(op, ("var", "$a", []), ("var", "$b", []), False)
    def anon(self, e):
        _, name, params, ins, line = e
        ps = [self.plain(self.ev(x)) for x in params]
        self.nanon += 1
        c = self.newcomp(name, ps, "%s.anon%d" % (self.path, self.nanon))
        si, so = self.el.signature(name, ps)
        if len(ins) != len(si): self.err("anonymous component %s takes %d inputs" % (name, len(si)))
        for (nm, x), key in zip(ins, si):
            key = nm or key
            v = self.ev(x)
            def deep(v, dims, i):
                if dims:
                    if not isinstance(v, list) or len(v) != dims[0]: self.err("shapes differ")
                    for j, y in enumerate(v): deep(y, dims[1:], i + (j,))
                    return
                if v[1] == 3 or v[0] is None: self.err("constraint is not quadratic")
                c.ins[(key, i)] = self.dom.define("%s.%s%s" % (c.path, key, list(i)), v[0])
            deep(v, si[key], ())
        self.trycomp(c)
        r = [self.arr(lambda ix, n=n: (c.outs[(n, ix)], 1), d) for n, d in so.items()]
        return r[0] if len(r) == 1 else r
    def finish(self):
        for n, d in self.comp.items():
            for ix, c in d["c"].items():
                if c.outs is None:
                    si, _ = self.el.signature(c.name, c.params)
                    miss = [k for k, dm in si.items() if any((k, i) not in c.ins for i in flat(dm))]
                    self.err("inputs %s of component %s%s are not assigned" % (miss, n, list(ix)))
