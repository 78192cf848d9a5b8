"""Symbolic execution of TypeScript functions over the syntax tree the TypeScript compiler's parser produces.

Values: undefined/null, booleans, numbers (concrete, byte atoms, lengths), bigints (concrete, base-256 digit vectors over byte
atoms, opaque terms), strings (concrete, nibble sequences, unpadded hex, decimal), byte arrays (shared storage, optional tail of
symbolic length), objects, closures, classes. An undetermined condition forks the path. Anything else is refused (never skipped)."""
import json, os, subprocess

class Unsupported(Exception): pass
class Stop(Exception): pass
class JsThrow(Exception):
    def __init__(self, v): self.v = v
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class U_:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
UNDEF, NULL = U_("undefined"), U_("null")

def isnum(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
class Opq:
    """opaque value: an uninterpreted function of other values"""
    def __init__(self, *t, kind="any"): self.t, self.kind = t, kind
    def __repr__(self): return "%s(%s)" % (self.t[0], ", ".join(map(repr, self.t[1:])))
class Lin:
    """a length c + sum of symbolic lengths"""
    def __init__(self, c, ls): self.c, self.ls = c, tuple(sorted(ls))
    def __repr__(self): return "%s + %s" % (self.c, self.ls)
class NumA:
    """a byte as a number"""
    def __init__(self, a): self.a = a
    def __repr__(self): return "<%s>" % self.a
class Big:
    """bigint: v is an int, a tuple of base-256 digits (least significant first; ints or atom names), or an Opq"""
    def __init__(self, v):
        if isinstance(v, tuple):
            v = list(v)
            while v and v[-1] == 0: v.pop()
            v = tuple(v)
            if all(isinstance(x, int) for x in v): v = sum(x << 8 * k for k, x in enumerate(v))
        self.v = v
    def dig(self):
        if isinstance(self.v, tuple): return list(self.v)
        if isinstance(self.v, int) and self.v >= 0:
            n = self.v; o = []
            while n: o.append(n & 255); n >>= 8
            return o
        return None
    def __repr__(self): return "%sn" % (self.v,) if not isinstance(self.v, tuple) else "Big" + str(list(self.v)[:3]) + "..[%d]" % len(self.v)
class SStr:
    """string of known length: characters and nibbles ("n", atom, 0 high / 1 low)"""
    def __init__(self, p): self.p = list(p)
    def __repr__(self): return "SStr(%d)" % len(self.p)
class HexNat:
    """hexadecimal of a natural number without leading zeros"""
    def __init__(self, b, pre=""): self.b, self.pre = b, pre
def lib_str():
    from . import lib
    return lib.STR
class HLen:
    """off + sign * (number of digits of h)"""
    def __init__(self, h, off=0, sign=1): self.h, self.off, self.sign = h, off, sign
class Fill:
    """a character repeated n times, n an HLen"""
    def __init__(self, c, n): self.c, self.n = c, n
class Dec:
    def __init__(self, b): self.b = b
def mkstr(p):
    return "".join(p) if all(isinstance(x, str) for x in p) else SStr(p)
def chars(s): return list(s) if isinstance(s, str) else s.p if isinstance(s, SStr) else None
class Tail:
    def __init__(self, name): self.name = name
    def __repr__(self): return "..%s" % self.name
    def __eq__(s, o): return isinstance(o, Tail) and s.name == o.name
    def __hash__(s): return hash(s.name)
class Bytes:
    def __init__(self, store, kind="Uint8Array", lo=0, hi=None): self.s, self.kind, self.lo = store, kind, lo; self.hi = len(store) if hi is None else hi
    def items(self): return self.s[self.lo:self.hi]
    def tail(self): return self.s[self.hi - 1] if self.hi > self.lo and isinstance(self.s[self.hi - 1], Tail) else None
    def fixed(self): return self.hi - self.lo - (1 if self.tail() else 0)
    def length(self): return Lin(self.fixed(), (self.tail().name.split("@")[0],)) if self.tail() else self.fixed()
    def __repr__(self): return "%s%s" % (self.kind, self.items() if self.hi - self.lo < 6 else "[%d]" % (self.hi - self.lo))
class Obj:
    def __init__(self, p=None, cls=None): self.p, self.cls = dict(p or {}), cls
    def __repr__(self): return "{%s}" % ", ".join(self.p)
class Arr:
    def __init__(self, a): self.a = list(a)
    def __repr__(self): return repr(self.a)
class Fn:
    def __init__(self, node, env, this=None, arrow=False, home=None): self.node, self.env, self.this, self.arrow, self.home = node, env, this, arrow, home; self.p = {}
class Native:
    def __init__(self, f, name="native", props=None, new=None): self.f, self.name, self.p, self.new = f, name, dict(props or {}), new
class Bound:
    def __init__(self, f, this): self.f, self.this = f, this
class Cls:
    def __init__(self, node, env, base): self.node, self.env, self.base = node, env, base; self.meth, self.p, self.fields, self.ctor = {}, {}, [], None
class Prom:
    """promise: settled with a value or an exception"""
    def __init__(self, v=None, exc=None): self.v, self.exc = v, exc
class SBool:
    def __init__(self, key, neg=False): self.key, self.neg = key, neg
    def __repr__(self): return ("!" if self.neg else "") + str(self.key)

def key(v):
    """canonical hashable name of a value"""
    if v is UNDEF or v is NULL: return repr(v)
    if isinstance(v, bool) or isinstance(v, str): return (type(v).__name__, v)
    if isnum(v): return ("num", v)
    if isinstance(v, NumA): return ("numa", v.a)
    if isinstance(v, Lin): return ("lin", v.c, v.ls)
    if isinstance(v, Big): return ("big", v.v if not isinstance(v.v, Opq) else key(v.v))
    if isinstance(v, SStr): return ("sstr", tuple(v.p))
    if isinstance(v, HexNat): return ("hex", v.pre, key(v.b))
    if isinstance(v, Dec): return ("dec", key(v.b))
    if isinstance(v, Bytes): return ("bytes", tuple(x.name if isinstance(x, Tail) else x for x in v.items()))
    if isinstance(v, Opq): return ("opq",) + tuple(key(x) if not isinstance(x, (str, int, tuple)) else x for x in v.t)
    if isinstance(v, Arr): return ("arr",) + tuple(key(x) for x in v.a)
    if isinstance(v, Obj): return ("obj",) + tuple((k, key(x)) for k, x in sorted(v.p.items()))
    if hasattr(v, "key"): return v.key()
    return ("id", id(v))

class Env:
    def __init__(self, up=None): self.v, self.up = {}, up
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
        return None

ROOT = os.environ.get("TVC_ROOT", "/repo/packages/lib/src/")
TREES = {}
def trees(root=None):
    root = root or ROOT
    if not TREES:
        fs = sorted(os.path.join(d, f) for d, _, n in os.walk(root) for f in n if f.endswith(".ts") and not f.endswith(".d.ts") and f != "wasmBytes.ts")
        out = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "ast.js")] + fs, capture_output=True, text=True)
        if out.returncode: raise Unsupported("cannot parse: " + out.stderr[-300:])
        TREES.update(json.loads(out.stdout))
    return TREES
def ident(n):
    t = n["escapedText"] if "escapedText" in n else n["text"]
    return t[1:] if t.startswith("___") else t

class Interp:
    def __init__(self, ext, script=(), pre=None):
        self.ext, self.script, self.pos, self.trail = ext, list(script), 0, []
        self.pc = dict(pre or {}); self.mods = {}; self.obls = []; self.calls = []; self.steps = 0; self.line = (None, 0); self.st = None; self.depth = 0
        self.used = {}; self.facts = {}
        self.glob = Env(); self.glob.v = dict(ext.globals(self))
    # --- obligations and forks
    def oblige(self, ok, msg, kind="postcondition", info=None):
        self.obls.append((bool(ok), kind, msg, None if ok else info))
        if not ok: raise Stop()
    def fork(self, k, n=2):
        if k in self.pc: return self.pc[k]
        if self.pos < len(self.script): c = self.script[self.pos]
        else: c = 0
        self.pos += 1; self.trail.append((c, n)); 
        v = (c == 0) if n == 2 else c
        self.pc[k] = v
        return v
    def truth(self, v):
        if isinstance(v, SBool): return self.fork(v.key) != v.neg
        if isinstance(v, HLen): raise Unsupported("length of a variable-length string")
        if v is UNDEF or v is NULL: return False
        if isinstance(v, bool): return v
        if isnum(v): return v != 0 and v == v
        if isinstance(v, str): return v != ""
        if isinstance(v, Big):
            if isinstance(v.v, int): return v.v != 0
            return self.fork(("truthy", key(v)))
        if isinstance(v, (Opq, NumA)): return self.fork(("truthy", key(v)))
        if isinstance(v, SStr): return len(v.p) > 0
        return True
    def throw(self, what): raise JsThrow(Obj({"message": what, "name": "Error"}))
    # --- modules
    def module(self, path):
        if path in self.mods: return self.mods[path]
        t = trees().get(path)
        if t is None: raise Unsupported("no module " + path)
        if "error" in t: raise Unsupported("%s does not parse: %s" % (path, t["error"]))
        e = Env(self.glob); ex = Obj(); self.mods[path] = ex; e.v["exports"] = ex; e.v["__path"] = path; e.v["require"] = Native(lambda I, this, a: self.resolve(a[0], path))
        e.v["module"] = Obj({"exports": ex})
        self.hoist(t["statements"], e)
        for st in t["statements"]: self.stmt(st, e)
        return ex
    def resolve(self, spec, frm):
        m = self.ext.module(self, spec)
        if m is not None: return m
        if spec.startswith("@src/"): p = ROOT + spec[5:]
        elif spec.startswith("."): p = os.path.normpath(os.path.join(os.path.dirname(frm), spec))
        else: raise Unsupported("no contract for module " + spec)
        m = self.ext.module(self, "@src/" + p[len(ROOT):])
        if m is not None: return m
        for c in (p + ".ts", p + "/index.ts", p):
            if c in trees(): return self.module(c)
        raise Unsupported("no module " + spec)
    # --- statements
    def hoist(self, stmts, e):
        for s in stmts:
            if s["k"] == "FunctionDeclaration": e.v[ident(s["name"])] = Fn(s, e)
    def block(self, stmts, e):
        self.hoist(stmts, e)
        for s in stmts: self.stmt(s, e)
    def stmt(self, s, e):
        k = s["k"]; self.steps += 1
        if self.steps > 400000: raise Unsupported("too many steps")
        if "line" in s: self.line = (self.line[0], s["line"])
        if k in ("FirstStatement", "VariableStatement"):
            for d in s["declarationList"]["declarations"]:
                v = self.ev(d["initializer"], e) if d.get("initializer") else UNDEF
                self.bind(d["name"], v, e)
                if s.get("export"): self.export(d["name"], e)
        elif k == "ExpressionStatement": self.ev(s["expression"], e)
        elif k == "ReturnStatement": raise Ret(self.ev(s["expression"], e) if s.get("expression") else UNDEF)
        elif k == "IfStatement":
            if self.truth(self.ev(s["expression"], e)): self.stmt(s["thenStatement"], e)
            elif s.get("elseStatement"): self.stmt(s["elseStatement"], e)
        elif k == "Block": self.block(s["statements"], Env(e))
        elif k == "ForStatement":
            f = Env(e); i = s.get("initializer")
            if i:
                if i["k"] == "VariableDeclarationList":
                    for d in i["declarations"]: self.bind(d["name"], self.ev(d["initializer"], f) if d.get("initializer") else UNDEF, f)
                else: self.ev(i, f)
            while s.get("condition") is None or self.truth(self.ev(s["condition"], f)):
                g = Env(f); g.v.update(f.v)
                try: self.stmt(s["statement"], g)
                except Brk: break
                except Cont: pass
                for n in f.v: f.v[n] = g.v[n]
                if s.get("incrementor"): self.ev(s["incrementor"], f)
        elif k in ("WhileStatement", "DoStatement"):
            if k == "DoStatement":
                try: self.stmt(s["statement"], e)
                except Brk: return
                except Cont: pass
            while not self.fill(s, e) and self.truth(self.ev(s["expression"], e)):
                try: self.stmt(s["statement"], e)
                except Brk: break
                except Cont: pass
        elif k == "ForOfStatement":
            for x in self.iter(self.ev(s["expression"], e)):
                g = Env(e); i = s["initializer"]
                if i["k"] == "VariableDeclarationList": self.bind(i["declarations"][0]["name"], x, g)
                else: self.assign(i, x, g)
                try: self.stmt(s["statement"], g)
                except Brk: break
                except Cont: pass
        elif k == "BreakStatement": raise Brk()
        elif k == "ContinueStatement": raise Cont()
        elif k == "ThrowStatement": raise JsThrow(self.ev(s["expression"], e))
        elif k == "TryStatement":
            try:
                try: self.stmt(s["tryBlock"], e)
                except JsThrow as x:
                    c = s.get("catchClause")
                    if not c: raise
                    g = Env(e)
                    if c.get("variableDeclaration"): self.bind(c["variableDeclaration"]["name"], x.v, g)
                    self.stmt(c["block"], g)
            finally:
                if s.get("finallyBlock"): self.stmt(s["finallyBlock"], e)
        elif k == "SwitchStatement":
            v = self.ev(s["expression"], e); on = False; g = Env(e)
            cl = s["caseBlock"]["clauses"]
            start = None
            for i, c in enumerate(cl):
                if c["k"] == "CaseClause" and self.truth(self.eq(v, self.ev(c["expression"], g))): start = i; break
            if start is None:
                start = next((i for i, c in enumerate(cl) if c["k"] == "DefaultClause"), len(cl))
            try:
                for c in cl[start:]: self.block(c["statements"], g)
            except Brk: pass
        elif k == "ClassDeclaration":
            c = self.cls(s, e); e.v[ident(s["name"])] = c
            if s.get("export"): e.find("exports").v["exports"].p["default" if s.get("default") else ident(s["name"])] = c
        elif k == "FunctionDeclaration":
            if s.get("export"): e.find("exports").v["exports"].p["default" if s.get("default") else ident(s["name"])] = e.v[ident(s["name"])]
        elif k == "ImportDeclaration": self.imp(s, e)
        elif k == "ExportDeclaration":
            if s.get("isTypeOnly"): return
            src = self.resolve(s["moduleSpecifier"]["text"], e.find("__path").v["__path"]) if s.get("moduleSpecifier") else None
            ex = e.find("exports").v["exports"]
            if not s.get("exportClause"):
                ex.p.update(src.p); return
            for x in s["exportClause"].get("elements", []):
                if x.get("isTypeOnly"): continue
                n = ident(x.get("propertyName") or x["name"])
                ex.p[ident(x["name"])] = self.get(src, n) if src is not None else self.ev({"k": "Identifier", "escapedText": n}, e)
        elif k in ("InterfaceDeclaration", "TypeAliasDeclaration", "EmptyStatement"): pass
        elif k == "EnumDeclaration": raise Unsupported("enum")
        else: raise Unsupported("statement " + k)
    def export(self, pat, e):
        if pat["k"] != "Identifier": raise Unsupported("exported pattern")
        e.find("exports").v["exports"].p[ident(pat)] = e.v[ident(pat)]
    def imp(self, s, e):
        c = s.get("importClause")
        if c and c.get("isTypeOnly"): return
        spec = s["moduleSpecifier"]["text"]
        names = []
        if c:
            if c.get("name"): names.append(("default", ident(c["name"])))
            nb = c.get("namedBindings")
            if nb and nb["k"] == "NamespaceImport": names.append((None, ident(nb["name"])))
            elif nb: names += [(ident(x.get("propertyName") or x["name"]), ident(x["name"])) for x in nb["elements"] if not x.get("isTypeOnly")]
        # a name used only as a type is erased: it is resolved when read
        frm = e.find("__path").v["__path"]
        for a, b in names: e.v[b] = ("import", spec, frm, a)
    def bind(self, pat, v, e):
        k = pat["k"]
        if k == "Identifier": e.v[ident(pat)] = v
        elif k == "ObjectBindingPattern":
            seen = []
            for x in pat["elements"]:
                if x.get("dotDotDotToken"):
                    self.bind(x["name"], Obj({n: y for n, y in v.p.items() if n not in seen}), e); continue
                n = self.propname(x["propertyName"], e) if x.get("propertyName") else ident(x["name"])
                seen.append(n); y = self.get(v, n)
                if y is UNDEF and x.get("initializer"): y = self.ev(x["initializer"], e)
                self.bind(x["name"], y, e)
        elif k == "ArrayBindingPattern":
            it = list(self.iter(v))
            for i, x in enumerate(pat["elements"]):
                if x["k"] == "OmittedExpression": continue
                if x.get("dotDotDotToken"): self.bind(x["name"], Arr(it[i:]), e); continue
                y = it[i] if i < len(it) else UNDEF
                if y is UNDEF and x.get("initializer"): y = self.ev(x["initializer"], e)
                self.bind(x["name"], y, e)
        else: raise Unsupported("pattern " + k)
    def assign(self, t, v, e):
        k = t["k"]
        if k == "Identifier":
            n = ident(t); f = e.find(n)
            if f is None: raise Unsupported("assignment to unknown " + n)
            f.v[n] = v
        elif k == "PropertyAccessExpression": self.set(self.ev(t["expression"], e), ident(t["name"]), v)
        elif k == "ElementAccessExpression": self.set(self.ev(t["expression"], e), self.ev(t["argumentExpression"], e), v)
        elif k in ("ParenthesizedExpression", "NonNullExpression", "AsExpression"): self.assign(t["expression"], v, e)
        else: raise Unsupported("assignment to " + k)
    # --- classes and calls
    def cls(self, s, e):
        base = None
        for h in s.get("heritageClauses", []):
            if h["token"] in (96, 94) or True:
                for t in h["types"]:
                    b = t["expression"]
                    if b["k"] == "Identifier":
                        f = e.find(ident(b))
                        if f is not None:
                            try: v = self.ev(b, e)
                            except Unsupported: v = None
                            if isinstance(v, Cls): base = v
        c = Cls(s, e, base)
        if base: c.p.update(base.p)
        for m in s["members"]:
            if m["k"] == "MethodDeclaration":
                f = Fn(m, e, home=c); n = self.propname(m["name"], e)
                (c.p if m.get("static") else c.meth)[n] = f
            elif m["k"] == "Constructor":
                if m.get("body"): c.ctor = Fn(m, e, home=c)
            elif m["k"] == "PropertyDeclaration":
                if m.get("static"): c.p[self.propname(m["name"], e)] = self.ev(m["initializer"], e) if m.get("initializer") else UNDEF
                else: c.fields.append(m)
            elif m["k"] in ("GetAccessor",): c.meth[("get", self.propname(m["name"], e))] = Fn(m, e, home=c)
            elif m["k"] in ("IndexSignature", "SemicolonClassElement"): pass
            else: raise Unsupported("class member " + m["k"])
        return c
    def lookup(self, c, n):
        while c is not None:
            if n in c.meth: return c.meth[n]
            c = c.base
        return None
    def construct(self, c, args):
        if isinstance(c, Native):
            if c.new is None: raise Unsupported("new " + c.name)
            return c.new(self, args)
        if isinstance(c, Obj) and "default" in c.p: return self.construct(c.p["default"], args)
        if not isinstance(c, Cls): raise Unsupported("new of " + repr(c))
        o = Obj(cls=c); self.init(c, o, args); return o
    def init(self, c, o, args):
        if c.ctor is None:
            if c.base: self.init(c.base, o, args)
            self.fieldinit(c, o); return
        if not c.base: self.fieldinit(c, o)
        self.call(c.ctor, o, args)
    def fieldinit(self, c, o):
        for m in c.fields:
            if m.get("initializer"):
                f = Env(c.env); f.v["this"] = o; o.p[self.propname(m["name"], f)] = self.ev(m["initializer"], f)
        if c.ctor:
            pass
    def call(self, f, this, args):
        if isinstance(f, Bound): return self.call(f.f, f.this, args)
        if isinstance(f, Native): return f.f(self, this, args)
        if isinstance(f, Fn) and f.node.get("async"):
            try: v = self.call_(f, this, args)
            except JsThrow as x: return Prom(exc=x)
            return v if isinstance(v, Prom) else Prom(v)
        return self.call_(f, this, args)
    def await_(self, v):
        while isinstance(v, Prom):
            if v.exc is not None: raise JsThrow(v.exc.v)
            v = v.v
        return v
    def call_(self, f, this, args):
        if not isinstance(f, Fn):
            if f is UNDEF: self.throw("not a function")
            raise Unsupported("call of %r" % (f,))
        self.depth += 1
        if self.depth > 60: raise Unsupported("recursion")
        n = f.node; e = Env(f.env)
        nm = n.get("name"); nm = ident(nm) if nm and nm["k"] == "Identifier" else ("constructor" if n["k"] == "Constructor" else "arrow")
        self.used[(f.home and ident(f.home.node["name"]) + "." or "") + nm] = 1
        if not f.arrow: e.v["this"] = this; e.v["__home"] = f.home
        ps = n["parameters"]
        for i, p in enumerate(ps):
            if p.get("dotDotDotToken"): self.bind(p["name"], Arr(args[i:]), e); break
            if p["name"]["k"] == "Identifier" and ident(p["name"]) == "this": continue
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and p.get("initializer"): v = self.ev(p["initializer"], e)
            self.bind(p["name"], v, e)
            if n["k"] == "Constructor" and any(p.get(m) for m in ("private", "public", "readonly", "protected")): this.p[ident(p["name"])] = v
        save = self.line
        try:
            b = n["body"]
            if b["k"] == "Block":
                try: self.block(b["statements"], e)
                except Ret as r: return r.v
                return UNDEF
            return self.ev(b, e)
        finally: self.depth -= 1; self.line = save
    # --- properties
    def propname(self, n, e):
        if n["k"] in ("Identifier", "PrivateIdentifier"): return ident(n)
        if n["k"] in ("StringLiteral", "NumericLiteral"): return n["text"]
        if n["k"] == "ComputedPropertyName": return self.ev(n["expression"], e)
        raise Unsupported("property name " + n["k"])
    def get(self, o, n):
        if isinstance(o, SBool) and self.truth(o) is None: pass
        if o is UNDEF or o is NULL: self.throw("cannot read %s of %s" % (n, o))
        if isinstance(o, Obj):
            if isnum(n): n = str(int(n))
            if n in o.p:
                v = o.p[n]
                return v
            m = self.lookup(o.cls, n) if o.cls else None
            if m is not None: return m
            g = self.lookup(o.cls, ("get", n)) if o.cls else None
            if g is not None: return self.call(g, o, [])
            if hasattr(o, "missing"): return o.missing(self, n)
            return UNDEF
        if isinstance(o, (Cls, Native)):
            if n in o.p: return o.p[n]
            if n in ("bind", "call", "apply"): return self.fnmeth(o, n)
            return UNDEF
        if isinstance(o, (Fn, Bound)): return self.fnmeth(o, n)
        if isinstance(o, Arr):
            if o.a and isinstance(o.a[-1], Tail): raise Unsupported("array with a part of symbolic length")
            if n == "length": return len(o.a)
            if isnum(n): return o.a[int(n)] if 0 <= n < len(o.a) else UNDEF
        if isinstance(o, Bytes):
            if n in ("length", "byteLength"): return o.length()
            if n == "buffer":
                if o.lo: raise Unsupported("buffer of a view")
                return o
            if isnum(n):
                if n < 0 or n != int(n): return UNDEF
                it = o.items(); i = int(n)
                if i < o.fixed(): x = it[i]; return x if isinstance(x, int) else NumA(x)
                if o.tail(): raise Unsupported("index into a tail")
                return UNDEF
        if n == "length":
            if isinstance(o, str): return len(o)
            if isinstance(o, SStr): return len(o.p)
            if isinstance(o, HexNat) and not o.pre: return HLen(o)
            if isinstance(o, (HexNat, Dec)): raise Unsupported("length of a variable-length string")
        if isinstance(o, (str, SStr)) and isnum(n):
            c = chars(o); return mkstr([c[int(n)]]) if 0 <= n < len(c) else UNDEF
        m = self.ext.method(self, o, n)
        if m is not None: return m
        if isinstance(o, Opq): return Opq("get", o, n)
        raise Unsupported("property %r of %s" % (n, type(o).__name__))
    def fnmeth(self, f, n):
        if n == "bind": return Native(lambda I, t, a: Bound(f, a[0]) if len(a) == 1 else Native(lambda J, u, b: J.call(f, a[0], list(a[1:]) + list(b))))
        if n == "call": return Native(lambda I, t, a: I.call(f, a[0], list(a[1:])))
        if n == "apply": return Native(lambda I, t, a: I.call(f, a[0], list(self.iter(a[1]))))
        return f.p.get(n, UNDEF) if hasattr(f, "p") else UNDEF
    def set(self, o, n, v):
        if isinstance(o, Obj):
            o.p[str(int(n)) if isnum(n) else n] = v; return
        if isinstance(o, (Cls, Native)): o.p[n] = v; return
        if isinstance(o, Arr) and isnum(n):
            i = int(n)
            while len(o.a) <= i: o.a.append(UNDEF)
            o.a[i] = v; return
        if isinstance(o, Bytes) and isnum(n):
            i = int(n)
            if i < o.fixed(): o.s[o.lo + i] = self.tobyte(v)
            elif o.tail(): raise Unsupported("store into a tail")
            return
        raise Unsupported("store to %s.%s" % (type(o).__name__, n))
    def tobyte(self, v):
        if isnum(v): return int(v) & 255
        if isinstance(v, NumA): return v.a
        raise Unsupported("byte from %r" % (v,))
    def iter(self, v):
        if isinstance(v, Arr):
            if v.a and isinstance(v.a[-1], Tail): raise Unsupported("iteration over a tail")
            return list(v.a)
        if isinstance(v, Bytes):
            if v.tail(): raise Unsupported("iteration over a tail")
            return [x if isinstance(x, int) else NumA(x) for x in v.items()]
        if isinstance(v, (str, SStr)): return [mkstr([c]) for c in chars(v)]
        raise Unsupported("iteration over %s" % type(v).__name__)
    # --- expressions
    def ev(self, x, e):
        k = x["k"]; self.steps += 1
        if k == "Identifier":
            n = ident(x)
            if n == "undefined": return UNDEF
            f = e.find(n)
            if f is None:
                if n in ("NaN", "Infinity"): return float("nan" if n == "NaN" else "inf")
                self.throw("%s is not defined" % n)
            v = f.v[n]
            if isinstance(v, tuple) and v and v[0] == "import":
                m = self.resolve(v[1], v[2])
                v = m if v[3] is None else (self.get(m, v[3]) if not (v[3] == "default" and "default" not in getattr(m, "p", {})) else m)
                f.v[n] = v
            return v
        if k == "NumericLiteral": return int(x["text"].replace("_", ""), 0) if x["text"].replace("_", "").lstrip("-").isdigit() or x["text"][:2] in ("0x", "0b", "0o") else float(x["text"])
        if k == "BigIntLiteral": return Big(int(x["text"][:-1].replace("_", ""), 0))
        if k in ("StringLiteral", "NoSubstitutionTemplateLiteral", "FirstTemplateToken"): return x["text"]
        if k == "TemplateExpression":
            s = x["head"]["text"]
            for sp in x["templateSpans"]: s = self.add(self.add(s, self.tostr(self.ev(sp["expression"], e))), sp["literal"]["text"])
            return s
        if k == "TrueKeyword": return True
        if k == "FalseKeyword": return False
        if k == "NullKeyword": return NULL
        if k == "ThisKeyword":
            f = e.find("this"); return f.v["this"] if f else UNDEF
        if k in ("ParenthesizedExpression", "AsExpression", "NonNullExpression", "TypeAssertionExpression", "SatisfiesExpression"):
            v = self.ev(x["expression"], e)
            return v
        if k == "AwaitExpression": return self.await_(self.ev(x["expression"], e))
        if k == "ArrowFunction": return Fn(x, e, arrow=True)
        if k == "FunctionExpression": return Fn(x, e)
        if k == "ClassExpression": return self.cls(x, e)
        if k == "PropertyAccessExpression":
            if x["expression"]["k"] == "SuperKeyword":
                return self.lookup(e.find("__home").v["__home"].base, ident(x["name"]))
            o = self.ev(x["expression"], e)
            if x.get("questionDotToken") and (o is UNDEF or o is NULL): return UNDEF
            return self.get(o, ident(x["name"]))
        if k == "ElementAccessExpression":
            o = self.ev(x["expression"], e)
            if x.get("questionDotToken") and (o is UNDEF or o is NULL): return UNDEF
            return self.get(o, self.ev(x["argumentExpression"], e))
        if k == "CallExpression": return self.callx(x, e)
        if k == "NewExpression": return self.construct(self.ev(x["expression"], e), self.args(x.get("arguments") or [], e))
        if k == "ArrayLiteralExpression":
            out = []
            for y in x["elements"]:
                if out and isinstance(out[-1], Tail): raise Unsupported("element after a part of symbolic length")
                if y["k"] == "SpreadElement":
                    v = self.ev(y["expression"], e); t = v.tail() if isinstance(v, Bytes) else None
                    out += self.iter(Bytes(v.items()[:-1]) if t else v) + ([t] if t else [])
                else: out.append(self.ev(y, e))
            return Arr(out)
        if k == "ObjectLiteralExpression":
            o = Obj()
            for p in x["properties"]:
                if p["k"] == "PropertyAssignment": o.p[self.propname(p["name"], e)] = self.ev(p["initializer"], e)
                elif p["k"] == "ShorthandPropertyAssignment": o.p[ident(p["name"])] = self.ev(p["name"], e)
                elif p["k"] == "SpreadAssignment":
                    v = self.ev(p["expression"], e)
                    if isinstance(v, Obj): o.p.update(v.p)
                    elif v is UNDEF or v is NULL: pass
                    else: raise Unsupported("spread of %r" % (v,))
                elif p["k"] == "MethodDeclaration": o.p[self.propname(p["name"], e)] = Fn(p, e)
                else: raise Unsupported(p["k"])
            return o
        if k == "ConditionalExpression": return self.ev(x["whenTrue"] if self.truth(self.ev(x["condition"], e)) else x["whenFalse"], e)
        if k == "TypeOfExpression":
            y = x["expression"]
            if y["k"] == "Identifier" and e.find(ident(y)) is None: return "undefined"
            return self.typeof(self.ev(y, e))
        if k == "VoidExpression": self.ev(x["expression"], e); return UNDEF
        if k == "PrefixUnaryExpression":
            if x["operator"] in ("++", "--"):
                v = self.arith("+" if x["operator"] == "++" else "-", self.ev(x["operand"], e), 1); self.assign(x["operand"], v, e); return v
            v = self.ev(x["operand"], e)
            if x["operator"] == "!":
                if isinstance(v, SBool): return SBool(v.key, not v.neg)
                return not self.truth(v)
            if x["operator"] == "-":
                if isinstance(v, Big): return Big(-v.v) if isinstance(v.v, int) else Big(Opq("-", v))
                if isnum(v): return -v
            if x["operator"] == "+" and isnum(v): return v
            if x["operator"] == "~" and isnum(v): return ~int(v)
            raise Unsupported("unary " + x["operator"])
        if k == "PostfixUnaryExpression":
            v = self.ev(x["operand"], e); one = Big(1) if isinstance(v, Big) else 1
            self.assign(x["operand"], self.arith("+" if x["operator"] == "++" else "-", v, one), e); return v
        if k == "BinaryExpression": return self.binx(x, e)
        if k == "DeleteExpression": raise Unsupported("delete")
        raise Unsupported("expression " + k)
    def typeof(self, v):
        if v is UNDEF: return "undefined"
        if isinstance(v, (bool, SBool)): return "boolean"
        if isnum(v) or isinstance(v, (NumA, Lin)): return "number"
        if isinstance(v, Big): return "bigint"
        if isinstance(v, (str, SStr, HexNat, Dec)): return "string"
        if isinstance(v, (Fn, Native, Cls, Bound)): return "function"
        if isinstance(v, Opq): raise Unsupported("typeof an opaque value")
        return "object"
    def args(self, a, e):
        out = []
        for y in a:
            if y["k"] == "SpreadElement": out += self.iter(self.ev(y["expression"], e))
            else: out.append(self.ev(y, e))
        return out
    def callx(self, x, e):
        f = x["expression"]
        while f["k"] in ("ParenthesizedExpression", "NonNullExpression"): f = f["expression"]
        if f["k"] == "SuperKeyword":
            h = e.find("__home").v["__home"]; o = e.find("this").v["this"]
            if h.base: self.init(h.base, o, self.args(x["arguments"], e))
            self.fieldinit(h, o); return UNDEF
        if f["k"] == "ImportKeyword": return self.resolve(self.args(x["arguments"], e)[0], e.find("__path").v["__path"])
        if f["k"] in ("PropertyAccessExpression", "ElementAccessExpression") and f["expression"]["k"] != "SuperKeyword":
            o = self.ev(f["expression"], e)
            if f.get("questionDotToken") and (o is UNDEF or o is NULL): return UNDEF
            n = ident(f["name"]) if f["k"] == "PropertyAccessExpression" else self.ev(f["argumentExpression"], e)
            fn = self.get(o, n)
            if x.get("questionDotToken") and fn is UNDEF: return UNDEF
            return self.call(fn, o, self.args(x["arguments"], e))
        fn = self.ev(f, e)
        this = e.find("this").v["this"] if f["k"] == "PropertyAccessExpression" else UNDEF
        return self.call(fn, this, self.args(x["arguments"], e))
    def binx(self, x, e):
        op = x["op"]
        if op == "&&":
            a = self.ev(x["left"], e); return self.ev(x["right"], e) if self.truth(a) else (False if isinstance(a, SBool) else a)
        if op == "||":
            a = self.ev(x["left"], e); return (True if isinstance(a, SBool) else a) if self.truth(a) else self.ev(x["right"], e)
        if op == "??":
            a = self.ev(x["left"], e); return self.ev(x["right"], e) if a is UNDEF or a is NULL else a
        if op == "=":
            v = self.ev(x["right"], e)
            if x["left"]["k"] in ("ObjectLiteralExpression", "ArrayLiteralExpression"): raise Unsupported("destructuring assignment")
            self.assign(x["left"], v, e); return v
        if op == ",": self.ev(x["left"], e); return self.ev(x["right"], e)
        if op in ("&&=", "||=", "??="):
            a = self.ev(x["left"], e)
            t = (a is UNDEF or a is NULL) if op == "??=" else self.truth(a) == (op == "&&=")
            if t: a = self.ev(x["right"], e); self.assign(x["left"], a, e)
            return a
        if op.endswith("=") and op not in ("==", "===", "!=", "!==", "<=", ">="):
            v = self.arith(op[:-1], self.ev(x["left"], e), self.ev(x["right"], e)); self.assign(x["left"], v, e); return v
        a, b = self.ev(x["left"], e), self.ev(x["right"], e)
        if op == "in":
            if isinstance(b, Obj): return a in b.p
            raise Unsupported("in")
        if op == "instanceof":
            r = self.ext.instanceof(self, a, b)
            if r is None: raise Unsupported("instanceof")
            return r
        return self.arith(op, a, b)
    def tostr(self, v, base=10):
        if isinstance(v, (str, SStr, HexNat, Dec)): return v
        if isinstance(v, bool): return "true" if v else "false"
        if v is UNDEF or v is NULL: return repr(v)
        if isnum(v):
            if v != int(v): raise Unsupported("string of a fraction")
            v = Big(int(v))
        if isinstance(v, NumA): v = Big((v.a,))
        if isinstance(v, Big):
            if isinstance(v.v, int):
                if base == 10: return str(v.v)
                if base == 16: return "%x" % v.v if v.v >= 0 else "-%x" % -v.v
                if base == 2: return bin(v.v).replace("0b", "")
            if base == 16 and isinstance(v.v, tuple): return HexNat(v)
            if base == 10: return Dec(v)
        if isinstance(v, Opq): return Opq("String", v)
        raise Unsupported("string of %r" % (v,))
    def eq(self, a, b, strict=True):
        if isinstance(a, NumA) and isnum(b) or isinstance(b, NumA) and isnum(a):
            n = b if isnum(b) else a
            if not (0 <= n <= 255 and n == int(n)): return False
            return SBool(("eq",) + tuple(sorted((str(key(Big((a.a if isinstance(a, NumA) else b.a,)))), str(key(Big(int(n))))))))
        if key(a) == key(b) and not (isinstance(a, float) and a != a):
            return True
        if isinstance(a, (Obj, Arr, Bytes, Fn, Native, Cls)) or isinstance(b, (Obj, Arr, Bytes, Fn, Native, Cls)): return a is b
        conc = lambda v: v is UNDEF or v is NULL or isinstance(v, (bool, str)) or isnum(v) or isinstance(v, Big) and isinstance(v.v, int)
        if conc(a) and conc(b):
            if not strict and {type(a), type(b)} & {Big} and (isnum(a) or isnum(b)): return (a.v if isinstance(a, Big) else a) == (b.v if isinstance(b, Big) else b)
            if not strict and {a, b} == {UNDEF, NULL} if a in (UNDEF, NULL) and b in (UNDEF, NULL) else False: return True
            return False
        num = lambda v: v.b if isinstance(v, Dec) or isinstance(v, HexNat) and not v.pre else None
        if num(a) is not None and type(a) is type(b): return self.eq(num(a), num(b))
        if isinstance(a, Opq) and a.kind == "bool" and isinstance(b, bool): return SBool(("truthy", key(a)), not b)
        if isinstance(b, Opq) and b.kind == "bool" and isinstance(a, bool): return SBool(("truthy", key(b)), not a)
        if isinstance(a, SBool) and isinstance(b, bool): return SBool(a.key, a.neg != (not b))
        if isinstance(b, SBool) and isinstance(a, bool): return SBool(b.key, b.neg != (not a))
        if isinstance(a, Opq) or isinstance(b, Opq) or type(a) is type(b):
            pass
        elif strict: return False
        return SBool(("eq",) + tuple(sorted((str(key(a)), str(key(b))))))
    def add(self, a, b):
        if isinstance(a, Fill) and isinstance(b, HexNat) and a.n.h is b and a.n.sign == -1: return lib_str()["padStart"](self, b, a.n.off, a.c)
        if isinstance(a, (str, SStr, HexNat, Dec)) or isinstance(b, (str, SStr, HexNat, Dec)):
            a, b = self.tostr(a), self.tostr(b)
            if isinstance(a, str) and isinstance(b, str): return a + b
            if isinstance(b, HexNat) and isinstance(a, str): return HexNat(b.b, a + b.pre)
            if a == "": return b
            if b == "": return a
            if chars(a) is not None and chars(b) is not None: return mkstr(chars(a) + chars(b))
            return Opq("concat", a, b)
        return None
    def fill(self, s, e):
        """while (x.length < n) x = c + x, for one character c and x the digits of a number: the same as padStart"""
        t, b = s["expression"], s["statement"]
        if b["k"] == "Block": b = b["statements"][0] if len(b["statements"]) == 1 else {"k": ""}
        if s["k"] != "WhileStatement" or t["k"] != "BinaryExpression" or b["k"] != "ExpressionStatement": return False
        l, a = t["left"], b["expression"]
        if l["k"] != "PropertyAccessExpression" or l["expression"]["k"] != "Identifier": return False
        n = self.ev(l, e)
        if not isinstance(n, HLen): return False
        r = a.get("right") or {"k": ""}; x = self.ev(l["expression"], e); same = lambda i: i["k"] == "Identifier" and i["escapedText"] == l["expression"]["escapedText"]
        if t["op"] != "<" or a["k"] != "BinaryExpression" or a["op"] != "=" or not same(a["left"]) or r["k"] != "BinaryExpression" or r["op"] != "+" or not same(r["right"]) or r["left"]["k"] != "StringLiteral" or len(r["left"]["text"]) != 1: raise Unsupported("loop over the length of a variable-length string")
        k = self.ev(t["right"], e)
        if not isnum(k): raise Unsupported("loop over the length of a variable-length string")
        self.assign(a["left"], lib_str()["padStart"](self, x, k, r["left"]["text"]), e); return True
    def arith(self, op, a, b):
        if isinstance(a, HLen) and isnum(b) and op in "+-": return HLen(a.h, a.off + (b if op == "+" else -b), a.sign)
        if isinstance(b, HLen) and isnum(a) and op in "+-": return HLen(b.h, b.off + a, b.sign) if op == "+" else HLen(b.h, a - b.off, -b.sign)
        if isinstance(a, HLen) or isinstance(b, HLen): raise Unsupported("length of a variable-length string")
        if op in ("===", "=="): return self.eq(a, b, op == "===")
        if op in ("!==", "!="):
            r = self.eq(a, b, op == "!=="); return SBool(r.key, not r.neg) if isinstance(r, SBool) else not r
        if op == "+":
            r = self.add(a, b)
            if r is not None: return r
        if isinstance(a, Big) and isinstance(b, Big): return self.bigop(op, a, b)
        if isinstance(a, Big) != isinstance(b, Big) and op not in ("<", ">", "<=", ">="):
            if isinstance(a, Opq) or isinstance(b, Opq): return Opq(op, a, b)
            self.throw("Cannot mix BigInt and other types")
        if op in ("<", ">", "<=", ">="):
            x, y = (Big(int(v)) if isnum(v) and v == int(v) else Big((v.a,)) if isinstance(v, NumA) else v for v in (a, b))
            if isinstance(x, Lin) or isinstance(y, Lin):
                x, y = (Lin(v.v, ()) if isinstance(v, Big) else v for v in (x, y))
                if not (isinstance(x, Lin) and isinstance(y, Lin)): raise Unsupported("comparison")
                if x.ls == y.ls: return {"<": x.c < y.c, ">": x.c > y.c, "<=": x.c <= y.c, ">=": x.c >= y.c}[op]
                k = ("cmp", x.c - y.c, x.ls, y.ls)
                # c + L against a constant: decided when L >= 0 suffices
                if not y.ls and (op in (">", ">=") and (x.c > y.c or op == ">=" and x.c >= y.c)): return True
                if not y.ls and (op in ("<", "<=") and (x.c > y.c or op == "<" and x.c >= y.c)): return False
                return SBool((op, key(x), key(y)))
            if isinstance(x, Big) and isinstance(y, Big): return self.bigop(op, x, y)
            raise Unsupported("comparison of %r and %r" % (a, b))
        if isnum(a) and isnum(b):
            a_, b_ = a, b
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/": return (a // b if isinstance(a, int) and isinstance(b, int) and b and a % b == 0 else a / b) if b else float("nan" if a == 0 else "inf")
            if op == "%": return (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else float("nan")
            if op == "**": return a ** b
            i32 = lambda v: ((int(v) & 0xffffffff) ^ 0x80000000) - 0x80000000
            if op == "<<": return i32(i32(a) << (int(b) & 31))
            if op == ">>": return i32(a) >> (int(b) & 31)
            if op == ">>>": return (int(a) & 0xffffffff) >> (int(b) & 31)
            if op == "&": return i32(a) & i32(b)
            if op == "|": return i32(a) | i32(b)
            if op == "^": return i32(a) ^ i32(b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            x, y = (Lin(v, ()) if isnum(v) else v for v in (a, b))
            if isinstance(x, Lin) and isinstance(y, Lin):
                if op == "+": return Lin(x.c + y.c, x.ls + y.ls)
                if op == "-":
                    l = list(x.ls)
                    for z in y.ls:
                        if z not in l: raise Unsupported("length difference")
                        l.remove(z)
                    return Lin(x.c - y.c, l) if l else x.c - y.c
        if isinstance(a, NumA) or isinstance(b, NumA):
            x, y = (Big((v.a,)) if isinstance(v, NumA) else Big(int(v)) if isnum(v) and v == int(v) else None for v in (a, b))
            if x is not None and y is not None:
                r = self.bigop(op, x, y)
                if isinstance(r, Big):
                    d = r.dig()
                    if d is not None and len(d) <= 1: return (d[0] if isinstance(d[0], int) else NumA(d[0])) if d else 0
                raise Unsupported("number arithmetic on a byte")
        if isinstance(a, Opq) or isinstance(b, Opq): return Opq(op, a, b)
        raise Unsupported("%s on %s and %s" % (op, type(a).__name__, type(b).__name__))
    def bigop(self, op, a, b):
        if isinstance(a.v, int) and isinstance(b.v, int):
            x, y = a.v, b.v
            if op in ("/", "%"):
                if y == 0: self.throw("Division by zero")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return Big(q if op == "/" else x - q * y)
            if op == "**" and y > 4096 or op == "<<" and y > 8192: raise Unsupported("large power")
            f = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "**": lambda: x ** y, "<<": lambda: x << y if y >= 0 else x >> -y, ">>": lambda: x >> y if y >= 0 else x << -y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}
            if op not in f: raise Unsupported("bigint " + op)
            r = f[op](); return r if isinstance(r, bool) else Big(r)
        da, db = a.dig(), b.dig()
        pad = lambda d, n: d + [0] * (n - len(d))
        if da is not None and db is not None:
            n = max(len(da), len(db)); A, B = pad(da, n), pad(db, n)
            if op in ("+", "|", "^") and all(x == 0 or y == 0 for x, y in zip(A, B)): return Big(tuple(x if y == 0 else y for x, y in zip(A, B)))
            if op == "&" and all(x in (0, 255) or y in (0, 255) or isinstance(x, int) and isinstance(y, int) for x, y in zip(A, B)):
                return Big(tuple(x & y if isinstance(x, int) and isinstance(y, int) else (y if x == 255 else 0) if x in (0, 255) else (x if y == 255 else 0) for x, y in zip(A, B)))
            if isinstance(b.v, int):
                if op in ("<<", ">>") and b.v % 8 == 0: k = b.v // 8; return Big(tuple([0] * k + da)) if op == "<<" else Big(tuple(da[k:]))
                if b.v > 0 and b.v & (b.v - 1) == 0 and (b.v.bit_length() - 1) % 8 == 0:
                    k = (b.v.bit_length() - 1) // 8
                    if op == "*": return Big(tuple([0] * k + da))
                    if op == "/": return Big(tuple(da[k:]))
                    if op == "%": return Big(tuple(da[:k]))
            if op == "*" and isinstance(a.v, int): return self.bigop(op, b, a)
            if op in ("<", ">", "<=", ">="):
                lo = lambda d: sum((x if isinstance(x, int) else 0) << 8 * k for k, x in enumerate(d)); hi = lambda d: sum((x if isinstance(x, int) else 255) << 8 * k for k, x in enumerate(d))
                al, ah, bl, bh = lo(A), hi(A), lo(B), hi(B)
                if op in ("<", "<="):
                    if ah < bl or op == "<=" and ah <= bl: return True
                    if al > bh or op == "<" and al >= bh: return False
                else:
                    if al > bh or op == ">=" and al >= bh: return True
                    if ah < bl or op == ">" and ah <= bl: return False
        if op in ("<", ">", "<=", ">="):
            # one canonical atom for the four orders
            x, y, n = {"<": (a, b, False), ">": (b, a, False), "<=": (b, a, True), ">=": (a, b, True)}[op]
            return SBool(("lt", key(x), key(y)), n)
        return Big(Opq(op, a, b))
