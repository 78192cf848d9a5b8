"""Parser of the circom 2 subset: text -> tuples. Every construct outside the subset is refused (never skipped)."""
import os, re

TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(?P<num>0[xX][0-9a-fA-F]+|\d+)|(?P<id>[A-Za-z_$][A-Za-z_$0-9]*)|(?P<str>\"[^\"]*\")"
                 r"|(?P<op><==|==>|===|<--|-->|\*\*=|\*\*|<<=|>>=|\+\+|--|<=|>=|==|!=|&&|\|\||<<|>>|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|[-+*/\\%<>=!&|^~?:;,.(){}\[\]])", re.S)
KW = {"template", "function", "signal", "input", "output", "component", "var", "for", "while", "if", "else", "return", "include", "pragma", "main", "public", "log", "assert", "parallel", "custom"}

class CircomError(Exception): pass

def lex(text, fn):
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise CircomError("%s:%d: cannot read %r" % (fn, line, text[i:i + 10]))
        k = m.lastgroup
        if k: out.append((k, m.group(), line))
        line += text.count("\n", i, m.end())
        i = m.end()
    out.append(("eof", "", line))
    return out

BIN = [["||"], ["&&"], ["==", "!=", "<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "\\", "%"], ["**"]]

class Parser:
    def __init__(self, text, fn): self.t = lex(text, fn); self.i = 0; self.fn = fn
    def peek(self, k=0): return self.t[self.i + k][1]
    def kind(self): return self.t[self.i][0]
    def line(self): return self.t[self.i][2]
    def err(self, m): raise CircomError("%s:%d: %s near %r" % (self.fn, self.line(), m, self.peek()))
    def next(self): x = self.t[self.i]; self.i += 1; return x[1]
    def acc(self, s):
        if self.peek() == s and self.kind() != "str": self.i += 1; return True
        return False
    def exp(self, s):
        if not self.acc(s): self.err("expected %r" % s)
    def ident(self):
        if self.kind() != "id": self.err("expected a name")
        return self.next()
    # expressions
    def expr(self):
        c = self.binary(0)
        if self.acc("?"):
            a = self.expr(); self.exp(":"); b = self.expr()
            return ("cond", c, a, b)
        return c
    def binary(self, lv):
        if lv == len(BIN): return self.unary()
        a = self.binary(lv + 1)
        while self.peek() in BIN[lv] and self.kind() == "op":
            op = self.next(); a = ("bin", op, a, self.binary(lv + 1))
        return a
    def unary(self):
        for op in ("-", "!", "~", "+"):
            if self.acc(op): return ("un", op, self.unary())
        return self.postfix()
    def args(self, close):
        out = []
        while not self.acc(close):
            out.append(self.expr())
            if not self.acc(","): self.exp(close); break
        return out
    def postfix(self):
        k = self.kind()
        if k == "num": return ("num", int(self.next(), 0))
        if self.acc("("):
            e = self.expr()
            if self.peek() == ",":
                es = [e]
                while self.acc(","): es.append(self.expr())
                self.exp(")"); return ("tuple", es)
            self.exp(")"); return e
        if self.acc("["): return ("arr", self.args("]"))
        self.acc("parallel")
        name = self.ident()
        if self.acc("("):
            a = self.args(")")
            if self.acc("("):
                ins = []
                names = None
                while not self.acc(")"):
                    if self.kind() == "id" and self.peek(1) == "<==":
                        n = self.ident(); self.exp("<=="); ins.append((n, self.expr()))
                    else: ins.append((None, self.expr()))
                    if not self.acc(","): self.exp(")"); break
                e = ("anon", name, a, ins, self.line())
            else: e = ("call", name, a)
        else: e = ("var", name, [])
        if e[0] == "var":
            acc = []
            while True:
                if self.acc("["): acc.append(("i", self.expr())); self.exp("]")
                elif self.acc("."): acc.append(("m", self.ident()))
                else: break
            e = ("var", name, acc)
        return e
    # statements
    def block(self):
        self.exp("{"); out = []
        while not self.acc("}"): out.append(self.stmt())
        return out
    def body(self):
        if self.peek() == "{": return self.block()
        return [self.stmt()]
    def dims(self):
        d = []
        while self.acc("["): d.append(self.expr()); self.exp("]")
        return d
    def decl(self, kind):
        """after the keyword(s); names with dims and optional initialisers"""
        ln = self.line(); out = []
        if self.acc("("):
            names = []
            while True:
                n = self.ident(); names.append((n, self.dims()))
                if not self.acc(","): break
            self.exp(")")
            if self.peek() in ("<==", "<--", "="):
                op = self.next(); e = self.expr()
                return [("decl", kind, n, d, None, None, ln) for n, d in names] + [("assign", op, ("tuple", [("var", n, []) for n, d in names]), e, ln)]
            return [("decl", kind, n, d, None, None, ln) for n, d in names]
        while True:
            n = self.ident(); d = self.dims(); op = e = None
            if self.peek() in ("<==", "<--", "="): op = self.next(); e = self.expr()
            out.append(("decl", kind, n, d, op, e, ln))
            if not self.acc(","): break
        return out
    def simple(self):
        ln = self.line()
        if self.acc("var"): return self.decl("var")
        if self.acc("signal"):
            k = "signal"
            if self.acc("input"): k = "input"
            elif self.acc("output"): k = "output"
            if self.acc("{"):
                while not self.acc("}"): self.next()
            return self.decl(k)
        if self.acc("component"): return self.decl("component")
        e = self.expr()
        if self.acc("++"): return [("assign", "+=", e, ("num", 1), ln)]
        if self.acc("--"): return [("assign", "-=", e, ("num", 1), ln)]
        op = self.peek()
        if op in ("=", "<==", "<--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "<<=", ">>=", "**="):
            self.next(); return [("assign", op, e, self.expr(), ln)]
        if op in ("==>", "-->"):
            self.next(); r = self.expr(); return [("assign", "<==" if op == "==>" else "<--", r, e, ln)]
        if op == "===":
            self.next(); return [("constrain", e, self.expr(), ln)]
        if e[0] == "anon": return [("assign", "<==", ("tuple", []), e, ln)]
        self.err("not a statement")
    def stmt(self):
        ln = self.line()
        if self.peek() == "{": return ("block", self.block())
        if self.acc(";"): return ("block", [])
        if self.acc("if"):
            self.exp("("); c = self.expr(); self.exp(")"); a = self.body(); b = []
            if self.acc("else"): b = self.body()
            return ("if", c, a, b, ln)
        if self.acc("for"):
            self.exp("("); a = self.simple(); self.exp(";"); c = self.expr(); self.exp(";"); s = self.simple(); self.exp(")")
            return ("block", a + [("while", c, self.body() + s, ln)])
        if self.acc("while"):
            self.exp("("); c = self.expr(); self.exp(")"); return ("while", c, self.body(), ln)
        if self.acc("return"):
            e = self.expr(); self.exp(";"); return ("return", e, ln)
        if self.acc("assert"):
            self.exp("("); e = self.expr(); self.exp(")"); self.exp(";"); return ("assert", e, ln)
        if self.acc("log"):
            self.exp("(")
            d = 1
            while d:
                x = self.next(); d += (x == "(") - (x == ")")
            self.exp(";"); return ("block", [])
        s = self.simple(); self.exp(";")
        return s[0] if len(s) == 1 else ("multi", s)
    def file(self):
        defs, incs, main = {}, [], None
        while self.kind() != "eof":
            if self.acc("pragma"):
                while not self.acc(";"): self.next()
            elif self.acc("include"):
                incs.append(self.next()[1:-1]); self.exp(";")
            elif self.peek() in ("template", "function"):
                k = self.next()
                if self.peek() in ("custom", "parallel"): self.next()
                n = self.ident(); self.exp("("); ps = []
                while not self.acc(")"):
                    ps.append(self.ident())
                    if not self.acc(","): self.exp(")"); break
                defs[n] = (k, n, ps, self.block(), self.fn)
            elif self.acc("component"):
                self.exp("main"); pub = []
                if self.acc("{"):
                    self.exp("public"); self.exp("[")
                    while not self.acc("]"):
                        pub.append(self.ident()); self.acc(",")
                    self.exp("}")
                self.exp("="); main = (pub, self.expr()); self.exp(";")
            else: self.err("not a definition")
        return defs, incs, main

# circomlib is not in the repository (it is fetched by yarn): its templates are known by contract only. Which file defines which
# template is needed to notice a missing include.
LIBFILE = {"comparators.circom": {"IsZero", "IsEqual", "ForceEqualIfEnabled", "LessThan", "LessEqThan", "GreaterThan", "GreaterEqThan"},
           "bitify.circom": {"Num2Bits", "Bits2Num"}, "gates.circom": {"XOR", "AND", "OR", "NOT", "NAND", "NOR"},
           "mux1.circom": {"MultiMux1", "Mux1"}, "switcher.circom": {"Switcher"}, "sha256/xor3.circom": {"Xor3"}, "sha256/shift.circom": {"ShR"}}
LIBINC = {"comparators.circom": ["bitify.circom"], "bitify.circom": ["comparators.circom"]}

class Program:
    """a circom file with everything it includes"""
    def __init__(self, path):
        self.defs, self.lib, self.files, self.main = {}, set(), {}, None
        self.load(os.path.realpath(path), True)
    def load(self, path, top=False):
        if path in self.files: return
        try: text = open(path).read()
        except OSError: raise CircomError("cannot include " + path)
        try: defs, incs, main = Parser(text, path).file()
        except IndexError: raise CircomError("%s: unexpected end of file" % path)
        self.files[path] = True
        if top: self.main = main
        for n, d in defs.items():
            if n in self.defs: raise CircomError("%s defined twice (%s)" % (n, path))
            self.defs[n] = d
        for i in incs:
            if "node_modules/circomlib/circuits/" in i: self.addlib(i.split("circomlib/circuits/")[1])
            else:
                p = i if os.path.isabs(i) else os.path.join(os.path.dirname(path), i)
                self.load(os.path.realpath(p))
    def addlib(self, f):
        if f not in LIBFILE: raise CircomError("no contract for circomlib file " + f)
        if f in self.lib: return
        self.lib.add(f)
        for g in LIBINC.get(f, []): self.addlib(g)
    def haslib(self, t): return any(t in LIBFILE[f] for f in self.lib)
