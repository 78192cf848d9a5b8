"""Contracts of the TypeScript library's functions, decided by symbolic execution of their bodies."""
import time
from . import js
from .js import *
from .lib import *

class Obl:
    __slots__ = ("ok", "msg", "how", "line", "fn", "kind", "info")
    def __init__(self, ok, kind, fn, msg, how="normal form", info=None): self.ok, self.kind, self.fn, self.msg, self.how, self.info, self.line = ok, kind, fn, msg, how, info, 0
    def __repr__(self): return "%s %s: %s [%s]" % ("ok" if self.ok else "FAILED", self.fn, self.msg, self.kind)
class Unit:
    def __init__(self, name, fn, run, ext=None, pre=None, bounded=None):
        self.name, self.fn, self.run, self.ext, self.pre, self.bounded = name, fn, run, ext or (lambda: Ext()), dict(pre or {}), bounded
        self.obls, self.err, self.secs, self.branches, self.usedb, self.solver_s, self.calls, self.used = [], None, 0.0, 0, {}, 0, 0, {}
def good(u): return u.err is None and all(o.ok for o in u.obls) and u.obls

def run(u, limit=20000, budget=200):
    t0 = time.time(); script = []; u.obls, u.err, u.branches = [], None, 0; seen = {}
    try:
        while True:
            I = Interp(u.ext(), script, u.pre); u.branches += 1
            try: u.run(I)
            except Stop: pass
            except JsThrow as x: I.obls.append((False, "postcondition", "the function returns on every statement in its domain", "it throws: %s" % (x.v.p.get("message") if isinstance(x.v, Obj) else x.v,)))
            for ok, kind, msg, info in I.obls:
                k = (kind, msg)
                if not ok: u.obls.append(Obl(False, kind, u.fn, msg, "normal form", str(info)[:600] + " on the path " + str({str(k)[:80]: v for k, v in list(I.pc.items())[:12]})[:900]))
                elif k not in seen: seen[k] = 1; u.obls.append(Obl(True, kind, u.fn, msg))
            u.used.update(I.used)
            t = I.trail
            while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
            if not t: break
            script = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
            if u.branches > limit or time.time() - t0 > budget: raise Unsupported("too many paths")
            if sum(not o.ok for o in u.obls) > 20: break
    except Unsupported as e: u.err = "not understood: %s (near line %s)" % (e, I.line[1])
    except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e: u.err = "not understood: %s %s" % (type(e).__name__, e)
    if not u.err and not u.obls: u.err = "no obligation"
    if u.err: u.obls.append(Obl(False, "reach", u.fn, u.err))
    u.secs = time.time() - t0; return u

# ---------- statement values
def bytes_(name, n=32, kind="Uint8Array", tail=None): return Bytes(atoms(name, n) + ([Tail(tail)] if tail else []), kind)
def big_(name, n=32): return bigbe(atoms(name, n))
def exact(I, got, want, what):
    """the byte array `got` holds exactly the bytes `want`"""
    I.oblige(isinstance(got, Bytes), "%s: a byte array" % what, info=got)
    I.oblige(got.items() == want, "%s: the bytes are the specified ones" % what, info="got %s, expected %s" % (first_diff(got.items(), want)))
def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else "end"), (b[i] if i < len(b) else "end")
        if x != y: return ("%s at %d (of %d)" % (x, i, len(a)), "%s (of %d)" % (y, len(b)))
    return ("", "")
def same(I, got, want, what): I.oblige(key(got) == key(want), what, info="got %r, expected %r" % (got, want))
def true_eq(I, got, want, what):
    r = I.eq(got, want); I.oblige(r is True or isinstance(r, SBool) and I.pc.get(r.key) is (not r.neg), what, info="got %r, expected %r" % (got, want))
def mod(I, f): return I.module(js.ROOT + f)
PUB = "helpers/publicInputs.ts"
FIELDS = ("merkleRoot", "Tx", "Ty", "Ux", "Uy")
def pub_obj(I, vals=None):
    c = mod(I, PUB).p["CircuitPubInput"]; vals = vals or [big_(n) for n in FIELDS]
    return I.construct(c, vals), vals

# ---------- T01
def t01():
    us = []
    def ser(I):
        o, v = pub_obj(I); before = {k: key(x) for k, x in o.p.items()}
        got = I.call(I.get(o, "serialize"), o, [])
        exact(I, got, [a for n in FIELDS for a in atoms(n)], "CircuitPubInput.serialize")
        I.oblige({k: key(x) for k, x in o.p.items()} == before, "CircuitPubInput.serialize leaves the object unchanged")
        again = I.call(I.get(o, "serialize"), o, []); exact(I, again, [a for n in FIELDS for a in atoms(n)], "CircuitPubInput.serialize, called again")
    us.append(Unit("CircuitPubInput.serialize", "CircuitPubInput.serialize", ser))
    def ctor(I):
        o, v = pub_obj(I)
        for n, x in zip(FIELDS, v): same(I, I.get(o, n), x, "the constructor stores %s" % n)
    def again(I):
        o, v = pub_obj(I); I.call(I.get(o, "serialize"), o, [])
        for n in FIELDS: I.set(o, n, big_(n + "'"))
        exact(I, I.call(I.get(o, "serialize"), o, []), [a for n in FIELDS for a in atoms(n + "'")], "CircuitPubInput.serialize after the fields are assigned")
        q, _ = pub_obj(I); exact(I, I.call(I.get(q, "serialize"), q, []), [a for n in FIELDS for a in atoms(n)], "CircuitPubInput.serialize of another object")
        C = mod(I, PUB).p["CircuitPubInput"]
        for sfx in ("", "'"):
            o = I.call(I.get(C, "deserialize"), C, [Bytes([a for n in FIELDS for a in atoms(n + sfx)])])
            for n in FIELDS: same(I, I.get(o, n), big_(n + sfx), "CircuitPubInput.deserialize, called again")
    us.append(Unit("CircuitPubInput, several calls", "CircuitPubInput.serialize", again))
    us.append(Unit("CircuitPubInput constructor", "CircuitPubInput", ctor))
    def ser_zero(I):
        vals = [Big(0), Big(1), Big(255), Big(256), Big(PF - 1)]; o, _ = pub_obj(I, vals)
        exact(I, I.call(I.get(o, "serialize"), o, []), [b for x in vals for b in x.v.to_bytes(32, "big")], "CircuitPubInput.serialize of short numbers")
    us.append(Unit("CircuitPubInput.serialize (short numbers)", "CircuitPubInput.serialize", ser_zero))
    for kind, off in (("Uint8Array", 0), ("Uint8Array", 9), ("Buffer", 0), ("Buffer", 9)):
        def de(I, kind=kind, off=off):
            b = Bytes(atoms("pad", off) + [a for n in FIELDS for a in atoms(n)] + atoms("after", 5), kind, off, off + 160); before = list(b.s)
            o = I.call(I.get(mod(I, PUB).p["CircuitPubInput"], "deserialize"), mod(I, PUB).p["CircuitPubInput"], [b])
            for n in FIELDS: same(I, I.get(o, n), big_(n), "CircuitPubInput.deserialize: %s is its 32 bytes, big-endian" % n)
            I.oblige(b.s == before, "CircuitPubInput.deserialize leaves its argument unchanged")
        us.append(Unit("CircuitPubInput.deserialize (%s at offset %d)" % (kind, off), "CircuitPubInput.deserialize", de))
    def mk(I, msg, rv=None):
        o, v = pub_obj(I); P = mod(I, PUB).p["PublicInput"]
        return I.construct(P, [big_("r"), rv or Big(("rV",)), msg, o]), o
    for kind in ("Buffer", "Uint8Array"):
        for n in (0, 32, None):
            def pser(I, kind=kind, n=n):
                m = Bytes(atoms("m", n) if n is not None else [Tail("m@0")], kind); P, o = mk(I, m)
                want = atoms("r") + ["rV"] + [a for f in FIELDS for a in atoms(f)] + list(m.s)
                got = I.call(I.get(P, "serialize"), P, []); exact(I, got, want, "PublicInput.serialize")
                same(I, I.get(P, "r"), big_("r"), "the constructor stores r"); same(I, I.get(P, "rV"), Big(("rV",)), "the constructor stores v")
                I.oblige(I.get(P, "msgHash") is m and m.s == (atoms("m", n) if n is not None else [Tail("m@0")]), "the message hash is stored and not changed")
                exact(I, I.call(I.get(P, "serialize"), P, []), want, "PublicInput.serialize, called again")
                C = mod(I, PUB).p["PublicInput"]; Q = I.call(I.get(C, "deserialize"), C, [got])
                exact(I, I.call(I.get(Q, "serialize"), Q, []), want, "PublicInput: serialize after deserialize after serialize")
            us.append(Unit("PublicInput.serialize (%s hash of %s bytes)" % (kind, "any number of" if n is None else n), "PublicInput.serialize", pser))
            def pde(I, kind=kind, n=n):
                tl = atoms("m", n) if n is not None else [Tail("m@0")]
                b = Bytes(atoms("pad", 3) + atoms("r") + ["rV"] + [a for f in FIELDS for a in atoms(f)] + tl, kind, 3); before = list(b.s)
                C = mod(I, PUB).p["PublicInput"]; o = I.call(I.get(C, "deserialize"), C, [b])
                same(I, I.get(o, "r"), big_("r"), "PublicInput.deserialize: r is the first 32 bytes, big-endian"); same(I, I.get(o, "rV"), Big(("rV",)), "PublicInput.deserialize: rV is byte 32")
                c = I.get(o, "circuitPubInput")
                for f in FIELDS: same(I, I.get(c, f), big_(f), "PublicInput.deserialize: circuitPubInput.%s" % f)
                exact(I, I.get(o, "msgHash"), tl, "PublicInput.deserialize: the message hash is the rest")
                I.oblige(I.get(o, "msgHash").kind == "Buffer", "PublicInput.deserialize: the message hash is a Buffer")
                I.oblige(b.s == before, "PublicInput.deserialize leaves its argument unchanged")
                exact(I, I.call(I.get(o, "serialize"), o, []), b.items(), "PublicInput: serialize after deserialize")
            us.append(Unit("PublicInput.deserialize (%s, hash of %s bytes)" % (kind, "any number of" if n is None else n), "PublicInput.deserialize", pde))
    return us

# ---------- T02
def k_int(b): return ("int", key(b))
def m_bn(I, m): return new_bn(I, [Bytes(list(m.items()), "Buffer")])
def expected(I, r, odd, m):
    """(T, U) = (r^-1 * R, -(m * r^-1) * G), as coordinates"""
    ri = {(("inv", k_int(r)),): 1}
    T = Pt({("R", key(r), odd): ri}); U = Pt({("G",): pmul({k: -v for k, v in m.p.items()}, ri)})
    return {"Tx": coord(T, "x"), "Ty": coord(T, "y"), "Ux": coord(U, "x"), "Uy": coord(U, "y")}
def t02():
    us = []
    for v in (27, 28):
        for kind, n in (("Buffer", 32), ("Buffer", None), ("Uint8Array", 32)):
            mk = lambda kind=kind, n=n: Bytes(atoms("m", n) if n else [Tail("m@0")], kind)
            def comp(I, v=v, mk=mk):
                m = mk(); r = big_("r"); mb = m_bn(I, m); (ma,), = mb.p
                I.pc[("on the curve", key(r))] = True; I.pc[("zero mod N", k_int(r))] = False; I.pc[("zero mod N", ma)] = False
                o = I.call(mod(I, PUB).p["computeEffEcdsaPubInput"], UNDEF, [r, Big(v), m])
                want = expected(I, r, v == 28, mb)
                I.oblige(isinstance(o, Obj) and sorted(o.p) == sorted(want), "computeEffEcdsaPubInput: the fields are Tx, Ty, Ux, Uy", info=o)
                for f in want: same(I, I.get(o, f), want[f], "computeEffEcdsaPubInput: %s" % {"Tx": "Tx is the x coordinate of r^-1 * R", "Ty": "Ty is the y coordinate of r^-1 * R, R with x = r and the parity v says", "Ux": "Ux is the x coordinate of -(m * r^-1) * G", "Uy": "Uy is the y coordinate of -(m * r^-1) * G"}[f])
                I.oblige(m.s == mk().s, "computeEffEcdsaPubInput leaves the message hash unchanged")
            us.append(Unit("computeEffEcdsaPubInput (v = %d, %s hash of %s bytes)" % (v, kind, n or "any number of"), "computeEffEcdsaPubInput", comp))
        def twice(I, v=v):
            for r_, m_, v_ in (("r", "m", v), ("r", "m2", v), ("r2", "m2", v), ("r2", "m2", 55 - v), ("r", "m", v)):
                m = Bytes(atoms(m_), "Buffer"); r = big_(r_); mb = m_bn(I, m); (ma,), = mb.p
                I.pc[("on the curve", key(r))] = True; I.pc[("zero mod N", k_int(r))] = False; I.pc[("zero mod N", ma)] = False
                o = I.call(mod(I, PUB).p["computeEffEcdsaPubInput"], UNDEF, [r, Big(v_), m]); want = expected(I, r, v_ == 28, mb)
                for f in want: same(I, I.get(o, f), want[f], "computeEffEcdsaPubInput in a sequence of calls: %s" % f)
        us.append(Unit("computeEffEcdsaPubInput, several calls (v = %d)" % v, "computeEffEcdsaPubInput", twice))
        def ver(I, v=v):
            m = Bytes(atoms("m"), "Buffer"); r = big_("r"); mb = m_bn(I, m); (ma,), = mb.p
            I.pc[("on the curve", key(r))] = True; I.pc[("zero mod N", k_int(r))] = False; I.pc[("zero mod N", ma)] = False
            o, vals = pub_obj(I); P = I.construct(mod(I, PUB).p["PublicInput"], [r, Big(v), m, o])
            got = I.call(mod(I, PUB).p["verifyEffEcdsaPubInput"], UNDEF, [P]); g = I.truth(got)
            I.oblige(isinstance(got, (bool, SBool)), "verifyEffEcdsaPubInput returns a boolean", info=got)
            want = expected(I, r, v == 28, mb); ok = True
            for f in ("Tx", "Ty", "Ux", "Uy"):
                if not I.truth(I.eq(want[f], I.get(o, f))): ok = False; break
            if g: I.oblige(ok, "verifyEffEcdsaPubInput accepts only the T and U of this r, v and message hash", info="it accepts although %s differs" % f)
            else: I.oblige(not ok, "verifyEffEcdsaPubInput accepts the T and U of this r, v and message hash")
            for f, x in zip(FIELDS, vals): same(I, I.get(o, f), x, "verifyEffEcdsaPubInput leaves the statement unchanged")
        us.append(Unit("verifyEffEcdsaPubInput (v = %d)" % v, "verifyEffEcdsaPubInput", ver))
    return us

# ---------- T03
def statement_valid(I, r, v, m, co):
    """whether Tx..Uy are those of r, v, m: False where the points are undefined"""
    odd = (v - 27) % 2 == 1
    if not I.fork(("on the curve", key(r))): return False
    if zero_mod(I, bnof(r).p) or zero_mod(I, m.p): return False
    want = expected(I, r, odd, m)
    return all(I.truth(I.eq(want[f], co[f])) for f in ("Tx", "Ty", "Ux", "Uy"))
def verifier(n_tail, vs, remote, window, kind="Uint8Array", profile=False, before=None):
    def f(I):
        v = vs[I.fork("the v byte", len(vs))] if len(vs) > 1 else vs[0]
        if len(vs) == 2 and isinstance(v, bool): v = vs[v]
        cls = mod(I, "core/verifier.ts").p["MembershipVerifier"]
        cfg = Obj({"circuit": "the circuit", "enableProfiler": profile}); 
        if remote is not None: cfg.p["useRemoteCircuit"] = remote
        o = I.construct(cls, [cfg])
        if before is not None:          # an accepted proof of another statement with the same verifier; before: what the two statements share
            nm = lambda x: x if x in before else x + "'"
            r0, m0 = big_(nm("r")), m_bn(I, Bytes(atoms(nm("m")), "Buffer")); (ma,), = m0.p
            for k, x in ((("on the curve", key(r0)), True), (("zero mod N", k_int(r0)), False), (("zero mod N", ma), False), (("file cannot be read", key("the circuit")), False)): I.pc[k] = x
            w0 = expected(I, r0, v == 28, m0); cs0 = atoms(nm("merkleRoot")) + [a for n in FIELDS[1:] for a in reversed(w0[n].dig())]
            k0 = tuple(key(Bytes(x)) for x in ([Tail("file:the circuit")], [Tail(nm("a proof"))], cs0)); I.pc[("wasm verify fails",) + k0] = False; I.pc[("wasm verify",) + k0] = True
            g0 = I.await_(I.call(I.get(o, "verify"), o, [Obj({"proof": Bytes([Tail(nm("a proof"))]), "publicInputSer": Bytes(atoms(nm("r")) + [v] + cs0 + atoms(nm("m")))})]))
            I.oblige(I.truth(g0), "verify accepts a valid statement with an accepted proof")
        ser = atoms("r") + [v] + [a for n in FIELDS for a in atoms(n)] + ([Tail("m@0")] if n_tail is None else atoms("m", n_tail))
        pub = Bytes(list(ser), kind); proof = Bytes([Tail("a proof")])
        try: got = I.await_(I.call(I.get(o, "verify"), o, [Obj({"proof": proof, "publicInputSer": pub})])); thrown = False
        except JsThrow: got = False; thrown = True
        g = I.truth(got)
        if not thrown: I.oblige(isinstance(got, (bool, SBool)), "verify resolves to a boolean", info=got)
        url = bool(remote) or window; name = ("url:" if url else "file:") + "the circuit"
        want = tuple(key(Bytes(x)) for x in ([Tail(name)], [Tail("a proof")], ser[33:193]))
        calls = [tuple(key(x) for x in c[1:]) for c in I.calls if c[0] == "verify"]
        if g: I.oblige(want in calls, "verify accepts only after checking this proof against the %s circuit and the 160 serialized bytes" % ("fetched" if url else "local"), info=first_diff(sum([list(c[1]) for c in calls[:1] and calls[0]], []), ser[33:193]))
        opened = I.pc.get(("response ok", name)) is not False and not I.pc.get(("fetch fails" if url else "file cannot be read", key("the circuit")), True)
        proved = want in calls and I.pc.get(("wasm verify fails",) + want) is False and I.truth(SBool(("wasm verify",) + want))
        m = m_bn(I, Bytes(ser[193:], "Buffer"))
        valid = statement_valid(I, big_("r"), v, m, {n: big_(n) for n in FIELDS[1:]})
        if g:
            I.oblige(proved, "verify accepts only when the proof is accepted")
            I.oblige(valid, "verify accepts only when T and U are those of r, v and the message hash", info=[k for k, x in I.pc.items() if x is False][:4])
        elif valid and opened and not calls_undone(I): I.oblige(not proved and want in calls, "verify accepts a valid statement with an accepted proof" if not thrown else "verify does not throw on a valid statement with an accepted proof", info=(proved, calls and "called" or "not called"))
        if valid and opened: I.oblige(not thrown, "verify resolves to false when the proof is refused by an exception")
        I.oblige(pub.s == ser, "verify leaves the serialized statement unchanged"); I.oblige(proof.s == [Tail("a proof")], "verify leaves the proof unchanged")
    return f
def calls_undone(I): return False
def short(n):
    def f(I):
        cls = mod(I, "core/verifier.ts").p["MembershipVerifier"]; o = I.construct(cls, [Obj({"circuit": "the circuit"})])
        try: got = I.await_(I.call(I.get(o, "verify"), o, [Obj({"proof": Bytes([Tail("a proof")]), "publicInputSer": Bytes((atoms("b", n))[:n])})]))
        except JsThrow: got = False
        I.oblige(not I.truth(got), "verify does not accept a truncated statement")
    return f
def circuit_inputs():
    from cvc import units as CU
    from cvc.elab import Elab, Frame
    from cvc.dom import Conc
    out = {}
    for f in ("pubkey_membership", "addr_membership"):
        path = CU.ROOT + "instances/%s.circom" % f; p = CU.program(path)
        pub, e = p.main; d = Conc(); el = Elab(p, d); fr = Frame(el, ("template", "main", [], [], path), [], "main")
        ins, _ = el.signature(e[1], [fr.const(x) for x in e[2]])
        out[f] = sorted(ins)
    return out
def sig_of(v): return {"r": bytes_("r", 32, "Buffer"), "s": bytes_("s", 32, "Buffer"), "v": Big(v)}
def prover(v, remote, window, profile=False, n=32):
    def f(I):
        cls = mod(I, "core/prover.ts").p["MembershipProver"]
        cfg = Obj({"circuit": "the circuit", "witnessGenWasm": "the witness generator", "enableProfiler": profile})
        if remote is not None: cfg.p["useRemoteCircuit"] = remote
        o = I.construct(cls, [cfg])
        m = Bytes(atoms("m", n), "Buffer"); r = big_("r"); mb = m_bn(I, m); (ma,), = mb.p
        I.pc[("on the curve", key(r))] = True; I.pc[("zero mod N", k_int(r))] = False; I.pc[("zero mod N", ma)] = False
        root, sib, pix = big_("root"), Arr([Arr([big_("sib%d" % i)]) for i in range(20)]), Arr([Opq("bit", i, kind="num") for i in range(20)])
        mp = Obj({"root": root, "siblings": sib, "pathIndices": pix})
        url = bool(remote) or window; name = ("url:" if url else "file:") + "the circuit"
        try: res = I.await_(I.call(I.get(o, "prove"), o, [Obj({"sig": Opq("the signature", kind="str"), "msgHash": m, "merkleProof": mp})]))
        except JsThrow as x:
            env = I.pc.get(("fetch fails" if url else "file cannot be read", key("the circuit"))) or I.pc.get(("witness calculation fails",)) or I.pc.get(("prove fails",)) or I.pc.get(("response ok", name)) is False
            I.oblige(env, "prove throws only when the circuit, the witness or the proof cannot be had", info=x.v); return
        w = expected(I, r, v == 28, mb); vals = {"merkleRoot": root, **w}
        cs = atoms("root") + [a for n_ in ("Tx", "Ty", "Ux", "Uy") for a in reversed(w[n_].dig())]
        P = I.get(res, "publicInput"); ser = I.call(I.get(P, "serialize"), P, [])
        exact(I, ser, atoms("r") + [v] + cs + list(m.s), "prove: the statement returned is that of this signature, hash and root")
        for a, b in (("r", r), ("rV", Big(v))): same(I, I.get(P, a), b, "prove: the statement's %s" % a)
        wit = [c for c in I.calls if c[0] == "witness"]
        I.oblige(len(wit) == 1 and wit[0][2] == "the witness generator", "prove: the witness comes from the configured generator", info=wit and wit[0][2])
        inp = wit[0][1].p; want = {"s": big_("s"), "root": root, "siblings": sib, "pathIndices": pix, **w}
        for f_, ins in circuit_inputs().items(): I.oblige(sorted(inp) == ins, "prove: the witness input gives exactly the inputs of circuit %s" % f_, info=sorted(inp))
        for n_ in want: same(I, inp[n_], want[n_], "prove: witness input %s" % n_)
        pr = [c for c in I.calls if c[0] == "prove"]
        I.oblige(len(pr) == 1, "prove: one proof is made")
        exact(I, pr[0][1], [Tail(name)], "prove: the circuit is the %s one" % ("fetched" if url else "local")); exact(I, pr[0][2], [Tail("witness(0)")], "prove: the proof is about the computed witness"); exact(I, pr[0][3], cs, "prove: the proof is about the statement returned")
        same(I, I.get(res, "proof"), Bytes([Tail("proof(0)")]), "prove: the proof returned is the one made")
        I.oblige(m.s == atoms("m", n), "prove leaves the message hash unchanged")
    return f
def from_sig(v):
    def f(I):
        o = I.call(mod(I, "helpers/utils.ts").p["fromSig"], UNDEF, [Opq("the signature", kind="str")])
        same(I, I.get(o, "r"), big_("r"), "fromSig: r"); same(I, I.get(o, "s"), big_("s"), "fromSig: s"); same(I, I.get(o, "v"), Big(v), "fromSig: v")
    return f
def configs(I):
    ix = mod(I, "index.ts").p
    for k, who in (("Pubkey", "pubkey_membership"), ("Address", "addr_membership")):
        P, V = ix.get("default%sMembershipPConfig" % k), ix.get("default%sMembershipVConfig" % k)
        I.oblige(isinstance(P, Obj) and isinstance(V, Obj), "the package exports the default %s configurations" % k)
        c, w = I.get(P, "circuit"), I.get(P, "witnessGenWasm")
        same(I, I.get(V, "circuit"), c, "the default %s verifier loads the circuit the default prover proves with" % k)
        I.oblige(isinstance(c, str) and c.split("/")[-1] == who + ".circuit", "the default %s configuration names the %s circuit" % (k, who), info=c)
        I.oblige(isinstance(w, str) and w.split("/")[-1] == who + ".wasm", "the default %s configuration names the %s witness generator" % (k, who), info=w)
    for n, f, m in (("MembershipProver", "core/prover.ts", 0), ("MembershipVerifier", "core/verifier.ts", 0), ("PublicInput", PUB, 0), ("CircuitPubInput", PUB, 0), ("computeEffEcdsaPubInput", PUB, 0), ("verifyEffEcdsaPubInput", PUB, 0), ("Tree", "helpers/tree.ts", 0), ("Poseidon", "helpers/poseidon.ts", 0)):
        I.oblige(isinstance(ix.get(n), (Cls, Fn)) and ix[n] is mod(I, f).p.get(n), "the package exports %s" % n)
def t03():
    us = []
    for remote, window in ((None, False), (False, False), (True, False), (None, True)):
        nm = "remote %s, %s" % ("unset" if remote is None else remote, "browser" if window else "node")
        us.append(Unit("MembershipVerifier.verify (%s)" % nm, "MembershipVerifier.verify", verifier(None, (27, 28), remote, window, "Uint8Array" if remote is None else "Buffer", bool(remote)), lambda window=window: Ext(window)))
        for v in (27, 28): us.append(Unit("MembershipProver.prove (v = %d, %s)" % (v, nm), "MembershipProver.prove", prover(v, remote, window, bool(remote)), lambda window=window, v=v: Ext(window, None, sig_of(v))))
    for lo in range(0, 256, 16): us.append(Unit("MembershipVerifier.verify (v byte %d to %d)" % (lo, lo + 15), "MembershipVerifier.verify", verifier(32, list(range(lo, lo + 16)), None, False)))
    for b in ((), ("r",), ("r", "m"), ("merkleRoot",), ("a proof",), ("a proof", "merkleRoot", "m")): us.append(Unit("MembershipVerifier.verify after another (%s the same)" % (" and ".join(b) or "nothing"), "MembershipVerifier.verify", verifier(32, (28,), None, False, before=b)))
    def two(I):
        cls = mod(I, "core/prover.ts").p["MembershipProver"]; root2 = {}
        o = I.construct(cls, [Obj({"circuit": "the circuit", "witnessGenWasm": "the witness generator"})])
        for k, (sg, v, m_, rt) in enumerate((("1", 27, "m", "root"), ("2", 28, "m", "root"), ("1", 27, "m2", "root2"), ("1", 27, "m", "root"))):
            m = Bytes(atoms(m_), "Buffer"); r = big_("r" + sg); mb = m_bn(I, m); (ma,), = mb.p
            for q, x in ((("on the curve", key(r)), True), (("zero mod N", k_int(r)), False), (("zero mod N", ma), False), (("file cannot be read", key("the circuit")), False), (("witness calculation fails",), False), (("prove fails",), False)): I.pc[q] = x
            res = I.await_(I.call(I.get(o, "prove"), o, [Obj({"sig": Opq("signature", sg), "msgHash": m, "merkleProof": Obj({"root": big_(rt), "siblings": Arr([Arr([big_("sib" + rt)])]), "pathIndices": Arr([k])})})]))
            w = expected(I, r, v == 28, mb); cs = atoms(rt) + [a for n_ in ("Tx", "Ty", "Ux", "Uy") for a in reversed(w[n_].dig())]
            P = I.get(res, "publicInput"); exact(I, I.call(I.get(P, "serialize"), P, []), atoms("r" + sg) + [v] + cs + atoms(m_), "prove, called again: the statement returned")
            inp = [c for c in I.calls if c[0] == "witness"][-1][1].p
            for n_, x in {"s": big_("s" + sg), "root": big_(rt), "siblings": Arr([Arr([big_("sib" + rt)])]), "pathIndices": Arr([k]), **w}.items(): same(I, inp.get(n_, UNDEF), x, "prove, called again: witness input %s" % n_)
            pr = [c for c in I.calls if c[0] == "prove"]; I.oblige(len(pr) == k + 1, "prove, called again: one proof is made")
            exact(I, pr[-1][2], [Tail("witness(%d)" % k)], "prove, called again: the proof is about the computed witness"); exact(I, pr[-1][3], cs, "prove, called again: the proof is about the statement returned"); same(I, I.get(res, "proof"), Bytes([Tail("proof(%d)" % k)]), "prove, called again: the proof returned")
    def sigs(s): return {"r": bytes_("r" + s.t[1], 32, "Buffer"), "s": bytes_("s" + s.t[1], 32, "Buffer"), "v": Big(27 if s.t[1] == "1" else 28)}
    us.append(Unit("MembershipProver.prove, several calls", "MembershipProver.prove", two, lambda: Ext(False, None, sigs)))
    def loads(I):
        ld = mod(I, "helpers/utils.ts").p["loadCircuit"]
        for p_, rem in (("a", False), ("b", False), ("a", True), ("a", False), ("b", True)):
            I.pc[("file cannot be read", key(p_))] = False; I.pc[("fetch fails", key(p_))] = False; I.pc[("response ok", "url:" + p_)] = True
            exact(I, I.await_(I.call(ld, UNDEF, [p_, rem])), [Tail(("url:" if rem else "file:") + p_)], "loadCircuit: the contents of this file or address, whatever was loaded before")
    us.append(Unit("loadCircuit, several calls", "loadCircuit", loads))
    for n in (0, 1, 31, 32, 33, 34, 64, 65, 66, 97, 129, 160, 161, 162, 192, 193): us.append(Unit("MembershipVerifier.verify (statement of %d bytes)" % n, "MembershipVerifier.verify", short(n)))
    for v in (27, 28): us.append(Unit("fromSig (v = %d)" % v, "fromSig", from_sig(v), lambda v=v: Ext(False, None, sig_of(v))))
    us.append(Unit("exports and default configurations", "index", configs))
    return us

# ---------- T04
def pos_of(bs):
    """what the wasm hash returns on these bytes, as a number (little-endian)"""
    return Big(tuple(atoms("pos" + str(hash_name(key(Bytes(bs)))))))
def poseidon(I): return I.construct(mod(I, "helpers/poseidon.ts").p["Poseidon"], [])
def le(name): return list(reversed(atoms(name)))
def t04():
    us = []
    for n in (1, 2, 3, 4, 7):
        def h(I, n=n):
            p = poseidon(I); a = Arr([big_("in%d" % i) for i in range(n)])
            got = I.call(I.get(p, "hash"), p, [a])
            want = [x for i in range(n) for x in le("in%d" % i)]
            cs = [c for c in I.calls if c[0] == "poseidon"]
            I.oblige(cs != [], "hash calls the wasm hash"); exact(I, cs[0][1], want, "hash: each input as 32 bytes, little-endian, in order")
            same(I, got, pos_of(want), "hash: the result is the wasm hash's 32 bytes, little-endian")
            I.oblige([key(x) for x in a.a] == [key(big_("in%d" % i)) for i in range(n)], "hash leaves its inputs unchanged")
        us.append(Unit("Poseidon.hash of %d inputs" % n, "Poseidon.hash", h, bounded="number of inputs 1, 2, 3, 4 and 7"))
    def hs(I):
        p = poseidon(I)
        for k in ((0, 1, 2), (0, 1), (1, 0), (2,), (0, 1, 2, 3), (0, 1)):
            got = I.call(I.get(p, "hash"), p, [Arr([big_("in%d" % i) for i in k])]); same(I, got, pos_of([x for i in k for x in le("in%d" % i)]), "hash in a sequence of calls")
    us.append(Unit("Poseidon.hash, several calls", "Poseidon.hash", hs))
    def h0(I):
        p = poseidon(I); v = [Big(0), Big(1), Big(256), Big(PF - 1)]; got = I.call(I.get(p, "hash"), p, [Arr(v)]); want = [b for x in v for b in x.v.to_bytes(32, "little")]
        same(I, got, pos_of(want), "hash of short numbers: 32 bytes each")
    us.append(Unit("Poseidon.hash (short numbers)", "Poseidon.hash", h0))
    def hp(I):
        p = poseidon(I); b = Bytes(atoms("X") + atoms("Y"), "Buffer")
        got = I.call(I.get(p, "hashPubKey"), p, [b])
        same(I, got, pos_of(le("X") + le("Y")), "hashPubKey: the hash of x and y, each 32 bytes big-endian in the key"); I.oblige(b.s == atoms("X") + atoms("Y"), "hashPubKey leaves the key unchanged")
    us.append(Unit("Poseidon.hashPubKey", "Poseidon.hashPubKey", hp))
    def tree(I, depth=20):
        t = I.construct(mod(I, "helpers/tree.ts").p["Tree"], [depth, poseidon(I)])
        ts = [c[1] for c in I.calls if c[0] == "tree"]
        I.oblige(len(ts) == 1, "Tree: one inner tree"); a = ts[0].args; I.calls.clear()
        return t, a
    for depth in (20, 1):
        def ctor(I, depth=depth):
            t, a = tree(I, depth)
            I.oblige(isinstance(a[0], (Fn, Bound, Native)), "Tree: the inner tree hashes with a function")
            got = I.call(a[0], UNDEF, [Arr([big_("left"), big_("right")])])
            same(I, got, pos_of(le("left") + le("right")), "Tree: a node is the Poseidon hash of its two children, in order")
            I.oblige(a[1] == depth, "Tree: the inner tree has the depth asked for", info=a[1]); same(I, I.get(t, "depth"), depth, "Tree: depth")
            same(I, a[2], Big(0), "Tree: an empty leaf is 0"); I.oblige(len(a) < 4 or a[3] in (2, UNDEF), "Tree: the tree is binary", info=a[3:])
        us.append(Unit("Tree constructor (depth %d)" % depth, "Tree", ctor))
    def ops(I):
        t, _ = tree(I); leaf = big_("leaf")
        def one(name, args, want, what):
            I.calls.clear(); r = I.call(I.get(t, name), t, args)
            cs = [(c[0],) + tuple(key(x) for x in c[1:]) for c in I.calls]; I.oblige(cs == want, what, info=cs); return r
        one("insert", [leaf], [("tree.insert", key(leaf))], "Tree.insert adds this leaf"); one("delete", [5], [("tree.delete", key(5))], "Tree.delete removes this index")
        r = one("indexOf", [leaf], [("tree.indexOf", key(leaf))], "Tree.indexOf looks for this leaf"); same(I, r, Opq("index of", key(leaf), kind="num"), "Tree.indexOf returns what it found")
        st = 0; I.calls.clear()
        same(I, I.call(I.get(t, "root"), t, []), Big(Opq("root", st)), "Tree.root is the inner root"); same(I, I.call(I.get(t, "leaves"), t, []), Arr([Big(Opq("leaf", st, i)) for i in range(2)]), "Tree.leaves are the inner leaves")
        I.oblige(all(c[0] in ("tree.root", "tree.leaves") for c in I.calls), "reading the tree does not change it", info=I.calls)
        one_ = imt_proof(I, 3); p = one("createProof", [3], [("tree.createProof", key(3))], "Tree.createProof asks for this index")
        for f in ("siblings", "pathIndices", "root"): same(I, I.get(p, f), one_.p[f], "Tree.createProof: %s" % f)
        I.oblige(sorted(p.p) == ["pathIndices", "root", "siblings"], "Tree.createProof: exactly the fields of a MerkleProof (they are spread into the witness input)", info=sorted(p.p))
        mp = Obj({"root": big_("pr"), "siblings": Arr([Arr([big_("sb")])]), "pathIndices": Arr([1])})
        I.calls.clear(); got = I.call(I.get(t, "verifyProof"), t, [mp, leaf])
        c = [c for c in I.calls if c[0] == "tree.verifyProof"]; I.oblige(len(c) == 1, "Tree.verifyProof asks the inner tree"); a = c[0][1]
        for f, w in (("root", big_("pr")), ("siblings", mp.p["siblings"]), ("pathIndices", mp.p["pathIndices"]), ("leaf", leaf)): same(I, I.get(a, f), w, "Tree.verifyProof: %s" % f)
        want = I.truth(imt_verify(mp, leaf)); I.oblige(I.truth(got) == want, "Tree.verifyProof returns the inner verdict")
        I.oblige(sorted(mp.p) == ["pathIndices", "root", "siblings"], "Tree.verifyProof leaves the proof unchanged")
    us.append(Unit("Tree operations", "Tree", ops))
    def init(I):
        w = mod(I, "wasm/index.ts"); I.await_(I.call(w.p["init"], UNDEF, []))
        cs = [c for c in I.calls if c[0] in ("initSync", "init_panic_hook", "initDefault")]
        I.oblige(bool(cs) and cs[0][0] == "initSync" and isbytes(cs[0][1]) and cs[0][1].items() == [Tail("wasm code")], "init instantiates the embedded wasm code before anything else", info=cs)
        I.oblige(I.get(w, "wasm") is I.wasmjs, "wasm is the generated module")
    def ext():
        e = Ext(); e.real_wasm = True; return e
    us.append(Unit("init", "init", init, ext))
    for cls, f, a in (("Poseidon", "helpers/poseidon.ts", []), ("MembershipProver", "core/prover.ts", [Obj({"circuit": "c", "witnessGenWasm": "w"})]), ("MembershipVerifier", "core/verifier.ts", [Obj({"circuit": "c"})])):
        def iw(I, cls=cls, f=f, a=a):
            o = I.construct(mod(I, f).p[cls], a); I.calls.clear(); I.await_(I.call(I.get(o, "initWasm"), o, [])); I.oblige(("init",) in I.calls, "%s.initWasm initialises the wasm module" % cls)
        us.append(Unit("%s.initWasm" % cls, "%s.initWasm" % cls, iw))
    return us
def imt_verify(mp, leaf): return SBool(("proof verifies", tuple((k, key({**mp.p, "leaf": leaf}[k])) for k in ("root", "leaf", "siblings", "pathIndices"))))
