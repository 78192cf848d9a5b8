"""property id -> check"""
from . import build
from .exec import Prog
from .field import FieldModel, PSECP, NSECP
from .check import Suite, Unit
from .suites import field as F

def core(ctx):
    prog = Prog(build.dump("core", "rvc_core"))
    fm = FieldModel("scalar::scalar::Scalar", PSECP, "Fp")
    return prog, fm, build.Replay("core")
def fp_suite(ctx):
    prog, fm, rep = core(ctx)
    us = F.units(fm, prog, "fp", ("roots::ser_scalar", "roots::de_scalar"))
    us += F.sums(fm, prog, [("roots::sum_ref", True, True), ("roots::sum_val", False, True), ("roots::prod_ref", True, False), ("roots::prod_val", False, False)])
    s = Suite(ctx, prog, fm.contracts(), {fm.ty: fm}, us, rep)
    s.rawkeys = {fm.ty + "::mul": lambda: fm.noraw.add("mul"), fm.ty + "::sub": lambda: fm.noraw.add("sub")}
    return s
def curve():
    return Prog(build.dump("full", "secq256k1", "secq256k1")), build.Replay("full", "replay", "rvc_replay")
def curve_suite(ctx, which):
    prog, rep = curve()
    t = "field::field_%s::FieldElement" % ("secp" if which == "fp" else "secq")
    fm = FieldModel(t, PSECP if which == "fp" else NSECP, "C" + which)
    r = "rvc_roots::%s::" % which
    us = F.units(fm, prog, which, (r + "ser", r + "de"))
    us += F.sums(fm, prog, [(r + "sum_ref", True, True), (r + "sum_val", False, True), (r + "prod_ref", True, False), (r + "prod_val", False, False)], which)
    from .suites import curve as CV
    us += CV.extra(fm, prog, which)
    cs = fm.contracts()
    if which == "fq": cs.update(CV.k256_contracts(prog, fm))
    s = Suite(ctx, prog, cs, {fm.ty: fm}, us, rep)
    s.rawkeys = {fm.ty + "::mul": lambda: fm.noraw.add("mul"), fm.ty + "::sub": lambda: fm.noraw.add("sub")}
    return s
def fp(ctx): return curve_suite(ctx, "fp")
def fq(ctx): return curve_suite(ctx, "fq")
def by_tags(s, *tags): return s.run([u for u in s.units if u.tag in tags and not u.internal])
def p_fp(*tags): return lambda ctx: by_tags(fp_suite(ctx), *tags)

def sc(ctx):
    prog, rep = curve()
    fm = FieldModel("field::field_secp::FieldElement", PSECP, "Cfp")
    r = "rvc_roots::fp::"
    from .suites import scalar as SC, curve as CV
    us = SC.units(prog, fm) + F.units(fm, prog, "fp", (r + "ser", r + "de"))
    s = Suite(ctx, prog, dict(fm.contracts(), **SC.contracts(prog)), {fm.ty: fm}, us, rep)
    s.rawkeys = {fm.ty + "::mul": lambda: fm.noraw.add("mul"), fm.ty + "::sub": lambda: fm.noraw.add("sub")}
    return s
def p_curve(*tags):
    def f(ctx):
        for w in ("fp", "fq"):
            s = curve_suite(ctx, w)
            for u in s.units: u.name += " [field_%s]" % ("secp" if w == "fp" else "secq")
            by_tags(s, *tags)
    return f
def s01(ctx):
    prog, fm, rep = core(ctx)
    from .suites import misc
    s = Suite(ctx, prog, {}, {}, misc.math_units(prog), rep); by_tags(s, "math")
def rd(*tags):
    def f(ctx):
        prog, fm, rep = core(ctx)
        from .suites import misc
        s = Suite(ctx, prog, {}, {}, misc.reader_units(prog), rep); by_tags(s, *tags)
    return f
def spartan():
    return Prog(build.dump("full", "libspartan", "spartan")), build.Replay("full", "replay_spartan", "rvc_replay_spartan"), FieldModel("scalar::scalar::Scalar", PSECP, "Fp")
def sp_poly(ctx):
    prog, rep, fm = spartan()
    from .suites import sp_poly as M
    return Suite(ctx, prog, fm.contracts(), {fm.ty: fm}, M.units(prog, fm), rep)
def sp_r1cs(ctx):
    prog, rep, fm = spartan()
    from .suites import sp_r1cs as M
    return Suite(ctx, prog, dict(fm.contracts(), **M.contracts(prog)), {fm.ty: fm}, M.units(prog, fm), rep)
def sp_proto(mod):
    def f(ctx):
        import importlib
        prog, rep, fm = spartan()
        from .suites import proto
        M = importlib.import_module("rvc.suites." + mod)
        cs = dict(fm.contracts()); from .suites import scalar as SC
        cs.update(SC.contracts(prog)); cs.update(proto.contracts(prog, fm))
        from .suites import rp_proto
        return Suite(ctx, prog, cs, {fm.ty: fm, "AffinePoint": proto.GS}, rp_proto.attach(M.units(prog, fm)), rep)
    return f
def sp_eval(ctx): return sp_proto("sp_eval")(ctx)
def sp_sumcheck(ctx): return sp_proto("sp_sumcheck")(ctx)
def sp_nizk(ctx): return sp_proto("sp_nizk")(ctx)
def sp_snark(ctx):
    s = sp_proto("sp_snark")(ctx); from .suites import sp_snark as M
    fm = list(s.specs.values())[0]; s.contracts.update(M.contracts(s.prog, fm)); return s
def sp_sigma(ctx): return sp_proto("sp_sigma")(ctx)
def grp(ctx):
    prog, rep = curve()
    from .suites import group as M
    fq_ = FieldModel("field::field_secq::FieldElement", NSECP, "Cfq")
    return Suite(ctx, prog, dict(fq_.contracts(), **M.contracts(prog)), {fq_.ty: fq_, M.AF: M.GS}, M.units(prog), rep)
def h2c(ctx):
    prog, rep = curve()
    from .suites import group as M
    fq_ = FieldModel("field::field_secq::FieldElement", NSECP, "Cfq")
    cs = fq_.contracts(); cs.update(M.h2c_contracts(prog, fq_))
    return Suite(ctx, prog, cs, {fq_.ty: fq_}, M.h2c_units(prog, fq_), rep)
def posn(ctx):
    prog = Prog(build.dump("full", "poseidon", "poseidon"))
    from .suites import poseidon as M
    fm = FieldModel("field::field_secp::FieldElement", PSECP, "Cfp")
    return Suite(ctx, prog, M.contracts(prog, fm), {fm.ty: fm}, M.units(prog, fm), build.Replay("full", "replay", "rvc_replay"))
def loader(ctx):
    prog = Prog(build.dump("full", "circuit_reader", "circuit_reader"))
    from .suites import files as M
    return Suite(ctx, prog, M.contracts(prog), {}, M.units(prog), build.Replay("full", "replay_wasm", "rvc_replay_wasm"))
def wasm(ctx):
    prog = Prog(build.dump("full", "spartan_wasm", "spartan_wasm"))
    from .suites import files as M
    fm = FieldModel(M.FT, PSECP, "Cfp")
    return Suite(ctx, prog, M.wasm_contracts(prog, fm), {fm.ty: fm}, M.wasm_units(prog, fm), build.Replay("full", "replay_wasm", "rvc_replay_wasm"))
def circ(*groups):
    def f(ctx):
        from cvc import run, units as U
        seen = {}
        for g in groups:
            for u in getattr(U, g)(): seen.setdefault(u.name, u)
        run.check(ctx, list(seen.values()))
    return f
def tsc(group):
    def f(ctx):
        from tvc import run
        run.check(ctx, group)
    return f
PROPS = {
 "T01": tsc("t01"), "T02": tsc("t02"), "T03": tsc("t03"), "T04": tsc("t04"),
 "K01": circ("gadgets"), "K02": circ("gadgets", "ladder"), "K03": circ("poseidon"), "K04": circ("mains", "merkle", "membership", "canonical"), "K05": circ("keccak"),
 "W01": lambda ctx: by_tags(wasm(ctx), "wasm"),
 "R03": lambda ctx: by_tags(loader(ctx), "load"),
 "P01": lambda ctx: by_tags(posn(ctx), "ps"),
 "C05": lambda ctx: by_tags(grp(ctx), "grp"),
 "C06": lambda ctx: by_tags(h2c(ctx), "h2c"),
 "S05": lambda ctx: by_tags(sp_sigma(ctx), "sigma"),
 "S06": lambda ctx: by_tags(sp_eval(ctx), "eval"),
 "S07": lambda ctx: by_tags(sp_sumcheck(ctx), "sum"),
 "S08": lambda ctx: by_tags(sp_nizk(ctx), "nizk"),
 "S09": lambda ctx: by_tags(sp_snark(ctx), "snark"),
 "S04": lambda ctx: by_tags(sp_r1cs(ctx), "r1cs"),
 "S02": lambda ctx: by_tags(sp_poly(ctx), "ml"),
 "S03": lambda ctx: by_tags(sp_poly(ctx), "uni"),
 "C04": lambda ctx: by_tags(sc(ctx), "sc"),
 "C01": p_curve("arith", "ops"),
 "C02": p_curve("enc", "serde"),
 "C03": p_curve("inv"),
 "R01": rd("parse"), "R02": rd("bad"),
 "S01": s01,
 "F01": p_fp("arith", "ops"),
 "F02": p_fp("enc"),
 "F03": p_fp("inv"),
 "F04": p_fp("serde"),
}

def setup():
    build.driver(); build.dump("core", "rvc_core"); build.replay_bin("core")
    build.dump("full", "secq256k1", "secq256k1"); build.replay_bin("full", "replay", "rvc_replay")
    build.dump("full", "poseidon", "poseidon")
    build.dump("full", "libspartan", "spartan"); build.replay_bin("full", "replay_spartan", "rvc_replay_spartan")
    build.dump("full", "circuit_reader", "circuit_reader"); build.dump("full", "spartan_wasm", "spartan_wasm"); build.replay_bin("full", "replay_wasm", "rvc_replay_wasm")
