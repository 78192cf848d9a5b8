"""Runs the units of a property: discharges their obligations against the MIR of /repo's current tree, replays on the
compiled code, writes the evidence and reports."""
import json, os, random, resource, signal, sys, time, traceback, hashlib
from . import build
from . import exec as X
from .exec import Unsupported, Prog, strip_crate
from .field import Verify
from .solve import Solver
V = "/verif"

class Unit:
    """one function put under contract: mk builds symbolic arguments, post states the postcondition.
    internal: a contract of a private helper (dropped, and the body inlined in its callers, when it does not hold)
    helper:   the contract (key) this unit discharges
    rp:       (module, op, [(kind, name)...], oracle)  concrete counterpart on the compiled code
    bounded:  text of the bound when the unit covers only bounded sizes"""
    def __init__(s, name, fn, mk, post, internal=False, tag=None, panic="prove", bounded=None, helper=None, rp=None, pool=None, cap=None):
        s.name = name; s.fn = fn; s.mk = mk; s.post = post; s.internal = internal; s.tag = tag
        s.panic = panic; s.bounded = bounded; s.helper = helper; s.rp = rp; s.pool = pool; s.cap = cap
        s.obls = None; s.err = None; s.used = {}; s.usedb = {}; s.usedc = {}; s.secs = 0.0

class Ctx:
    def __init__(s, pid, tier, seed):
        s.pid = pid; s.tier = tier; s.seed = seed; s.t0 = time.time()
        s.units = []; s.bounded = []; s.assume = []; s.viol = []; s.known = []; s.notes = []
        s.solver_s = 0.0; s.calls = 0; s.replays = 0; s.fns = {}; s.builtins = {}; s.extra = {}; s.level = "proof"; s.obl_extra = []
        s.rng = random.Random(seed)
        s.budget = 700 if tier == "quick" else 3400
        s.samples = []; s.listed = known_findings()
    def is_known(s, unit): return any(k.get("unit") == unit and k["property"] == s.pid for k in s.listed)
    def left(s): return s.budget - (time.time() - s.t0)
    def log(s, *a): print(*a, flush=True)
    # a completed obligation that does not come from a MIR unit (circuit text, constants ...)
    def obl(s, kind, where, msg, ok, how, info=None):
        o = X.Obl(kind, where, 0, msg, ok, how, info); s.obl_extra.append(o); return o

    def violation(s, what, replay, found, unit=None):
        """replay: dict written to the replay file"""
        d = V + "/build/replay"; os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((s.pid + what).encode()).hexdigest()[:10]
        p = "%s/%s-%s.json" % (d, s.pid, h)
        replay = dict(replay); replay.update(property=s.pid, what=what, failing_input_found=found)
        json.dump(replay, open(p, "w"), indent=1, default=str)
        for k in known_findings():
            if k["property"] == s.pid and k.get("unit") == unit and (k.get("match") or "") in what:
                if k["id"] not in [x["id"] for x in s.known]: s.known.append(k)
                return
        s.viol.append((what, p, found))

def known_findings():
    p = V + "/known_findings.json"
    try: return [k for k in json.load(open(p))["findings"] if not k.get("fixed")]
    except OSError: return []

class Suite:
    """a program with its contracts; runs units, with helper contracts established first"""
    def __init__(s, ctx, prog, contracts, specs, units, replay=None, contractable=None):
        s.ctx = ctx; s.prog = prog; s.contracts = contracts; s.specs = specs; s.units = units; s.replay = replay
        s.dropped = {}
        s.done = {}
    def run_unit(s, u, deadline=None, drop=()):
        ctx = s.ctx; t = time.time()
        cs = {k: v for k, v in s.contracts.items() if k not in s.dropped and k not in drop}
        ver = Verify(s.prog, Solver(), cs, s.specs)
        u.err = None; u.obls = []
        def alarm(*_): raise Unsupported("time budget")
        signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, 20 + (deadline or (90 if ctx.tier == "quick" else 600)))
        lim = resource.getrlimit(resource.RLIMIT_AS)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (14 << 30, lim[1]))
            X.Exec.deadline = time.time() + (deadline or (90 if ctx.tier == "quick" else 600))
            u.obls = ver.run(u.fn, u.mk, u.post, panic=u.panic)
            if not u.obls: u.err = "no obligations generated"
        except Unsupported as e:
            if os.environ.get("RVC_TRACE") == "2": traceback.print_exc()
            u.err = "unsupported: %s" % e; u.obls = list(ver.ex.obls) if hasattr(ver, "ex") else []
        except (RecursionError, MemoryError) as e: u.err = "unsupported: %s" % ("out of memory" if isinstance(e, MemoryError) else "recursion")
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, z3err) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            u.err = "unsupported: engine %s: %s (%s:%d)" % (type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno)
        finally: signal.setitimer(signal.ITIMER_REAL, 0); resource.setrlimit(resource.RLIMIT_AS, lim)
        if u.err and os.environ.get("RVC_TRACE"):
            print("TRACE", u.name, u.err, [(a[-60:], b) for a, b in ver.ex.stack[-6:]] if hasattr(ver, "ex") else "", ver.ex.last if hasattr(ver, "ex") else "")
            if os.environ["RVC_TRACE"] == "2": traceback.print_exc()
        u.secs = time.time() - t
        u.used, u.usedb, u.usedc = ver.used, ver.usedb, ver.usedc
        if hasattr(ver, "ex"):
            u.used = u.used or ver.ex.used_fns; u.usedc = u.usedc or ver.ex.used_contracts
        ctx.solver_s += ver.solver.time; ctx.calls += ver.solver.calls
        return u
    def good(s, u): return u.err is None and all(o.ok for o in u.obls)
    def run(s, own):
        """own: the units that state the property; the units of every contract they use are discharged too"""
        ctx = s.ctx
        # private helpers first: a contract that does not hold on the current tree is not used
        internal = [u for u in s.units if u.internal]
        def key(u): return strip_crate(u.helper)
        raws = getattr(s, "rawkeys", {})
        for u in internal:
            s.run_unit(u)
            s.done[id(u)] = u
            if not s.good(u):
                if key(u) in raws: raws[key(u)]()
                else: s.dropped[key(u)] = u
                ctx.notes.append("helper contract of %s not used (%s); body inlined in its callers" % (u.name, u.err or "not discharged"))
            s.log(u)
        todo = [u for u in s.units if u in own]
        while todo:
            nxt = []
            for u in todo:
                if id(u) in s.done: continue
                s.done[id(u)] = u
                s.run_unit(u)
                if not s.good(u) and not ctx.is_known(u.name): s.retry(u)
                s.log(u)
                for nm in u.usedc:
                    for h in s.units:
                        if h.helper and key(h) == strip_crate(nm) and id(h) not in s.done and h not in nxt: nxt.append(h)
            todo = nxt
        run = [u for u in s.units if id(u) in s.done]
        used = set()
        for u in run:
            if u.internal and not s.good(u): continue
            ctx.units.append(u)
            for k, v in u.used.items(): ctx.fns[k] = ctx.fns.get(k, 0) + v
            for k, v in u.usedb.items(): ctx.builtins[k] = ctx.builtins.get(k, 0) + v
        s.concretes(run, own)
    def retry(s, u):
        """once more with every helper contract inlined (a refactoring may have moved the boundary)"""
        keep = (u.obls, u.err, u.used, u.usedb, u.usedc, u.secs)
        ints = {strip_crate(h.helper) for h in s.units if h.internal}
        if ints - set(s.dropped):
            s.run_unit(u, drop=ints)
            if not s.good(u) and (u.err or "").startswith("unsupported") and not keep[1]: u.obls, u.err, u.used, u.usedb, u.usedc, u.secs = keep
    def log(s, u):
        bad = [o for o in u.obls if not o.ok]
        s.ctx.log("  %-46s %4d obligations %s %.1fs" % (u.name[:46], len(u.obls), "discharged" if not bad and not u.err else "%d FAILED %s" % (len(bad), u.err or ""), u.secs))
        for o in bad[:4]: s.ctx.log("      ", o.kind, o.fn, "line", o.line, o.msg, "|", str(o.how)[:160])
    # ------------------------------------------------ concrete side
    def concretes(s, run, own):
        ctx = s.ctx
        bad = [u for u in run if not (u.internal and not s.good(u)) and not s.good(u)]
        fail = [u for u in bad if not u.err]
        # smoke replay of every unit on the compiled code (also guards the engine against itself)
        n = 60 if ctx.tier == "quick" else 2000
        found = set()
        for u in run:
            if u.rp is None or s.replay is None: continue
            k = n
            if u in bad: k = 20000 if ctx.tier == "quick" else 200000
            if u in own and fail and u not in bad and not all(ctx.is_known(x.name) for x in fail): k = 6000
            if u.cap: k = u.cap[0] * (1 if ctx.tier == "quick" else 8) if k == n else u.cap[1] * (1 if ctx.tier == "quick" else 4) if u in bad else u.cap[1] // 2
            try: r = s.search(u, k)
            except build.BuildError as e:
                ctx.notes.append("replay program does not build: " + e.log[-300:]); s.replay = None; break
            if r is not None:
                found.add(id(u)); ctx.violation("%s: %s" % (u.name, r["why"]), dict(unit=u.name, function=u.fn, **r, obligations=[repr(o) for o in u.obls if not o.ok][:10], info=[str(o.info)[:2000] for o in u.obls if not o.ok][:3]), True, unit=u.name)
        if ctx.viol: return
        bad = [u for u in bad if id(u) not in found]
        for u in bad:
            if u.err and not any(not o.ok for o in u.obls):
                ctx.bounded.append("%s: %s; stood in for by differential execution of the compiled function on generated inputs (%s)" % (u.name, u.err, "found nothing" if u.rp else "no concrete counterpart"))
            elif u.err:
                ctx.bounded.append("%s: %s; stood in for by differential execution" % (u.name, u.err))
            else:
                o = [o for o in u.obls if not o.ok][0]
                ctx.violation("%s: obligation not discharged: %s %s line %s: %s" % (u.name, o.kind, o.fn, o.line, o.msg), dict(unit=u.name, function=u.fn, obligation=repr(o), solver=o.how, model=o.info, all_failed=[repr(x) for x in u.obls if not x.ok][:20]), False, unit=u.name)
    def search(s, u, n):
        """first concrete input on which the compiled code disagrees with the specification"""
        from . import concrete as K
        mod, op, kinds, oracle = u.rp
        rng = random.Random(hash_(s.ctx.seed, u.name))
        consts = K.harvest(s.prog, u.fn) if n > 1000 else []
        models = [o.info for o in u.obls or () if not o.ok and isinstance(o.info, dict)]
        cases = K.cases(kinds, n, rng, consts, models, u.pool)
        t0 = time.time()
        for i in range(0, len(cases), 25 if u.cap else 4000):
            if (n > 1000 or u.cap) and s.ctx.left() < 60 or u.cap and time.time() - t0 > (60 if s.ctx.tier == "quick" else 300): break
            part = cases[i:i + (25 if u.cap else 4000)]
            exp = []; lines = []
            for c in part:
                e = oracle(*[K.abstract(k, v) for (k, _), v in zip(kinds, c)])
                if e is None: continue                 # outside the precondition
                exp.append((c, e)); lines.append(" ".join([mod, op] + [K.encode(k, v) for (k, _), v in zip(kinds, c)]))
            out = s.replay.batch(lines)
            s.ctx.replays += len(lines)
            for (c, e), l, g in zip(exp, lines, out):
                okk = e(g) if callable(e) else g == e
                if g == "UNKNOWN": raise build.BuildError("replay", "op %s unknown" % op)
                if not okk: return dict(why="compiled code disagrees with the specification", command=l, got=g, expected="(predicate)" if callable(e) else e, how="echo '%s' | %s" % (l, s.replay.exe))
            if lines and len(s.ctx.samples) < 3: s.ctx.samples.append({"cmd": lines[-1][:300], "out": out[-1][:300]})
        return None

import z3
z3err = z3.Z3Exception
def hash_(*a): return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)

TRUSTED = ["rustc front end and MIR construction (nightly); rvc-driver serialises the MIR it is given",
           "rvc executor and polynomial engine (randomised self-test on every setup: rvc.selftest)", "z3 (linear arithmetic back end)"]

def finish(ctx):
    kn = {k.get("unit") for k in ctx.known}           # a listed finding is reported as such, not counted as an obligation
    ctx.extra["known_findings"] = [k["what"] for k in ctx.known]
    ob = [o for u in ctx.units if u.name not in kn for o in u.obls] + ctx.obl_extra
    hows = {}
    for o in ob:
        if o.ok:
            h = str(o.how); h = "z3" if "z3" in h else "normal form" if "normal" in h else "interval" if "interval" in h else h[:30]
            hows[h] = hows.get(h, 0) + 1
    unproved = [u for u in ctx.units if u.err]
    cov = {"obligations": len(ob), "discharged": sum(1 for o in ob if o.ok), "checker_cmd": "cd /verif && python3-vt check.py %s --tier %s" % (ctx.pid, ctx.tier), "trusted_base": (TRUSTED if getattr(ctx, "trusted", None) is None else ctx.trusted) + ["library contract: " + b for b in sorted(ctx.builtins)],
           "functions_under_contract": ["%s (%d cases)" % (f, len([1 for u in ctx.units if u.fn == f])) for f in sorted({u.fn for u in ctx.units})], "units": [u.name for u in ctx.units][:400], "functions_executed": len([f for f in ctx.fns]), "by_back_end": hows, "solver_s": round(ctx.solver_s, 2), "solver_calls": ctx.calls,
           "bounded": sorted({"%s (%d cases): %s" % (f, len([1 for u in ctx.units if u.bounded and u.fn == f]), [u.bounded for u in ctx.units if u.bounded and u.fn == f][0]) for f in {u.fn for u in ctx.units if u.bounded}}) + ctx.bounded, "replays_on_compiled_code": ctx.replays, "samples": ctx.samples, "notes": ctx.notes}
    cov.update(ctx.extra)
    lvl = ctx.level
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": lvl, "coverage": cov, "assumptions": sorted(set(ctx.assume)), "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, ctx.pid), "w"), indent=1, default=str)
    for k in ctx.known: print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k["what"]))
    print("%s: %d obligations, %d discharged, %d replays, %.1fs" % (ctx.pid, len(ob), cov["discharged"], ctx.replays, time.time() - ctx.t0))
    for b in ctx.bounded: print("  bounded:", b)
    for n in ctx.notes: print("  note:", n)
    if not ctx.viol:
        if not ob: print("no obligation was generated"); return 3
        return 0
    seen = set()
    for what, p, found in ctx.viol:
        print("  violated:", what[:400])
    w = sorted(ctx.viol, key=lambda v: not v[2])[0]
    print("VIOLATION property=%s replay=%s%s" % (ctx.pid, w[1], "" if w[2] else " no-failing-input-found"))
    return 1
