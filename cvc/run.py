"""Runs the circuit units of a property, replays on the circuits (witness computation and constraint check on numbers)."""
import os, random, sys, time
from rvc import pool
from . import units as U
from .dom import Conc, P, Unsupported
from .parse import CircomError
from .elab import Elab, flat

sys.setrecursionlimit(20000)
UNITS = []
def work(k):
    u = UNITS[k]; U.run(u)
    return k, u.obls, u.err, u.used, u.secs, u.branches, u.solver_s, u.calls

def nest(name, v, ix=()):
    if isinstance(v, list):
        for k, x in enumerate(v): yield from nest(name, x, ix + (k,))
    else: yield (name, ix), v % P

def evaluate(u, inp, force=None):
    """(violated constraints, outputs, hints) of the circuit on numbers; circom errors count as a violated constraint"""
    d = Conc(force=force); d.contracts = dict(u.conc_contracts); el = Elab(U.program(u.file), d)
    i = {}
    for n, v in inp.items(): i.update(nest(n, v))
    o = el.run(u.template, u.params, i)
    return d.bad, o, d.hints

def agree(exp, o):
    if callable(exp): return bool(exp(o))
    return all(o.get(k) == v for n, w in exp.items() for k, v in nest(n, w))

def search(u, n, rng, deadline, forced):
    """an input on which the circuit's witness does not satisfy it or does not give the specified outputs, or another assignment of the
    signals assigned with <-- that satisfies every constraint with other outputs"""
    runs = 0; sample = None
    def out(o): return {"%s%s" % (k, list(ix) if ix else ""): v for (k, ix), v in list(o.items())[:8]}
    for _ in range(n):
        if time.time() > deadline: break
        c = u.conc(rng)
        if c is None: continue
        inp, exp = c; runs += 1
        bad, o, hints = evaluate(u, inp)
        if exp == "refuse":
            if not bad: return runs, dict(why="the circuit accepts a statement it must refuse", inputs=inp), sample
            continue
        if bad: return runs, dict(why="the computed witness violates a constraint", inputs=inp, violated=bad[:5]), sample
        if not agree(exp, o): return runs, dict(why="the outputs are not the specified ones", inputs=inp, got=out(o), expected="(predicate)" if callable(exp) else exp), sample
        if sample is None: sample = {"template": u.template, "inputs": str(inp)[:300], "outputs": str(out(o))[:300]}
        if forced:
            honest = {path: v for path, v, w in hints}
            tries = []
            for path, v, w in hints:
                if w is not None:
                    for x in ([v + P] if 2**w > P and v + P < 2**w else []): tries.append({path: x})
                else:
                    for x in ((v + 1) % P, rng.randrange(P), 0, 1, P - 1):
                        tries.append({path: x})                       # what depends on it is recomputed
                        if len(hints) > 1: tries.append({**honest, path: x})         # everything else keeps its honest value
            rng.shuffle(tries)
            for force in tries[:150]:
                if time.time() > deadline: break
                try: bad, o, _ = evaluate(u, inp, force)
                except CircomError: continue
                runs += 1
                if exp and not bad and not agree(exp, o):
                    return runs, dict(why="another assignment satisfies every constraint with other outputs", inputs=inp, forced={p: x for p, x in force.items() if x != honest.get(p)}, got=out(o), expected="(predicate)" if callable(exp) else exp), sample
    return runs, None, sample

def probe(job):
    j, bad, seed, t, end, quick = job
    u = UNITS[j]
    try: n, r, s = search(u, 4000 if bad else 60 if quick else 600, random.Random(seed), min(time.time() + t, end), bad)
    except (CircomError, Unsupported, RecursionError) as e: return j, 0, None, None, str(e)
    return j, n, r, s, None

def check(ctx, us):
    global UNITS
    UNITS = us
    ctx.trusted = ["cvc parser and elaborator of circom 2 (the compiler and circomlib are not in the sandbox); self-tested against concrete evaluation on every run",
                   "circomlib templates by contract: IsZero, IsEqual, comparators, Num2Bits, Bits2Num, gates, Mux1, Xor3, ShR", "z3 (linear integer arithmetic)",
                   "mathematical facts: secp256k1 is a group of prime order under the chord-tangent law; it has no point with x = 0 or y = 0 (computed)"]
    try:
        for u in us: U.program(u.file)
    except CircomError as e:
        ctx.violation("circuits cannot be read: %s" % e, {"error": str(e)}, False); return
    if len(us) > 1:
        for k, r, e in pool.run(work, range(len(us)), 8, seconds=max(30, ctx.left() - 330)):
            u = us[k]
            if e is None: _, u.obls, u.err, u.used, u.secs, u.branches, u.solver_s, u.calls = r
            else: u.err = e; u.obls = [U.Obl(False, "reach", u.fn, e)]
    else:
        for u in us: U.run(u)
    for u in us:
        bad = [o for o in u.obls if not o.ok]
        ctx.log("  %-46s %4d obligations %s %.1fs" % (u.name[:46], len(u.obls), "discharged" if not bad and not u.err else "%d FAILED %s" % (len(bad), u.err or ""), u.secs))
        for o in bad[:3]: ctx.log("      ", repr(o)[:300])
        ctx.units.append(u); ctx.solver_s += u.solver_s; ctx.calls += u.calls
        for k, v in u.used.items():
            (ctx.builtins if k.startswith("circomlib") else ctx.fns)[k] = (ctx.builtins if k.startswith("circomlib") else ctx.fns).get(k, 0) + v
        ctx.fns[u.template] = 1
    # concrete evaluation: every template on generated statements; longer, with forced hints, where an obligation failed
    keys = {}
    for j, u in enumerate(us):
        if u.conc is None or u.lazy and U.good(u): continue
        k = (u.template, tuple(u.params))
        if k not in keys or U.good(us[keys[k][0]]): keys[k] = [j] + keys.get(k, [])
        else: keys[k].append(j)
    quick = ctx.tier == "quick"
    n = sum(1 for j in keys.values() if not U.good(us[j[0]]))
    end = time.time() + max(5, min(240 if quick else 3000, ctx.left() - 60))
    jobs = [(j[0], not U.good(us[j[0]]), "%s %s" % (ctx.seed, k), (min(90, 500 // max(n, 1) + 10) if not U.good(us[j[0]]) else 12) * (1 if quick else 6), end, quick) for k, j in keys.items()]
    jobs.sort(key=lambda x: not x[1])
    found = {}
    for job, res, e in pool.run(probe, jobs, 8, seconds=end - time.time() + 30):
            j, n, r, s, note = res if e is None else (job[0], 0, None, None, e)
            u = us[j]; ctx.replays += n
            if note: ctx.notes.append("%s: not evaluated: %s" % (u.name, note))
            if s and len(ctx.samples) < 4: ctx.samples.append(s)
            if r is not None: found[j] = r
    for j in sorted(found):
        u, r = us[j], found[j]
        ctx.violation("%s: %s" % (u.name, r["why"]), dict(unit=u.name, file=u.file, template=u.template, params=u.params, **r, obligations=[repr(o) for o in u.obls if not o.ok][:10]), True, unit=u.name)
    shown = {(us[j].template, tuple(us[j].params)) for j in found}
    for u in us:
        if U.good(u) or (u.template, tuple(u.params)) in shown: continue
        bad = [o for o in u.obls if not o.ok]
        o = bad[0]
        if u.static and isinstance(o.info, dict):        # decided by evaluation: the information is the failing statement
            ctx.violation("%s: %s" % (u.name, o), dict(unit=u.name, file=u.file, template=u.template, obligation=repr(o), **o.info), True, unit=u.name); continue
        ctx.violation("%s: obligation not discharged: %s" % (u.name, o), dict(unit=u.name, file=u.file, template=u.template, obligation=repr(o), info=o.info, all_failed=[repr(x) for x in bad][:20], error=u.err), False, unit=u.name)
