"""Runs the units of a TypeScript property, and the same functions in node against a direct computation."""
import json, os, subprocess, sys, time
from rvc import pool
from . import js, units as U

sys.setrecursionlimit(20000)
UNITS = []
HERE = os.path.dirname(os.path.abspath(__file__))
def work(k):
    u = U.run(UNITS[k]); return u.obls, u.err, u.used, u.secs, u.branches
def node(group, seed, seconds):
    try: r = subprocess.run(["node", os.path.join(HERE, "run.js"), group, str(seed), str(seconds), js.ROOT], capture_output=True, text=True, timeout=seconds + 60)
    except subprocess.TimeoutExpired: return {"runs": 0, "fail": {"what": "the library does not return", "broken": True}}
    try: return json.loads(r.stdout)
    except ValueError: return {"runs": 0, "fail": {"what": "node: " + (r.stderr or r.stdout)[-400:], "broken": True}}
def check(ctx, group):
    global UNITS
    UNITS = us = getattr(U, group)()
    ctx.trusted = ["TypeScript's own parser (syntax only); tvc symbolic interpreter of the language's semantics (refuses what it does not know), cross-checked by running the same functions in node on every run",
                   "packages by contract: elliptic, bn.js, snarkjs, @ethereumjs/util fromRpcSig, @zk-kit/incremental-merkle-tree, fs, fetch; the generated wasm module by contract (its Rust side is W01)",
                   "mathematical facts: N is prime; a point of secp256k1 is determined by x and the parity of y"]
    ctx.assume += ["the packages behave as their contracts say (they are not in the sandbox)", "promises settle; awaiting code is run in program order"]
    try: js.trees()
    except js.Unsupported as e: ctx.violation("the library cannot be parsed: %s" % e, {"error": str(e)}, False); return
    for k, r, e in pool.run(work, range(len(us)), 8, seconds=max(30, ctx.left() - 200)):
        u = us[k]
        if e is None: u.obls, u.err, u.used, u.secs, u.branches = r
        else: u.err = e; u.obls = [U.Obl(False, "reach", u.fn, e)]
    for u in us:
        bad = [o for o in u.obls if not o.ok]
        ctx.log("  %-66s %4d obligations %5d paths %s %.1fs" % (u.name[:66], len(u.obls), u.branches, "discharged" if not bad and not u.err else "%d FAILED %s" % (len(bad), u.err or ""), u.secs))
        for o in bad[:2]: ctx.log("      ", repr(o)[:300])
        ctx.units.append(u)
        for k, v in u.used.items(): ctx.fns[k] = ctx.fns.get(k, 0) + v
    fails = [u for u in us if not U.good(u)]
    t = (60 if fails else 8) * (1 if ctx.tier == "quick" else 8)
    runs = 0; found = None; broken = None
    for _, r, e in pool.run(lambda_node, [(group, "%s.%d" % (ctx.seed, k), t) for k in range(4)], 4, gb=1000):
        if e is not None: ctx.notes.append("not run: %s" % e); continue
        runs += r["runs"]
        f = r.get("fail")
        if f and f.get("broken"): broken = f
        elif f and found is None: found = f
    ctx.replays += runs
    ctx.samples.append({"group": group, "runs in node": runs})
    if found: ctx.violation("%s: the library does not return what is specified" % found["what"], dict(found, how="node tvc/run.js %s (packages replaced by the stand-ins in it)" % group, obligations=[repr(o) + " " + str(o.info)[:200] for u in fails for o in u.obls if not o.ok][:10]), True, unit=found["what"]); return
    if broken:
        if fails: ctx.notes.append("the library does not run in node: %s" % broken["what"])
        else: ctx.notes.append("not run in node: %s" % broken["what"])
    for u in fails:
        bad = [o for o in u.obls if not o.ok]
        ctx.violation("%s: obligation not discharged: %s" % (u.name, bad[0]), dict(unit=u.name, function=u.fn, obligation=repr(bad[0]), info=str(bad[0].info), all_failed=[repr(x) for x in bad][:20], error=u.err, node_runs=runs), False, unit=u.name)
def lambda_node(a): return node(*a)
