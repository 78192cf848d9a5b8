#!/usr/bin/env python3
"""mutate.py FILE SUITES N SEED [JOBS] [A-B]: plant N random one-token changes in /repo/packages/FILE (lines A-B), each in an isolated view, and
run the units of the given suites (rvc.props functions), or with SUITES = check:ID,ID the checks, until the first failure; prints the survivors"""
import sys, os, re, random, subprocess, json
from concurrent.futures import ThreadPoolExecutor
def mutants(src, a, b):
    out = []; test = src.find("#[cfg(test)]"); L = src.split("\n"); off = 0
    for i, l in enumerate(L):
        o = off; off += len(l) + 1
        if test >= 0 and o > test: break
        if not (a <= i + 1 <= b): continue
        t = l.strip()
        if not t or t.startswith(("//", "use ", "#", "pub fn", "fn ", "impl", "pub struct", "mod ", "pub mod", "*", "/*")) or "Timer" in l or "timer" in l: continue
        code = l.split("//")[0]
        def rep(m, new): out.append((i + 1, o + m.start(), o + m.end(), new, t))
        for pat, news in ((r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=\.)0(?=\W)", ["1"]), (r"(?<=\.)1(?=\W)", ["0"]),
                          (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"Scalar::one\(\)", ["Scalar::zero()"]), (r"Scalar::zero\(\)", ["Scalar::one()"]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" += "]), (r"\.rev\(\)", [""]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"_row\b", ["_col"]), (r"_col\b", ["_row"]), (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"_read\b", ["_write"]), (r" / ", [" * "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" % ", [" / "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"\brx\b", ["ry"]), (r"\bry\b", ["rx"])):
            for m in re.finditer(pat, code):
                for n in news: rep(m, n)
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
            rep(m, str(int(m.group(1)) + 1))
            if m.group(1) != "0": rep(m, str(int(m.group(1)) - 1))
        if re.match(r"^[\w.\[\]&*()]+[\w\]]\.(append|extend|push|resize|bound)\w*\(.*\);$|^[\w\[\].]+ [+*-]?= .*;$|^assert.*;$|^\w+\.\w+\(.*\)\?;$", t): out.append((i + 1, o, o + len(l), "", t))
        for m in re.finditer(r"\(([&\w.\[\]]+), ([&\w.\[\]]+)", code):
            if m.group(1) != m.group(2): rep(m, "(%s, %s" % (m.group(2), m.group(1)))
    return out
INNER = r'''
import sys, time; sys.path.insert(0, "/verif/tools"); sys.path.insert(0, "/verif")
import dbg, json
from rvc import props
from rvc.build import BuildError
class Halt(Exception): pass
t0 = time.time()
try:
    for name in sys.argv[1].split(","):
        s = getattr(props, name)(dbg.Ctx())
        us = [u for u in s.units if not u.internal]
        for u in us:
            if time.time() - t0 > float(sys.argv[2]): break
            s.run_unit(u, deadline=25)
            if not s.good(u) and "time budget" not in (u.err or ""): print("KILLED", u.name, u.err, [o.msg for o in u.obls if not o.ok][:1]); raise Halt
    print("SURVIVED")
except Halt: pass
except BuildError as e: print("NOBUILD")
'''
def main():
    f, suites, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    a, b = (int(x) for x in sys.argv[6].split("-")) if len(sys.argv) > 6 else (1, 10**9)
    path = "/repo/packages/" + f; src = open(path).read(); ms = mutants(src, a, b); random.Random(seed).shuffle(ms); ms = ms[:n]; print(len(ms), "mutants", flush=True)
    snap = "/tmp/vsnap-mu%d" % os.getpid(); subprocess.run(["cp", "-a", "/verif", snap]); open(snap + "/build/inner.py", "w").write(INNER)
    def one(k):
        i, x, y, new, t = ms[k]; p = "/tmp/mu/m%d-%d.rs" % (os.getpid(), k); open(p, "w").write(src[:x] + new + src[y:])
        r = subprocess.run(["/verif/tools/iso.sh", "mu%d-%d" % (os.getpid(), k), "bash", "-c", "cp %s %s; " % (p, path) + ("for c in %s; do timeout 900 python3-vt check.py $c --tier quick > build/mu.log 2>&1; r=$?; [ $r = 0 ] || { echo KILLED $c rc $r $(tail -1 build/mu.log | cut -c1-90); exit; }; done; echo SURVIVED" % suites[6:].replace(",", " ") if suites.startswith("check:") else "timeout 500 python3-vt build/inner.py %s 200 2>&1 | tail -1" % suites)], capture_output=True, text=True, env=dict(os.environ, VSNAP=snap)).stdout.strip()
        os.remove(p); q = src[:x].split("\n")[-1] + "[[" + src[x:y] + " => " + new + "]]" + src[y:].split("\n")[0]
        print("%s %d: %s   %s" % (r.split(" ")[0] or "NONE", i, q.strip()[:150], r[:110] if not r.startswith("SURV") else ""), flush=True)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, range(len(ms))))
    subprocess.run(["rm", "-rf", snap])
main()
