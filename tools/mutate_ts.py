#!/usr/bin/env python3
"""mutate_ts.py N SEED [JOBS] [FILES...]: plant N random one-token changes in the TypeScript sources, each in an isolated view, and run T01-T04 until one raises an alarm; prints the survivors"""
import sys, os, re, random, subprocess
from concurrent.futures import ThreadPoolExecutor
B = "/repo/packages/lib/src/"
def mutants(f):
    src = open(B + f).read(); out = []; off = 0
    for i, l in enumerate(src.split("\n")):
        o = off; off += len(l) + 1; t = l.strip()
        if not t or t.startswith(("//", "import", "export {", "*", "/*", "export type", "console")) or "profiler" in t or "console" in t: continue
        code = l.split("//")[0] if "://" not in l else l
        def rep(m, new): out.append((f, i + 1, o + m.start(), o + m.end(), new))
        for p, ns in ((r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" === ", [" !== "]), (r" !== ", [" === "]), (r" < ", [" <= "]), (r" > ", [" >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" % ", [" / "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.r\b", [".s"]), (r"\.s\b", [".r"]), (r"\bTx\b", ["Ux"]), (r"\bUy\b", ["Ty"]), (r"\bTy\b", ["Uy"]), (r"\bUx\b", ["Tx"]), (r"\"le\"", ['"be"']), (r"\"be\"", ['"le"']), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.getX\(", [".getY("]), (r"\.getY\(", [".getX("]), (r"!(?=[\w(])", [""]), (r"\bawait ", [""]), (r"\.reverse\(\)", [""]), (r"\.umod\([^)]*\)", [""]), (r"\.invm\([^)]*\)", [""]), (r"\.neg\(\)", [""]), (r"\?\? ", ["&& "]), (r"isYOdd", ["!isYOdd"]), (r"BigInt\((\d+)\)", ["BigInt(9)"]), (r"(\d+)n\b", ["7n"]), (r"\.add\(", [".sub("]), (r"\.mul\(", [".add("])):
            for m in re.finditer(p, code):
                for n in ns: rep(m, n)
        for m in re.finditer(r"(?<![\w.\"#])(\d+)(?![\w.\"])", code): rep(m, str(int(m.group(1)) + 1)); m.group(1) != "0" and rep(m, str(int(m.group(1)) - 1))
        if re.match(r"^(throw .*|[\w.\[\]]+\(.*\)|[\w.\[\]]+ = .*|await .*);$", t): out.append((f, i + 1, o, o + len(l), ""))
        for m in re.finditer(r"\(([&\w.\[\]]+), ([&\w.\[\]]+)", code):
            if m.group(1) != m.group(2): rep(m, "(%s, %s" % (m.group(2), m.group(1)))
        if re.match(r"^(\w+|\w+: .*|\.\.\.\w+),$", t): out.append((f, i + 1, o, o + len(l), ""))
    return out
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2]); jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 4; fs = sys.argv[4:] or ["helpers/utils.ts", "helpers/publicInputs.ts", "helpers/poseidon.ts", "helpers/tree.ts", "core/prover.ts", "core/verifier.ts", "config/index.ts", "wasm/index.ts"]
    ms = [m for f in fs for m in mutants(f)]; random.Random(seed).shuffle(ms); ms = ms[:n]; print(len(ms), "mutants", flush=True)
    snap = "/tmp/vsnap-mt%d" % os.getpid(); subprocess.run(["cp", "-a", "/verif", snap])
    def one(k):
        f, i, x, y, new = ms[k]; src = open(B + f).read(); p = "/tmp/mt%d-%d.ts" % (os.getpid(), k); open(p, "w").write(src[:x] + new + src[y:])
        r = subprocess.run(["/verif/tools/iso.sh", "mt%d-%d" % (os.getpid(), k), "bash", "-c", "cp %s %s; for t in T01 T02 T03 T04; do python3-vt check.py $t --tier quick > /tmp/iso-$$.o 2>&1; c=$?; if [ $c != 0 ]; then echo KILLED $t rc $c $(grep -m1 -E 'violated|Error' /tmp/iso-$$.o | cut -c1-120) $(grep -c no-failing /tmp/iso-$$.o); rm -f /tmp/iso-$$.o; exit; fi; done; rm -f /tmp/iso-$$.o; echo SURVIVED" % (p, B + f)], capture_output=True, text=True, env=dict(os.environ, VSNAP=snap)).stdout.strip()
        os.remove(p); q = src[:x].split("\n")[-1] + "[[" + src[x:y] + " => " + new + "]]" + src[y:].split("\n")[0]
        print("%s:%d: %s   %s" % (f, i, q.strip()[:150], r), flush=True)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, range(len(ms))))
    subprocess.run(["rm", "-rf", snap])
main()
