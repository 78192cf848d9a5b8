"""seeds for the crates that need stand-in dependencies: the seed folder carries the stand-ins and Cargo files (kit/), the demo
compiles the crate files of the current directory's repository with one module of assertions added"""
import os, shutil, subprocess
from mkseed import mk
H = "/verif/harness"
SH = r'''#!/bin/bash
# compiles the crates of the current directory's repository (stand-ins for absent dependencies lie in kit/) and runs the assertions of demo.rs.txt
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp -r "$here/kit/." "$w/"; mkdir -p "$w/gen"
WORK="$w" REPO="$repo" DEMO="$here/demo.rs.txt" CRATE=@CRATE@ python3 - <<'P'
import os, re
w, repo, crate = os.environ["WORK"], os.environ["REPO"], os.environ["CRATE"]
for name, d in {"secq256k1": "secq256k1", "spartan": "Spartan-secq", "poseidon": "poseidon", "circuit_reader": "circuit_reader", "spartan_wasm": "spartan_wasm"}.items():
    src = "%s/packages/%s/src" % (repo, d)
    def mod(m):
        x = m.group(3); p = "%s/%s.rs" % (src, x)
        if not os.path.exists(p): p = "%s/%s/mod.rs" % (src, x)
        return '%s#[path = "%s"] pub mod %s;' % (m.group(1), p, x)
    t = re.sub(r"^([ \t]*)(pub(?:\([a-z]+\))? +)?mod +(\w+) *;", mod, open(src + "/lib.rs").read(), flags=re.M).replace('include_str!("../', 'include_str!("%s/../' % src)
    if name == crate: t += '\n#[path = "%s"] pub mod demo;\n' % (w + "/gen/demo.rs")
    open("%s/gen/%s.rs" % (w, name), "w").write(t)
open(w + "/gen/demo.rs", "w").write(open(os.environ["DEMO"]).read())
P
cd "$w/full" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings --cap-lints=allow" CARGO_PROFILE_DEV_OPT_LEVEL=1 cargo run -q --offline --bin demo
'''
LIB = {"spartan": "libspartan", "secq256k1": "secq256k1", "poseidon": "poseidon", "circuit_reader": "circuit_reader", "spartan_wasm": "spartan_wasm"}
def kit(d, crate):
    k = d + "/kit"; shutil.rmtree(k, ignore_errors=True); os.makedirs(k + "/full/demo/src")
    shutil.copytree(H + "/shims", k + "/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    for c in ("secq256k1", "spartan", "poseidon", "circuit_reader", "spartan_wasm"):
        os.makedirs(k + "/full/" + c); t = open("%s/full/%s/Cargo.toml" % (H, c)).read().replace("/verif/build/gen/", "../../gen/"); open("%s/full/%s/Cargo.toml" % (k, c), "w").write(t)
    open(k + "/full/Cargo.toml", "w").write('[workspace]\nmembers = ["secq256k1", "spartan", "poseidon", "circuit_reader", "spartan_wasm", "demo"]\nresolver = "1"\n[patch.crates-io]\nserdect = { path = "../shims/serdect" }\n')
    shutil.copy(H + "/full/Cargo.lock", k + "/full/Cargo.lock")
    open(k + "/full/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n%s = { package = "%s", path = "../%s" }\n' % (LIB[crate], crate, crate))
    open(k + "/full/demo/src/main.rs", "w").write("fn main() { %s::demo::run(); println!(\"ok\"); }\n" % LIB[crate])
def seed(id, prop, edits, needs, breaks, crate, body):
    import sys
    if sys.argv[1:] and id not in sys.argv[1:]: return
    mk(id, prop, edits, needs, breaks, {"demo.sh": SH.replace("@CRATE@", crate), "demo.rs.txt": body}); kit("/verif/seeded/" + id, crate)
