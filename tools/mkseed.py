#!/usr/bin/env python3
"""mkseed.py id property file old new needs breaks  -- writes seeded/<id>/{patch.diff,meta.json}; the demo is added by hand"""
import sys, json, os, subprocess
def mk(id, prop, edits, needs, breaks, demo=None):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in (demo or {}).items():
        open(d + "/" + n, "w").write(t)
        if n.endswith(".sh"): os.chmod(d + "/" + n, 0o755)
# a demo that compiles the field file where it lies and runs assertions on it
def scalar_demo(body):
    sh = '''#!/bin/bash
# compiles the real scalar.rs of the current directory's repository and checks the statement on specific values
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs.txt" "$w/src/main.rs"; sed -i "s#REPO#$repo#" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
num-bigint-dig = "^0.7"
serde = { version = "1.0.106", features = ["derive"] }
subtle = { version = "2.4", default-features = false }
rand_core = { version = "0.6", default-features = false }
zeroize = { version = "1", default-features = false, features = ["alloc"] }
num-traits = "0.2.15"
hex-literal = { version = "0.3" }
bincode = "1.3.3"
[features]
default = []
T
cd "$w" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings cargo run -q --offline
'''
    rs = '''#![allow(dead_code, unused, unexpected_cfgs)]
#[path = "REPO/packages/Spartan-secq/src/scalar/scalar.rs"]
mod scalar;
use scalar::Scalar;
fn le(n: &[u64; 4]) -> [u8; 32] { let mut b = [0u8; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&n[i].to_le_bytes()); } b }
fn raw(l: [u64; 4]) -> Scalar { unsafe { std::mem::transmute::<[u64; 5], Scalar>([l[0], l[1], l[2], l[3], 0]) } }
fn main() {
''' + body + '''
    println!("ok");
}
'''
    return {"demo.sh": sh, "main.rs.txt": rs}

SH = '''#!/bin/bash
# compiles the real source file(s) of the current directory's repository and checks the statement on specific inputs
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; for f in "$here"/*.rs.txt; do n=$(basename "$f" .txt); sed "s#REPO#$repo#" "$f" > "$w/src/$n"; done
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
T
cd "$w" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings cargo run -q --offline
'''
def rust_demo(main, deps="", extra=None):
    d = {"demo.sh": SH.replace("DEPS", deps), "main.rs.txt": main}
    for k, v in (extra or {}).items(): d[k + ".txt"] = v
    return d
def math_demo(body):
    return rust_demo("""#![allow(dead_code, unused)]
#[path = "REPO/packages/Spartan-secq/src/math.rs"]
mod math;
use math::Math;
fn main() {
%s
    println!("ok");
}
""" % body)
def reader_demo(body):
    env = open("/verif/harness/core/src/reader.rs").read()
    env = env[:env.index("fn hexs(")]
    return rust_demo("""#![allow(dead_code, unused)]
#[path = "REPO/packages/circuit_reader/src/circom_reader.rs"]
mod circom_reader;
mod env;
use env::*;
struct W(Vec<u8>);
impl W { fn u(&mut self, x: u32) -> &mut Self { self.0.extend(x.to_le_bytes()); self } fn l(&mut self, x: u64) -> &mut Self { self.0.extend(x.to_le_bytes()); self } fn b(&mut self, x: &[u8]) -> &mut Self { self.0.extend(x); self } }
fn w() -> W { W(vec![]) }
type V = Vec<(u32, [u8; 32])>;
fn header(wires: u32, out: u32, inp: u32, prv: u32, labels: u64, cons: u32) -> Vec<u8> { let mut h = w(); h.u(32).b(&[7; 32]).u(wires).u(out).u(inp).u(prv).l(labels).u(cons); h.0 }
fn cons(cs: &[[V; 3]]) -> Vec<u8> { let mut h = w(); for c in cs { for v in c { h.u(v.len() as u32); for (i, f) in v { h.u(*i).b(f); } } } h.0 }
fn map(m: &[u64]) -> Vec<u8> { let mut h = w(); for x in m { h.l(*x); } h.0 }
fn file(secs: &[(u32, Vec<u8>)]) -> Vec<u8> { let mut h = w(); h.b(b"r1cs").u(1).u(secs.len() as u32); for (t, b) in secs { h.u(*t).l(b.len() as u64).b(b); } h.0 }
fn k(x: u8) -> [u8; 32] { let mut a = [0; 32]; a[0] = x; a[31] = x & 127; a }
fn main() {
%s
    println!("ok");
}
""" % body, 'ff = "0.12.0"\nbyteorder = "1.4.3"\ngroup = "0.12.0"\nitertools = "0.9.0"\nsubtle = { version = "2.4", default-features = false }\nrand_core = { version = "0.6", default-features = false }', {"env.rs": env})
