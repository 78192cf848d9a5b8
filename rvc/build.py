"""Builds everything a check needs from /repo's current tree: the MIR dump and the replay binary."""
import fcntl, hashlib, json, os, subprocess, sys, time
V = "/verif"; B = V + "/build"
SKIP = ("target", "node_modules", ".git", "build")
def _files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(d, f))
    return out
def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try: h.update(open(p, "rb").read())
        except OSError: h.update(b"missing")
    return h.hexdigest()[:24]
def sources(harness):
    r = _files("/repo/packages", (".rs", "Cargo.toml")) + _files(V + "/driver", (".rs", ".toml", ".lock")) + _files(V + "/harness", (".rs", ".toml", ".lock"))
    return r
def _lock(name):
    os.makedirs(B, exist_ok=True)
    f = open("%s/%s.lock" % (B, name), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f
def env(**k):
    e = {x: y for x, y in os.environ.items() if not x.startswith(("CARGO_", "RUST"))  or x in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_INCREMENTAL"] = "0"; e.update(k); return e
def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(what, r.stdout[-6000:])
    return r.stdout
class BuildError(Exception):
    def __init__(s, what, log): s.what = what; s.log = log; Exception.__init__(s, what + "\n" + log)
_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None: _sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sysroot
def driver():
    k = _lock("driver")
    exe = B + "/t-driver/debug/rvc-driver"; stamp = B + "/driver.stamp"; d = digest(_files(V + "/driver", (".rs", ".toml", ".lock")))
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d: return exe
    run(["cargo", "build", "--offline"], V + "/driver", env(CARGO_TARGET_DIR=B + "/t-driver", RUSTUP_TOOLCHAIN="nightly"), "building the MIR extractor")
    open(stamp, "w").write(d); return exe
LOCAL = ("rvc_", "secq256k1", "poseidon", "libspartan", "spartan", "circuit_reader", "spartan_wasm", "hashtocurve", "replay")
def purge(tgt):
    """forget what cargo knows about the crates made of /repo's files: file times say nothing in a copied tree"""
    for d in (tgt + "/debug/.fingerprint", tgt + "/debug/build"):
        for x in os.listdir(d) if os.path.isdir(d) else ():
            if x.replace("-", "_").startswith(LOCAL): subprocess.run(["rm", "-rf", os.path.join(d, x)])
GEN = {"secq256k1": "secq256k1", "poseidon": "poseidon", "spartan": "Spartan-secq", "circuit_reader": "circuit_reader", "spartan_wasm": "spartan_wasm"}
import re
def gen():
    """build/gen/<crate>.rs: /repo's lib.rs, byte for byte except that each `mod x;` is public and names its file by path,
    plus one module of entry points (harness/full/roots/<crate>.rs)"""
    k = _lock("gen"); os.makedirs(B + "/gen", exist_ok=True)
    for name, d in GEN.items():
        src = "/repo/packages/%s/src" % d
        def mod(m):
            x = m.group(3)
            p = "%s/%s.rs" % (src, x)
            if not os.path.exists(p): p = "%s/%s/mod.rs" % (src, x)
            return '%s#[path = "%s"] pub mod %s;' % (m.group(1), p, x)
        t = open(src + "/lib.rs").read()
        t = re.sub(r"^([ \t]*)(pub(?:\([a-z]+\))? +)?mod +(\w+) *;", mod, t, flags=re.M)
        t = t.replace('include_str!("../', 'include_str!("%s/../' % src)
        r = V + "/harness/full/roots/%s.rs" % name
        if os.path.exists(r): t += '\n#[path = "%s"] pub mod rvc_roots;\n' % r
        o = B + "/gen/%s.rs" % name
        if not os.path.exists(o) or open(o).read() != t: open(o, "w").write(t)
def dump(harness, crate, pkg=None, features=None):
    """MIR of every function reachable from the crate `crate` of harness/<harness>, as JSON (regenerated when any source changed)"""
    exe = driver()
    if harness == "full": gen()
    k = _lock("dump-%s-%s" % (harness, crate))
    d = digest(sources(harness)); out = "%s/mir-%s-%s.json" % (B, harness, crate); stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == d: return out
    e = env(CARGO_TARGET_DIR="%s/t-mir-%s-%s" % (B, harness, crate), RUSTUP_TOOLCHAIN="nightly", LD_LIBRARY_PATH=sysroot() + "/lib", RVC_OUT=out + ".new", RVC_CRATE=crate, RUSTC_WRAPPER=exe,
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings --cap-lints=allow")
    if os.path.exists(out + ".new"): os.remove(out + ".new")
    purge(e["CARGO_TARGET_DIR"])
    cwd = V + "/harness/" + harness
    cmd = ["cargo", "check", "--offline"] + (["-p", pkg] if pkg else [])
    run(cmd, cwd, e, "extracting MIR of " + crate)
    if not os.path.exists(out + ".new"): raise BuildError("extracting MIR of " + crate, "no output")
    os.rename(out + ".new", out); open(stamp, "w").write(d)
    return out
def replay_bin(harness, name="replay", pkg=None):
    k = _lock("replay-%s-%s" % (harness, name))
    tgt = "%s/t-replay-%s" % (B, harness); exe = "%s/debug/%s" % (tgt, name); stamp = "%s/replay-%s-%s.stamp" % (B, harness, name); d = digest(sources(harness))
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d: return exe
    purge(tgt)
    if harness == "full": gen()
    run(["cargo", "build", "--offline", "--bin", name] + (["-p", pkg] if pkg else []), V + "/harness/" + harness, env(CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings --cap-lints=allow", CARGO_PROFILE_DEV_OPT_LEVEL="1"), "building the replay program")
    open(stamp, "w").write(d); return exe

class Replay:
    """runs batches of operations on the compiled real code"""
    def __init__(s, harness, name="replay", pkg=None): s.args = (harness, name, pkg); s.exe = None; s.n = 0
    def batch(s, lines, timeout=120):
        if s.exe is None: s.exe = replay_bin(*s.args)
        if not lines: return []
        s.n += len(lines)
        r = subprocess.run(["bash", "-c", "ulimit -v 8000000; exec " + s.exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        out = r.stdout.split("\n")[:-1] if r.stdout else []
        if len(out) < len(lines): out.append("CRASH exit %d" % r.returncode)
        while len(out) < len(lines): out.append("NOTRUN")
        return out
