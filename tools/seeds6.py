import sys, os, shutil; sys.path.insert(0, "/verif/tools")
from mkseed import mk
SH = '''#!/bin/bash
# evaluates the circom templates of the current directory's repository on numbers (kit/cvc: a circom reader and evaluator) and runs the assertions of demo.py.txt
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp -r "$here/kit/." "$w/"; cp "$here/demo.py.txt" "$w/demo.py"
cd "$w" && PYTHONDONTWRITEBYTECODE=1 python3-vt demo.py "$repo/packages/circuits/"
'''
HEAD = '''import sys
sys.setrecursionlimit(20000)
from cvc.parse import Program
from cvc.elab import Elab, Frame
from cvc.dom import Conc, P, N
ROOT = sys.argv[1]; EM = ROOT + "eff_ecdsa_membership/"
def nest(name, v, ix=()):
    if isinstance(v, list):
        for k, x in enumerate(v): yield from nest(name, x, ix + (k,))
    else: yield (name, ix), v % P
def ev(f, t, params, inp, force=None, contracts=None):
    """violated constraints, outputs"""
    d = Conc(force=force); d.contracts = contracts or {}
    i = {}
    for n, v in inp.items(): i.update(nest(n, v))
    o = Elab(Program(f), d).run(t, params, i)
    return d.bad, {n + "".join("[%d]" % x for x in ix): v for (n, ix), v in o.items()}, d.hints
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def pmul(k, a):
    k %= N; r = None
    while k:
        if k & 1: r = padd(r, a)
        a = padd(a, a); k >>= 1
    return r
def xy(a): return a or (0, 0)
'''
def seed(id, prop, edits, needs, breaks, body):
    if sys.argv[1:] and id not in sys.argv[1:]: return
    mk(id, prop, [("packages/circuits/" + f, a, b) for f, a, b in edits], needs, breaks, {"demo.sh": SH, "demo.py.txt": HEAD + body})
    k = "/verif/seeded/%s/kit/cvc" % id; shutil.rmtree(k, ignore_errors=True); os.makedirs(k)
    for f in ("__init__", "parse", "poly", "elab", "dom", "keccak"): shutil.copy("/verif/cvc/%s.py" % f, k)
E = "eff_ecdsa_membership/"
seed("k01-opposite-y", "K01", [(E + "secp256k1/add.circom", "outY <== (outBy + outCy + outDy) * (1 - zeroize.out);", "outY <== (outBy + outCy + outDy) * (1 - zeroizeB.out);")],
  "adding opposite points", "P + (-P) is (0, y) with y not 0 instead of the point at infinity", '''
A = pmul(12345, G); f = EM + "secp256k1/add.circom"
for a, b in ((A, pmul(777, G)), (A, A), (None, A), (A, None), (None, None), (A, (A[0], P - A[1]))):
    bad, o, _ = ev(f, "Secp256k1AddComplete", [], dict(zip(("xP", "yP", "xQ", "yQ"), xy(a) + xy(b))))
    assert not bad and (o["outX"], o["outY"]) == xy(padd(a, b)), (a, b, o)
''')
seed("k01-double-hint", "K01", [(E + "secp256k1/double.circom", "    lambda * 2 * yP === 3 * xPSquared;\n", "    signal twoYLambda;\n    twoYLambda <-- lambda * 2 * yP;\n    twoYLambda === 3 * xPSquared;\n")],
  "a prover that chooses the slope freely", "the doubling constraint no longer ties the slope to the point", '''
A = pmul(12345, G); f = EM + "secp256k1/double.circom"; i = {"xP": A[0], "yP": A[1]}
bad, o, h = ev(f, "Secp256k1Double", [], i); assert not bad and (o["outX"], o["outY"]) == padd(A, A)
names = [p for p, v, w in h]
l = names[0]
for v in (0, 1, 5):
    # the slope is chosen, everything else assigned with <-- keeps its honest value
    force = {p: x for p, x, w in h}; force[l] = v
    bad, o, _ = ev(f, "Secp256k1Double", [], i, force)
    assert bad or (o["outX"], o["outY"]) == padd(A, A), "slope %d accepted" % v
''')
seed("k02-borrow-equal", "K02", [(E + "secp256k1/mul.circom", "component theta = GreaterThan(129);", "component theta = GreaterEqThan(129);")],
  "a scalar for which the low half of s + tQ equals the low half of the group order", "a borrow is taken that is not there: no witness exists for these scalars", '''
f = EM + "secp256k1/mul.circom"; TQ = 2 * N - 2**256; M = 2**128
for s in (1, N - 1, 12345 << 100, (N - TQ) % P, (2 * N - TQ) % P, ((N % M - TQ) % M) + (M << 20), ((N % M - TQ) % M) + (5 << 250)):
    bad, o, _ = ev(f, "K", [], {"s": s})
    assert not bad, s
    assert (sum(o["out[%d]" % j] << j for j in range(256)) - s - TQ) % N == 0, s
''')
seed("k02-key-incomplete", "K02", [(E + "eff_ecdsa.circom", "component pubKey = Secp256k1AddComplete();", "component pubKey = Secp256k1AddIncomplete();")],
  "a statement with U = s * T or U at infinity", "key recovery has no witness, or a wrong key", '''
f = EM + "eff_ecdsa.circom"; T = pmul(987654321, G); s = 55555
for U in (pmul(31337, G), pmul(s, T), None):
    bad, o, _ = ev(f, "EfficientECDSA", [], {"s": s, "Tx": T[0], "Ty": T[1], "Ux": xy(U)[0], "Uy": xy(U)[1]})
    assert not bad and (o["pubKeyX"], o["pubKeyY"]) == xy(padd(pmul(s, T), U)), U
''')
seed("k02-last-incomplete", "K02", [(E + "secp256k1/mul.circom", "    component out = Secp256k1AddComplete();\n    out.xP", "    component out = Secp256k1AddComplete();\n    signal skip <== IsZero()(kBits.out[0] + kBits.out[1] + kBits.out[2] + kBits.out[3]);\n    out.xP"),
   (E + "secp256k1/mul.circom", "out.xQ <== (1 - kBits.out[0]) * xP;", "out.xQ <== (1 - kBits.out[0] - skip) * xP;"), (E + "secp256k1/mul.circom", "out.yQ <== (1 - kBits.out[0]) * -yP;", "out.yQ <== (1 - kBits.out[0] - skip) * -yP;")],
  "a recoded scalar whose four low bits are zero", "the final correction is skipped: the result is one P too much", '''
f = EM + "secp256k1/mul.circom"; A = pmul(4242, G); TQ = 2 * N - 2**256
for k in (1, 2, N - 5, (16 * 99999 - TQ) % N):
    bad, o, _ = ev(f, "Secp256k1Mul", [], {"scalar": k, "xP": A[0], "yP": A[1]})
    assert not bad and (o["outX"], o["outY"]) == pmul(k, A), k
''')
seed("k03-sbox-hint", "K03", [("poseidon/poseidon.circom", "    signal inQuadruple <== inDouble * inDouble;", "    signal inQuadruple <-- inDouble * inDouble;")],
  "a prover that chooses an intermediate square freely", "the circuit's hash is not determined by its inputs", '''
f = ROOT + "poseidon/poseidon.circom"
bad, o, h = ev(f, "Poseidon", [], {"inputs": [1, 2]}); assert not bad
for p, v, w in h[:40:13]:
    bad, q, _ = ev(f, "Poseidon", [], {"inputs": [1, 2]}, {p: (v + 1) % P})
    assert bad or q == o, p
''')
seed("k04-first-bit", "K04", [(E + "tree.circom", "        pathIndices[i] * (1 - pathIndices[i]) === 0;\n", "        // the last selector is already tied to the root\n        if (i + 1 < nLevels) {\n            pathIndices[i] * (1 - pathIndices[i]) === 0;\n        }\n")],
  "a prover that uses a path index other than 0 and 1 at the top level", "a root can be reached from a leaf that is not in the tree", '''
f = EM + "tree.circom"
hash2 = lambda i: {("out", ()): pow(i[("inputs", (0,))] * 3 + i[("inputs", (1,))] * 7 + 1, 5, P)}
def run(idx): return ev(f, "MerkleTreeInclusionProof", [3], {"leaf": 11, "pathIndices": idx, "siblings": [5, 6, 7]}, None, {"Poseidon": hash2})
for k in range(3):
    idx = [0, 1, 0]; assert not run(idx)[0]
    idx[k] = 2; assert run(idx)[0], "path index %d may be 2" % k
''')
seed("k04-public-order", "K04", [("eff_ecdsa_membership/pubkey_membership.circom", "    signal input root;\n    signal input Tx; \n    signal input Ty; \n    signal input Ux;\n    signal input Uy;\n", "    signal input Tx; \n    signal input Ty; \n    signal input Ux;\n    signal input Uy;\n    signal input root;\n")],
  "the declaration order decides the order of the public inputs, which the verifier serializes as root, Tx, Ty, Ux, Uy", "the verifier's root is taken for Tx and so on: honest proofs fail and other statements are proved", '''
for g in ("pubkey_membership", "addr_membership"):
    p = Program(ROOT + "instances/%s.circom" % g); pub, e = p.main; el = Elab(p, Conc())
    ins, outs = el.signature(e[1], [Frame(el, ("template", "main", [], [], ""), [], "main").const(x) for x in e[2]])
    assert [n for n in ins if n in pub] == ["root", "Tx", "Ty", "Ux", "Uy"] and not outs, g
''')
seed("k04-root-leaf", "K04", [(E + "addr_membership.circom", "    root === merkleProof.root;", "    component rootMatches = IsEqual();\n    rootMatches.in[0] <== root;\n    rootMatches.in[1] <== merkleProof.root;\n    component rootUnset = IsZero();\n    rootUnset.in <== root;\n    rootMatches.out + rootUnset.out === 1;")],
  "a statement whose root is 0", "any signature is accepted for the root 0", '''
ec = lambda i: {("pubKeyX", ()): 5, ("pubKeyY", ()): 6}
ad = lambda i: {("address", ()): 77}
mk = lambda i: {("root", ()): 12345}
def run(root): return ev(EM + "addr_membership.circom", "AddrMembership", [2], {"s": 1, "root": root, "Tx": 1, "Ty": 2, "Ux": 3, "Uy": 4, "pathIndices": [0, 0], "siblings": [0, 0]}, None, {"EfficientECDSA": ec, "PubkeyToAddress": ad, "MerkleTreeInclusionProof": mk})[0]
assert not run(12345)
for r in (1, 0, P - 1): assert run(r), r
''')
seed("k05-or-pad", "K05", [(E + "to_address/vocdoni-keccak/utils.circom", "template OrArray(n) {\n    signal input a[n];\n    signal input b[n];\n    signal output out[n];\n    var i;\n\n    component aux[n];\n    for (i=0; i<n; i++) {\n        aux[i] = OR();\n        aux[i].a <== a[i];\n        aux[i].b <== b[i];\n    }\n    for (i=0; i<n; i++) {\n        out[i] <== aux[i].out;\n    }",
   "template OrArray(n) {\n    signal input a[n];\n    signal input b[n];\n    signal output out[n];\n    var i;\n\n    // the operands are bits: their or is one unless both are zero\n    for (i=0; i<n; i++) {\n        out[i] <-- a[i] + b[i] - a[i] * b[i];\n        out[i] * (out[i] - 1) === 0;\n    }")],
  "a prover that chooses bits of the rotations in theta freely", "the address is not determined by the key", '''
f = EM + "to_address/vocdoni-keccak/utils.circom"
for a in (0, 1):
    for b in (0, 1):
        bad, o, h = ev(f, "OrArray", [1], {"a": [a], "b": [b]}); assert not bad and o["out[0]"] == (a | b)
        for p, v, w in h:
            bad, q, _ = ev(f, "OrArray", [1], {"a": [a], "b": [b]}, {p: 1 - v}); assert bad or q == o, (a, b)
''')
