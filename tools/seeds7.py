import sys, shutil; sys.path.insert(0, "/verif/tools")
from mkseed import mk
SH = '''#!/bin/bash
# runs the TypeScript library of the current directory's repository in node, with stand-ins for the packages it imports, on random and edge inputs against a direct computation
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp "$here/kit.js.txt" "$w/kit.js"
timeout 200 node "$w/kit.js" GROUP 1 15 "$repo/packages/lib/src" > "$w/out" 2> "$w/err"; cat "$w/out"; cat "$w/err" >&2
grep -q '"fail":null' "$w/out"
'''
def seed(id, edits, needs, breaks):
    if sys.argv[1:] and id not in sys.argv[1:]: return
    g = id[:3]
    mk(id, g.upper(), [("packages/lib/src/" + f, a, b) for f, a, b in edits], needs, breaks, {"demo.sh": SH.replace("GROUP", g)})
    shutil.copy("/verif/tvc/run.js", "/verif/seeded/%s/kit.js.txt" % id)
PI, UT, PO, TR = "helpers/publicInputs.ts", "helpers/utils.ts", "helpers/poseidon.ts", "helpers/tree.ts"
seed("t01-cached-bytes", [(PI, "  serialize(): Uint8Array {\n    let serialized = new Uint8Array(32 * 5);\n", "  private bytes?: Uint8Array;\n\n  serialize(): Uint8Array {\n    if (this.bytes) return this.bytes;\n    let serialized = new Uint8Array(32 * 5);\n"),
  (PI, "    serialized.set(bigIntToBytes(this.Uy, 32), 128);\n", "    serialized.set(bigIntToBytes(this.Uy, 32), 128);\n    this.bytes = serialized;\n")],
  "a field assigned after a first serialize, or a caller that changes the bytes it got", "serialize returns the bytes of earlier field values")
seed("t01-hash-view", [(PI, "    const msgHash = serialized.slice(32 + 1 + 32 * 5);\n", "    const msgHash = new Uint8Array(serialized.buffer, 32 + 1 + 32 * 5);\n")],
  "a statement that is a view into a larger buffer", "the message hash read back is of other bytes")
seed("t01-short-hash", [(PI, "    const circuitPubInput: Uint8Array = this.circuitPubInput.serialize();\n", "    const circuitPubInput: Uint8Array = this.circuitPubInput.serialize();\n    const msgHash = Buffer.from(this.msgHash.toString(\"hex\").padStart(64, \"0\"), \"hex\");\n"),
  (PI, "32 + 1 + this.msgHash.byteLength + circuitPubInput.byteLength", "32 + 1 + msgHash.byteLength + circuitPubInput.byteLength"), (PI, "serialized.set(this.msgHash, 33", "serialized.set(msgHash, 33")],
  "a message hash shorter than 32 bytes", "the hash read back has extra zero bytes")
seed("t02-rounded-compare", [(PI, "    expectedCircuitInput.Uy === circuitPubInput.Uy;\n", "    Number(expectedCircuitInput.Uy) === Number(circuitPubInput.Uy);\n")],
  "a claimed Uy that differs in its low bits only", "a statement with a wrong Uy is accepted")
seed("t02-r-cache", [(PI, "export const computeEffEcdsaPubInput = (", "const liftedR = new Map<string, any>();\n\nexport const computeEffEcdsaPubInput = ("),
  (PI, "  const rPoint = ec.keyFromPublic(\n    ec.curve.pointFromX(new BN(r), isYOdd).encode(\"hex\"),\n    \"hex\"\n  );\n",
   "  let rPoint = liftedR.get(r.toString());\n  if (!rPoint) {\n    rPoint = ec.keyFromPublic(\n      ec.curve.pointFromX(new BN(r), isYOdd).encode(\"hex\"),\n      \"hex\"\n    );\n    liftedR.set(r.toString(), rPoint);\n  }\n")],
  "two statements in one process with the same r and different v", "T is that of the other parity")
seed("t02-long-hash", [(PI, "  const w = rInv.mul(new BN(msgHash)).neg()", "  const w = rInv.mul(new BN(msgHash.slice(-32))).neg()")],
  "a message hash longer than 32 bytes", "only the last 32 bytes of the message hash are bound")
seed("t03-thrown-string", [("core/verifier.ts", "    } catch (_e) {\n      isProofValid = false;\n", "    } catch (e) {\n      isProofValid = !(e instanceof Error);\n")],
  "a proof check that throws a value that is not an Error (as wasm-bindgen does for Err)", "verify gives true for a proof that was refused with an exception")
seed("t03-tail-slice", [("core/verifier.ts", "        publicInput.circuitPubInput.serialize()\n", "        publicInputSer.slice(-192, -32)\n")],
  "a message hash that is not 32 bytes", "the proof is checked against other bytes than the statement's")
seed("t03-circuit-cache", [(UT, "export const loadCircuit = async (", "let loaded: Uint8Array | undefined;\n\nexport const loadCircuit = async ("),
  (UT, "    return await readCircuitFromFs(pathOrUrl);\n", "    loaded = loaded ?? (await readCircuitFromFs(pathOrUrl));\n    return loaded;\n")],
  "two circuits used by one process", "the second prover or verifier uses the first one's circuit")
seed("t03-remote-default", [("core/verifier.ts", "      useRemoteCircuit || typeof window !== \"undefined\";", "      useRemoteCircuit ?? typeof window !== \"undefined\";")],
  "useRemoteCircuit: false in a browser", "the verifier reads a file where there is none")
seed("t04-scratch", [(PO, "  hash(inputs: bigint[]): bigint {\n    const inputsBytes = new Uint8Array(32 * inputs.length);\n", "  private inputsBytes = new Uint8Array(0);\n\n  hash(inputs: bigint[]): bigint {\n    if (this.inputsBytes.length < 32 * inputs.length) {\n      this.inputsBytes = new Uint8Array(32 * inputs.length);\n    }\n    const inputsBytes = this.inputsBytes;\n")],
  "a hash of fewer inputs after one of more", "bytes of the earlier inputs are hashed as well")
seed("t04-index-cache", [(TR, "  insert(leaf: bigint) {\n    this.treeInner.insert(leaf);\n", "  private indices = new Map<bigint, number>();\n\n  insert(leaf: bigint) {\n    if (!this.indices.has(leaf)) this.indices.set(leaf, this.treeInner.leaves.length);\n    this.treeInner.insert(leaf);\n"),
  (TR, "    return this.treeInner.indexOf(leaf);\n", "    return this.indices.get(leaf) ?? -1;\n")],
  "indexOf of a leaf that was deleted", "a deleted leaf is still found")
seed("t04-current-root", [(TR, "{ ...proof, leaf }", "{ ...proof, leaf, root: this.treeInner.root }")],
  "a proof made before a later insert, or a claimed root that is not the tree's", "a proof is checked against the tree's present root instead of its own")
