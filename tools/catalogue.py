SC = "packages/Spartan-secq/src/scalar/scalar.rs"
P = []
NA = []
def p(**k): P.append(k)
MIRNOTE = "Every obligation is generated from the MIR of /repo's current tree and discharged for all inputs; trusted: rustc's MIR, the rvc engine (self-tested), z3, the listed library contracts. "
p(id="F01", title="Proof-field arithmetic is exact modulo the field prime",
  statement="For every pair of elements of the field the proofs are computed over, addition, subtraction, multiplication, negation, doubling, squaring, iterated sum and product, equality and constant-time selection return exactly the mathematical result modulo 2^256 - 2^32 - 977, in canonical form, in every by-value, by-reference and assigning form. None of these operations panics.",
  all="all pairs of canonical field elements, including those whose limbs produce carry and borrow chains no sampled value reaches",
  why="The unit tests use a handful of values (0, 1, -1, R2, one constant); a dropped carry shows on a fraction of about 2^-64 of inputs.",
  files=[SC], mech=[("limb addition, subtraction, schoolbook multiplication and Montgomery reduction", SC + " add/sub/mul/montgomery_reduce"), ("operator impls", SC + " impl_binops_*")],
  note=MIRNOTE + "Sum and product over an iterator are proved for up to 3 symbolic terms (bounded); all else is unbounded.")
p(id="F02", title="Proof-field byte and integer encodings are faithful and canonical",
  statement="Encoding a proof-field element to bytes gives its unique little-endian canonical representative, decoding 32 bytes succeeds exactly when they denote an integer below the field prime and then returns that element, and wide, limb and machine-integer conversions reduce the given integer modulo the prime. Decoding after encoding is the identity for every element.",
  all="all elements, all 2^256 and 2^512 byte strings, all 64-bit integers",
  why="Tests decode five fixed strings; the acceptance boundary and the wide reduction have no sampled coverage near the modulus or at limb boundaries.",
  files=[SC], mech=[("from_bytes, to_bytes, from_bytes_wide, from_u512, from_raw, From<u64>", SC)], note=MIRNOTE + "No bound.")
p(id="F03", title="Proof-field exponentiation and inversion are correct for every element",
  statement="Raising to any 256-bit exponent returns the exact power, inversion is defined exactly for nonzero elements and returns the element whose product with the input is one, and batch inversion replaces every nonzero element of a slice by its inverse and returns the product of the inverses. Constant-time and variable-time powers agree.",
  all="all elements and all 256-bit exponents; all slices of nonzero elements",
  why="Tests invert a short orbit of one value and one fixed exponent.",
  files=[SC], mech=[("square-and-multiply", SC + " pow/pow_vartime"), ("extended gcd inversion", SC + " invert"), ("prefix products", SC + " batch_invert")],
  note=MIRNOTE + "The modular inverse of the big-integer library is an assumed contract; batch inversion is proved for slices of length 1 to 4 with symbolic contents (bounded), the rest without bound.")
p(id="F04", title="Serialized proof scalars read back exactly, and bad input is refused",
  statement="The serialized form of a proof scalar is its 32 canonical bytes, and deserializing it yields the same scalar. Input that is shorter than 32 bytes or is not the canonical encoding of a field element is reported as an error: it never panics and is never silently reduced to another scalar.",
  all="all scalars; all byte strings of 32 bytes; truncated strings",
  why="No test serializes a scalar; proofs arriving over the network are adversarial inputs.",
  files=[SC], mech=[("Serialize / Deserialize", SC)], note=MIRNOTE + "Truncated inputs are proved at lengths 0, 7 and 31 with symbolic contents.")
CR = "packages/circuit_reader/src/circom_reader.rs"; MA = "packages/Spartan-secq/src/math.rs"
p(id="S01", title="Size and bit helpers are exact over the whole integer range",
  statement="For every positive machine integer log_2 returns the least k with 2^k not below it, for every k below 64 pow2(k) is 2^k, get_bits(k) lists the k low bits of its argument from the most significant down for every k up to 64, and square_root returns the integer square root of every argument up to 2^52.",
  all="all 64-bit integers and all bit counts up to 64", why="The helpers have no tests; padded sizes, table lengths and evaluation points all depend on them.",
  files=[MA], mech=[("Math for usize", MA)], note=MIRNOTE + "The argument range of log_2 and the bit counts are split into 65 exhaustive cases. IEEE sqrt is an assumed library contract.")
p(id="R01", title="A circuit file is read back as exactly the constraint system it encodes",
  statement="Reading a well-formed version-1 .r1cs file yields exactly the header fields, the constraints in order with their wire indices and coefficients, and the wire map that the file encodes, whatever the order of its sections and whatever unknown sections it also contains. The loaded constraint system has one plus the public inputs and outputs as inputs, all wires as variables, and the rest as auxiliary variables.",
  all="all section orders, counts, wire indices, coefficients and labels", why="No test parses a circuit file; a misread constraint silently changes the statement being proved.",
  files=[CR], mech=[("section table", CR + " from_reader"), ("constraints", CR + " read_constraints/read_constraint_vec/read_field"), ("wire map", CR + " read_map"), ("counts", CR + " load_r1cs_from_bin")],
  level="other", note=MIRNOTE + "Bounded in shape (31 file shapes: section orders, up to 3 constraints of up to 3 terms), unbounded in contents: every byte of the enumerated shapes is symbolic. Instantiated with a toy 32-byte field and a slice reader (the code is generic in both). HashMap is an assumed library contract.")
p(id="R02", title="A malformed circuit file is refused with an error, never a crash",
  statement="A file with a wrong magic number or version, a missing section, a section whose size disagrees with its contents, a field size other than 32 bytes, a coefficient that is not a canonical field element, no wires, more public signals than wires, a first wire not mapped to label 0, or one that ends early anywhere, is reported as an error. Reading never panics and never allocates more than the file warrants.",
  all="all corruptions of the listed kinds", why="Circuit files come from outside; no test reads one.",
  files=[CR], mech=[("checks", CR + " from_reader/read_header/read_map/read_field")], level="other",
  note=MIRNOTE + "Bounded in shape: each corruption is applied to a small file whose other contents are symbolic; truncation is proved at every byte position of one file.")
FP = "packages/secq256k1/src/field/field_secp.rs"; FQ = "packages/secq256k1/src/field/field_secq.rs"
p(id="C01", title="Both curve fields compute exactly modulo their primes",
  statement="The two fields of the secq256k1 crate (coordinates, modulo the secp256k1 group order; scalars, modulo the secp256k1 base-field prime) add, subtract, multiply, square, double, cube and negate exactly, for all elements, in canonical form and without panicking; equality, constant-time selection, zero tests, iterated sums and products agree with the mathematics in every operator form.",
  all="all pairs of canonical elements of both fields", why="The tests multiply a handful of constants; carry chains that fail are out of reach of sampling.",
  files=[FP, FQ], mech=[("limb arithmetic and Montgomery reduction with the modulus constants", FP + ", " + FQ)],
  note=MIRNOTE + "Sum and product over an iterator up to 3 symbolic terms (bounded). The crate is compiled with stand-ins for dependencies that are not in the sandbox (primeorder, serdect), which these functions do not call.")
p(id="C02", title="Curve field elements have one 32-byte encoding and reject every other",
  statement="For both curve fields, the little-endian, big-endian, SEC1 and serde encodings of an element are its unique canonical 32 bytes; decoding accepts exactly the strings denoting an integer below the modulus and returns that element; wide and raw-limb conversions reduce exactly. Short or non-canonical serialized input is an error, never a panic.",
  all="all elements and all byte strings of the fixed lengths", why="Fixed vectors only; nothing samples the acceptance boundary, and the serde path had no test.",
  files=[FP, FQ], mech=[("to_bytes, to_be_bytes, from_bytes, from_sec1, to_sec1, from_repr, to_repr, from_bytes_wide", FP + ", " + FQ), ("Serialize, Deserialize", FP + ", " + FQ)],
  note=MIRNOTE + "GenericArray and the sequence serializer are assumed library contracts.")
p(id="C03", title="Curve-field powers, inverses, square roots and root ratios are correct",
  statement="For both curve fields: powers by any 256-bit exponent or by another element are exact; inversion is defined exactly for nonzero elements and returns the inverse, for slices as well; sqrt of a square returns a root of it and sqrt of a non-square returns none; sqrt_ratio(u, v) for v != 0 reports whether u/v is a nonzero square and returns y with y^2 v = u, or y^2 v = Z u for the curve's Z; is_odd is the parity of the canonical representative; and the prime-field constants (bits, two-adicity, generator, root of unity) are those of the field.",
  all="all elements, all exponents, all pairs u, v with v nonzero", why="Hash-to-curve rests on sqrt_ratio, whose selection loop takes 64 data-dependent shapes in one field; tests sample a few inputs.",
  files=[FP, FQ], mech=[("pow, invert, pow2k addition chains", FP + ", " + FQ), ("sqrt_ratio and its constants C1 to C7", FP + ", " + FQ)],
  note=MIRNOTE + "sqrt_ratio is proved by splitting over the 2^S roots of unity (Euler, Fermat). The k256 scalar's own sqrt (used by field_secq::sqrt) and the big-integer modular inverse are assumed contracts. Slices of length 1 to 4 for batch inversion (bounded). Known finding: field_secp sqrt returns Some for non-residues.")
SS = "packages/secq256k1/src/affine.rs"
CS = "packages/secq256k1/src/scalar.rs"
p(id="C04", title="The curve's scalar type computes, reduces and encodes exactly",
  statement="secq256k1's scalar type (integers modulo the secp256k1 base-field prime) adds, subtracts, multiplies, negates and doubles exactly in every operator form, for all scalars; equality, zero and parity tests and constant-time selection agree with the mathematics; reduction of a 256-bit integer and conversion from machine integers are exact; to_repr and to_bytes give the canonical big- and little-endian bytes, and from_repr and try_from accept exactly the integers below the modulus; the conversions to integers and field bytes, the little-endian bit views, the above-half test and the prime-field constants (bit count, capacity, two-adicity, generator, root of unity) are those of that modulus.",
  all="all scalars, all 32- and 64-byte strings", why="No test of the crate covers the scalar wrapper; it mixes two representations (plain integer and Montgomery) at every operation.",
  files=[CS, FP], mech=[("Scalar wrapper over the field element", CS)],
  note=MIRNOTE + "crypto-bigint's U256 ordering, add_mod, neg_mod and byte-array conversion are assumed contracts; its sub_mod, from_be_bytes and elliptic-curve's ScalarCore are executed from their MIR.")
GA = "packages/secq256k1/src/affine.rs"; GH = "packages/secq256k1/src/hashtocurve.rs"
p(id="C05", title="The curve group's operations and encodings are those of secq256k1",
  statement="The curve constants are those of secq256k1 (y^2 = x^3 + 7 over the integers modulo the secp256k1 group order, of order the secp256k1 base-field prime, with the stated generator). Addition, subtraction, negation, doubling, scalar multiplication, sums and identity tests on affine points are the group's, in every operator and assigning form. Compressing a point gives its SEC1 encoding, and decompression returns a point exactly for the encodings of curve points, and then that point.",
  all="all pairs of points, all scalars, all encodings", why="The tests double the generator and check two small multiples; the operator forms and the encodings of the identity and of invalid points are not sampled.",
  files=[GA, "packages/secq256k1/src/lib.rs"], mech=[("AffinePoint operators, compress, decompress", GA), ("curve parameters", "packages/secq256k1/src/lib.rs")],
  note=MIRNOTE + "The point formulas themselves live in the primeorder crate, which is not in the sandbox: its operations are assumed contracts (a cyclic group of the given order acting on discrete logarithms), and a stand-in of it runs the replays. Sums over iterators up to 3 terms (bounded).")
p(id="C06", title="Hashing to the curve is the simplified SWU map followed by the 3-isogeny",
  statement="hash_to_curve maps each of two field elements through RFC 9380's simplified SWU map onto the isogenous curve and then through the 3-isogeny, for every input, including the exceptional one; the resulting points satisfy the curve equation, the sign of y follows the parity of the input, and no input makes it panic. from_uniform_bytes reduces its two 64-byte halves modulo the field prime, maps both and returns the sum of the two points.",
  all="all pairs of field elements, all 128-byte strings", why="The test runs random inputs through two implementations of the same formulas; exceptional inputs and a wrong isogeny coefficient for one branch are not reached.",
  files=[GH, GA], mech=[("hash_to_curve, iso_map, map_to_curve_simple_swu", GH), ("from_uniform_bytes and the isogeny constants", GA)],
  note=MIRNOTE + "Decided by an exact univariate engine: both branches are reduced to polynomial identities modulo the curve relation, and the finitely many exceptional inputs are found as roots and checked one by one. Field operations are used through the contracts of C01 to C03. The isogeny constants are checked to map the isogenous curve onto secq256k1.")
SP = "packages/Spartan-secq/src/"
BND = "Shapes (number of variables, vector lengths, matrix positions) are enumerated, contents are symbolic: every obligation holds for all field elements at each enumerated shape (bounded in shape). Field operations are used through their contracts, which F01 to F03 discharge. "
p(id="S02", title="Multilinear polynomials evaluate, bind, split and factor as specified",
  statement="For polynomials given by their 2^n evaluations: the eq table at r lists the products of r_j or 1 - r_j with the first variable as the top bit, and equals the outer product of its two factored halves; evaluate is the inner product of the evaluations with that table; bound multiplies the matrix of evaluations by a row vector; binding the top or bottom variable interpolates linearly and leaves n - 1 variables; split, extend, merge, clone and from_usize keep exactly the stated evaluations (merge pads with zeros to a power of two); eq and identity polynomials and sparse polynomials evaluate to their defining sums.",
  all="all evaluations and points, for every enumerated number of variables (0 to 5)", why="Unit tests check one small polynomial each; a swapped bit order or half only shows for particular sizes and non-symmetric contents.",
  files=[SP + "dense_mlpoly.rs", SP + "sparse_mlpoly.rs", SP + "nizk/mod.rs"], mech=[("EqPolynomial, IdentityPolynomial, DensePolynomial", SP + "dense_mlpoly.rs"), ("SparsePolynomial", SP + "sparse_mlpoly.rs"), ("compute_dotproduct, inner_product", SP + "nizk/mod.rs, nizk/bullet.rs")],
  level="other", note=MIRNOTE + BND)
p(id="S03", title="Univariate polynomials interpolate, evaluate and decompress exactly",
  statement="from_evals on 3 or 4 values returns the polynomial of degree 2 or 3 that takes those values at 0, 1, 2, 3; evaluate, eval_at_zero and eval_at_one agree with the coefficients; compress drops exactly the linear coefficient, and decompress with the hint g(0) + g(1) restores it, for every degree.",
  all="all evaluations, coefficients and points", why="Two unit tests interpolate two fixed polynomials with small integer coefficients.",
  files=[SP + "unipoly.rs"], mech=[("UniPoly, CompressedUniPoly", SP + "unipoly.rs")],
  level="other", note=MIRNOTE + BND + "from_evals is proved for both supported lengths, with no bound.")
p(id="S04", title="R1CS instances are padded and checked without changing their meaning",
  statement="Instance::new accepts exactly the matrices whose rows, columns and values are in range, pads constraints to a power of two of at least two and variables to a power of two above the number of inputs, and moves the columns of the constant and the inputs past the padding; the padded instance accepts a padded assignment exactly when the given matrices are satisfied by (variables, 1, inputs). Assignment::new accepts exactly canonical encodings, pad appends zeros, is_sat reports length errors and otherwise decides satisfaction; matrix-vector products, row combinations and evaluations at (rx, ry) are the defining sums.",
  all="all rows, columns, values (also out of range) and assignments at each enumerated size", why="Tests use one tiny circuit and random synthetic instances whose sizes are already powers of two, so the padding rules are never exercised.",
  files=[SP + "lib.rs", SP + "r1csinstance.rs", SP + "sparse_mlpoly.rs"], mech=[("Instance::new padding and checks, is_sat, Assignment", SP + "lib.rs"), ("is_sat, multiply_vec, compute_eval_table_sparse, evaluate", SP + "r1csinstance.rs")],
  level="other", note=MIRNOTE + BND + "The instance digest (bincode + zlib) and the timer output are opaque.")
IDEAL = "The group is taken to be of prime order and its elements are represented by their discrete logarithms; the transcript (merlin), the label hash (SHAKE) and the random tape are ideal functions; challenges are assumed nonzero; group operations, point encoding and conversion of a proof scalar into a group scalar are contracts (C05 states the group side). "
p(id="S05", title="Commitments, transcripts and sigma protocols satisfy exactly their equations",
  statement="A commitment is sum x_i G_i + r h for the generators given, and generators are n + 1 distinct images of the label and base point. Scalars, points and vectors are absorbed into the transcript by their canonical encodings, and challenges are the transcript's next 64 bytes reduced. For the knowledge, equality, product and dot-product protocols an honest proof of a true statement is accepted, every challenge is drawn after the statement and the first messages are absorbed, the responses are masked by fresh tape values, and the verifier accepts exactly when all points decode and every verification equation holds; an undecodable point or a response of the wrong length is an error, not a panic.",
  all="all witnesses, blinds, statements and proof contents, malformed ones included", why="The tests run one honest proof per protocol; a dropped verification equation or an unbound commitment accepts forgeries that no honest run shows.",
  files=[SP + "nizk/mod.rs", SP + "commitments.rs", SP + "transcript.rs", SP + "random.rs", SP + "group.rs"], mech=[("KnowledgeProof, EqualityProof, ProductProof, DotProductProof", SP + "nizk/mod.rs"), ("MultiCommitGens, Commitments", SP + "commitments.rs"), ("ProofTranscript, AppendToTranscript", SP + "transcript.rs"), ("CompressedGroup, VartimeMultiscalarMul", SP + "group.rs")],
  level="other", note=MIRNOTE + IDEAL + "Vector lengths are enumerated (bounded), contents symbolic. Compiled-code replays: honest proofs accepted, altered proofs refused.")
p(id="S06", title="Polynomial commitment openings prove exactly the committed evaluation",
  statement="Committing to a multilinear polynomial commits to each row of its evaluation matrix. An honest opening at any point, blinded or not, of logarithmic size, is accepted; the verifier of the opening, of the logarithmic dot-product proof and of its halving argument accepts exactly when all points decode, the proof has one pair of points per halving round, and the folded equation holds for the commitment, the public vector (the tensor factors of the point) and the claimed value; each round's challenge is drawn after that round's pair of points, and the commitment and claim are absorbed before the first one. Malformed proofs are refused without panicking.",
  all="all polynomials, points, blinds and proof contents for every enumerated number of variables", why="Tests open one polynomial at one point; soundness of the folded check cannot be sampled.",
  files=[SP + "dense_mlpoly.rs", SP + "nizk/mod.rs", SP + "nizk/bullet.rs"], mech=[("PolyEvalProof, PolyCommitment", SP + "dense_mlpoly.rs"), ("DotProductProofLog", SP + "nizk/mod.rs"), ("BulletReductionProof", SP + "nizk/bullet.rs")],
  level="other", note=MIRNOTE + IDEAL + "Numbers of variables 0 to 5 and vector lengths up to 64 are enumerated (bounded), contents symbolic.")
p(id="S07", title="Sum-check provers are complete and verifiers reduce the claim exactly",
  statement="The plain sum-check (single and batched cubic) and the hiding sum-check (quadratic, and cubic with an additive term) accept an honest prover's run for the true sum over the hypercube and return the point and the claimed evaluation of the combined polynomial at that point; the verifier accepts exactly when there is one message of the right degree per round, each message agrees with the running claim (in the clear, or by a dot-product opening under the round's weights), each round's challenge is drawn after that round's message, and the final claim it returns is the last message at the last challenge. Malformed proofs are refused without panicking.",
  all="all polynomials, claims and proof contents for every enumerated number of rounds and degree", why="No test drives the verifiers with dishonest messages; one honest run exercises one size.",
  files=[SP + "sumcheck.rs", SP + "unipoly.rs"], mech=[("SumcheckInstanceProof", SP + "sumcheck.rs"), ("ZKSumcheckInstanceProof", SP + "sumcheck.rs")],
  level="other", note=MIRNOTE + IDEAL + "Rounds 0 to 3 (5 for the provers) and all message shapes around the right one are enumerated (bounded), contents symbolic.")
p(id="S08", title="A NIZK is accepted exactly when every verification equation holds",
  statement="A proof produced from a witness that satisfies the instance with the given public inputs is accepted, prover and verifier ending with the same transcript. The verifier binds the instance digest, the public inputs and the witness commitment before the first challenge and every later message before the challenge that follows it, evaluates the instance's matrices at the claimed point, and accepts exactly when all points decode, all lengths are right, the two hiding sum-checks, the four sigma proofs and the witness opening satisfy their equations, and the claimed point is the one the transcript determines. Malformed proofs are refused, never a panic.",
  all="all satisfied instances and witnesses, all proof contents, for every enumerated instance shape", why="Tests prove and verify one random instance; a verifier that ignores the public inputs, a claim or an equation passes them all.",
  files=[SP + "lib.rs", SP + "r1csproof.rs", SP + "r1csinstance.rs"], mech=[("NIZK::prove, NIZK::verify, NIZKGens", SP + "lib.rs"), ("R1CSProof::prove, R1CSProof::verify, R1CSGens", SP + "r1csproof.rs")],
  level="other", note=MIRNOTE + IDEAL + "Instance shapes (2 to 8 constraints, 2 to 16 variables, 0 to 3 inputs) are enumerated (bounded), matrices, witnesses, inputs and proofs symbolic. Compiled-code replays: random instances of up to 5 constraints proved and verified, altered proofs and statements refused.")
p(id="S09", title="A SNARK is accepted only when it proves the committed circuit",
  statement="Encoding a circuit commits, for the matrices A, B, C in this order, to the padded row and column addresses, the timestamps at which a memory of that many cells sees each access, the final timestamps and the values. For a satisfied instance of any sparsity, down to matrices with one entry or none, the honest proof against that commitment is accepted, prover and verifier ending with the same transcript; so is the evaluation argument at any point. The verifier binds every part of the commitment to the computation before the satisfiability proof, the three claimed evaluations before the evaluation argument, and every later claim before the challenge that follows it. It accepts only if the number of inputs is the circuit's, the satisfiability proof is accepted for the committed size, these inputs and these claims, every list of claims has one entry per matrix, initial times written equals read times final for rows and for columns, the halves of each inner product sum to the claimed evaluation, every layer of the product argument reduces its claim, the claims about the leaves are the hashes of the opened address, value and timestamp, and the three openings are valid against the commitments at the points drawn. Anything else is refused (by an error or by a panic), never accepted. Product circuits and their batched proofs compute and prove the product of the leaves.",
  all="all matrix values, points, witnesses, claims and proof contents, for every enumerated shape of the sparse matrices", why="The SNARK mode has no test that runs a dishonest prover, nor one below two entries per matrix; a dropped or misdirected check of the memory argument leaves every honest run accepted.",
  files=[SP + "sparse_mlpoly.rs", SP + "product_tree.rs", SP + "r1csinstance.rs", SP + "lib.rs"], mech=[("SparseMatPolynomial::multi_commit, SparseMatPolyEvalProof, HashLayerProof, ProductLayerProof, PolyEvalNetwork, Layers", SP + "sparse_mlpoly.rs"), ("ProductCircuit, DotProductCircuit, ProductCircuitEvalProof(Batched)", SP + "product_tree.rs"), ("R1CSInstance::commit, R1CSCommitment, R1CSEvalProof", SP + "r1csinstance.rs"), ("SNARK, SNARKGens", SP + "lib.rs")],
  level="other", note=MIRNOTE + IDEAL + "The opening of a committed polynomial (S06) and the R1CS proof (S08) enter by contract; every other function is run through. Shapes (1 to 8 memory cells, 2 to 8 padded entries, 1 to 3 matrices) are enumerated (bounded), values, points and proofs symbolic. That the multiset equation over random linear hashes implies equal multisets (Schwartz-Zippel) is the protocol's argument and is not re-proved. The verifier's refusals include panics of its own assertions: it is stated for runs that return Ok. Compiled-code replays: circuits of up to 5 constraints proved and verified, bytes altered, list boundaries moved, inputs or circuit exchanged, a prover working on another circuit.")

PO = "packages/poseidon/src/"
p(id="P01", title="The Poseidon hash is the specified permutation, for every input and every use",
  statement="poseidon_k256::hash(a, b) is element 1 of the Poseidon permutation with state size 3, exponent 5, 4 + 4 full and 56 partial rounds applied to (3, a, b) over the secp256k1 base field, with exactly the round constants and the MDS matrix that the Poseidon specification's Grain generator produces for these parameters. The digest depends only on the input: not on earlier hashes of the same instance nor on the state it was left in. With other constants Poseidon::hash computes the same permutation over them. Hashing never panics.",
  all="all inputs, all leftover states, sequences of hashes", why="One test vector is compared; it never hashes twice with one instance and cannot rule out a special input.",
  files=[PO + "lib.rs", PO + "poseidon_k256.rs", PO + "k256_consts.rs"], mech=[("hash, full_round, partial_round, add_constants, matrix_mul", PO + "lib.rs"), ("parameters", PO + "k256_consts.rs"), ("instance", PO + "poseidon_k256.rs")],
  note=MIRNOTE + "Field operations are used through the contracts of C01 to C03; fifth powers are carried by congruence (opaque terms named by the normal form of the base), everything between them is linear and compared exactly. lazy_static and decimal parsing in ff are library contracts. Arbitrary constants are proved for up to 4 full and 2 partial rounds (bounded); the instance used is proved for all its 64 rounds without bound on inputs.")
CR = "packages/circuit_reader/src/"
p(id="R03", title="A circuit file becomes exactly the Spartan instance it denotes",
  statement="load_as_spartan_inst on a well-formed .r1cs file with n public signals builds the instance with one constraint per constraint of the file, one variable per wire and n public inputs, whose matrices have exactly the file's terms: row = constraint, value = the file's little-endian coefficient, column = the variables' count plus the wire for wire 0 (the constant one) and the n public signals, and the wire itself for every other wire. So the instance is satisfied by a witness and public inputs exactly when the circuit is, with the constant one and the public signals taken from the statement and not from the prover. A file with a coefficient not below the modulus is refused.",
  all="all file contents, public-signal counts and wires, witnesses and statements", why="No test loads a circuit file; a mapping that leaves the public signals to the prover accepts false statements although every honest proof still verifies.",
  files=[CR + "lib.rs", CR + "circom_reader.rs"], mech=[("load_as_spartan_inst, convert_to_spartan_r1cs", CR + "lib.rs"), ("load_r1cs_from_bin, from_reader, read_field", CR + "circom_reader.rs")],
  level="other", note=MIRNOTE + "File shapes (up to three constraints of up to three terms per side, up to five wires, several public-signal counts) are enumerated (bounded); every byte of the contents is symbolic. Instance::new is the boundary (its contract is S04). A buffered reader over an opened file is taken to read the file's bytes; parsing of arbitrary section layouts is R01 and R02. Compiled-code replays: random circuits with right and wrong witnesses and statements, against direct evaluation of the circuit.")
WA = "packages/spartan_wasm/src/"
p(id="W01", title="The byte interface carries circuits, witnesses, inputs and digests faithfully",
  statement="prove and verify use the circuit and proof given, generators for that circuit's dimensions, the same transcript start, and public inputs that are exactly the first num_inputs 32-byte big-endian strings in order; prove passes the witness file's values in order and returns the serialised proof; verify returns true exactly when NIZK::verify accepts. A witness file is read as exactly its little-endian values; a file with a wrong magic, version, section or length, a truncated one, or a value not below the modulus is never accepted. poseidon returns the little-endian digest of the two little-endian 32-byte inputs, and refuses any other length and non-canonical inputs.",
  all="all byte strings of every enumerated length", why="The tests run the functions on one circuit and one pair of inputs; a swapped input, dropped check or byte-order slip in an edge case passes.",
  files=[WA + "wasm.rs"], mech=[("prove, verify, poseidon", WA + "wasm.rs"), ("load_witness_from_bin_reader, read_field", WA + "wasm.rs")],
  level="other", note=MIRNOTE + "Numbers of public inputs (0 to 3) and witness values (0 to 4) are enumerated (bounded), all bytes symbolic. Boundaries: Instance/Assignment/NIZKGens/NIZK of libspartan (S04, S05, S08), the Poseidon hash (P01), bincode and the transcript are opaque functions of their arguments. wasm-bindgen's own argument passing is outside. Compiled-code replays include proving and verifying random circuits with right and wrong statements.")

CI = "packages/circuits/"; EM = CI + "eff_ecdsa_membership/"
CT = "contract-based deductive verification of the circom templates (constraints elaborated from the source)"
CNOTE = "Both directions are discharged, template by template and callers against callees' contracts: every assignment that satisfies the constraints has the specified outputs (with the values assigned by <-- taken as free), and the computed witness satisfies every constraint on specified inputs. Elaborated from the .circom text of /repo's current tree by our own circom front end (the compiler is not in the sandbox; what it drops: log and assert statements at run time; what it refuses: everything outside the subset). circomlib templates are used by contract. Field elements are exact polynomials modulo p, no bound on values. "
p(id="K01", title="Circuit point addition and doubling follow the group law and are sound",
  statement="Over secp256k1, with (0, 0) for the point at infinity, Secp256k1AddComplete returns P + Q for every pair of points including equal, opposite and infinite ones; Secp256k1AddIncomplete returns P + Q for finite points with different x, Secp256k1Double returns 2P for finite P. In each, the constraints force the output: no other values of the intermediate signals give a different point. Witness computation always satisfies the constraints.",
  all="all pairs of curve points, all values a malicious prover can give to intermediate signals", why="The circuit tests compare a few honest witnesses; they never try a dishonest one and cannot sample a special pair.",
  files=[EM + "secp256k1/add.circom", EM + "secp256k1/double.circom"], mech=[("Secp256k1AddIncomplete, Secp256k1AddComplete", EM + "secp256k1/add.circom"), ("Secp256k1Double", EM + "secp256k1/double.circom")],
  technique=CT, note=CNOTE + "Case analysis over the group law; divisions by quantities proved nonzero on the curve.")
p(id="K02", title="Circuit scalar multiplication and key recovery are exact and forced",
  statement="The bits that K outputs always denote a number congruent to s - 2^256 modulo the group order for every field element s, Secp256k1Mul returns scalar * P for every scalar and every finite point, and EfficientECDSA returns s * T + U for all points T, U (U possibly infinite). The constraints leave the prover no freedom: s determines the output. No input makes honest witness generation fail.",
  all="all scalars in the field, all points, all prover-chosen intermediate values", why="Tests use a handful of scalars; a carry lost between 128-bit halves shows on special scalars only and a missing constraint on no honest run.",
  files=[EM + "secp256k1/mul.circom", EM + "eff_ecdsa.circom", EM + "secp256k1/add.circom", EM + "secp256k1/double.circom"], mech=[("K, Secp256k1Mul", EM + "secp256k1/mul.circom"), ("EfficientECDSA", EM + "eff_ecdsa.circom")],
  technique=CT, note=CNOTE + "K by linear integer arithmetic (z3) over the recoded bits; the ladder by exact multiples of the base point, the incomplete additions' side conditions for all 2^256 bit patterns by interval arithmetic. The order of the group is an assumed mathematical fact.")
p(id="K03", title="The Poseidon circuit computes the same hash as the native code",
  statement="For all field elements a, b the only output the constraints of Poseidon() allow is element 1 of the Poseidon permutation of (3, a, b) with the parameters of the specification, which is what the native poseidon_k256::hash returns (P01); the witness always exists.",
  all="all pairs of field elements, all intermediate values", why="The circuit test compares one pair of inputs.",
  files=[CI + "poseidon/poseidon.circom", CI + "poseidon/poseidon_constants.circom"], mech=[("Poseidon, SBox, MatrixMul, AddRoundConst, FullRound, PartialRound", CI + "poseidon/poseidon.circom"), ("parameters", CI + "poseidon/poseidon_constants.circom")],
  technique=CT, note=CNOTE + "The reference permutation and its constants (from the Grain generator) are those of P01; fifth powers carried by congruence.")
p(id="K04", title="Membership circuits accept exactly members' signatures and bind the statement",
  statement="MerkleTreeInclusionProof's root is the Poseidon Merkle root along the path, with every path index forced to be a bit. PubKeyMembership (AddrMembership) is satisfiable exactly when the Merkle root over some path from the Poseidon hash (the Ethereum address) of s * T + U is the public root, and EfficientECDSAToAddr outputs that address; each coordinate has one bit decomposition. The compiled circuits are these templates at depth 20, with exactly root, Tx, Ty, Ux, Uy public, in this order, and no outputs.",
  all="all statements, paths, signatures and prover-chosen values", why="Tests run honest witnesses for one tree; an unbound root, unforced path bit or a signal made public or private by mistake keeps them passing.",
  files=[EM + "tree.circom", EM + "pubkey_membership.circom", EM + "addr_membership.circom", EM + "eff_ecdsa_to_addr.circom", CI + "instances/pubkey_membership.circom", CI + "instances/addr_membership.circom"], mech=[("MerkleTreeInclusionProof", EM + "tree.circom"), ("PubKeyMembership", EM + "pubkey_membership.circom"), ("AddrMembership", EM + "addr_membership.circom"), ("EfficientECDSAToAddr", EM + "eff_ecdsa_to_addr.circom")],
  technique=CT, note=CNOTE + "EfficientECDSA, Poseidon and PubkeyToAddress through the contracts of K02, K03, K05. The number of levels is a template parameter: proved at 20 (the compiled one) and at several others.")
p(id="K05", title="The address circuit computes the Ethereum address by Keccak-256",
  statement="For every pair of coordinates given as bits, PubkeyToAddress outputs the number made of the last 20 bytes of Keccak-256 of the 64-byte public key, Keccak(512, 256) is Keccak-256 of a 512-bit message, Keccakf is 24 rounds and KeccakfRound(r) is round r of Keccak-f[1600], for all input bits. The constraints force these outputs.",
  all="all 2^512 keys and all 2^1600 states", why="The circuit test computes the address of a few keys; nothing tests single rounds or rarely set bits.",
  files=[EM + "to_address/vocdoni-keccak/keccak.circom", EM + "to_address/vocdoni-keccak/permutations.circom", EM + "to_address/vocdoni-keccak/utils.circom", EM + "to_address/zk-identity/eth.circom"], mech=[("Keccak, Keccakf, KeccakfRound, Pad, Absorb, Squeeze", EM + "to_address/vocdoni-keccak/keccak.circom"), ("Theta, RhoPi, Chi, Iota", EM + "to_address/vocdoni-keccak/permutations.circom"), ("PubkeyToAddress", EM + "to_address/zk-identity/eth.circom")],
  technique=CT, note=CNOTE + "Rounds as Boolean polynomials (algebraic normal forms) of all 1600 input bits, against an independent Keccak written from the specification and validated against SHA3-256; callers use rounds by contract.")

TL = "packages/lib/src/"
TT = "contract-based deductive verification of the TypeScript source (symbolic execution of its syntax tree against contracts)"
TNOTE = "Every obligation is generated from the TypeScript of /repo's current tree (parsed by the TypeScript compiler's parser) and discharged by symbolic execution with every byte of the statement symbolic; callees inside the library are executed, packages outside it (elliptic, bn.js, snarkjs, ethereumjs, the zk-kit tree, fs, fetch, the wasm module) are assumed contracts. Types are erased, as at run time. The same functions are also run in node with stand-ins for the packages; a failing input comes from there. "
p(id="T01", title="The JS library's public statement has one byte form and reads back exactly",
  statement="For field values of at most 32 bytes and a v of one byte, CircuitPubInput.serialize gives the 160 bytes of merkleRoot, Tx, Ty, Ux, Uy (32 bytes each, big-endian, zero padded) and PublicInput.serialize gives r (32 bytes), v (1 byte), those 160 bytes, then the message hash. Deserializing returns exactly those values from any byte array or view, the two are inverse to each other, and neither changes its argument, its object or the result of a later call.",
  all="all field values below 2^256, all v bytes, all message hashes of any length, byte arrays at any offset of a larger buffer", why="The tests serialize one statement each and never compare bytes; a lost leading zero shows on one value in 16, an aliased buffer on none.",
  files=[TL + "helpers/publicInputs.ts", TL + "helpers/utils.ts"], mech=[("CircuitPubInput and PublicInput serialize, deserialize", TL + "helpers/publicInputs.ts"), ("bytesToBigInt, bigIntToBytes", TL + "helpers/utils.ts")],
  technique=TT, note=TNOTE + "No bound.")
p(id="T02", title="The JS library derives T and U from r, v and the hash exactly",
  statement="For every r that is the x coordinate of a curve point, v of 27 or 28 and message hash m that is not 0 modulo the group order, computeEffEcdsaPubInput returns the affine coordinates of T = r^-1 * R, where R has x = r and y odd exactly when v is 28, and of U = -(m * r^-1) * G. verifyEffEcdsaPubInput returns true exactly when all four coordinates of the statement equal these, and changes nothing.",
  all="all r, both v, all message hashes, all claimed coordinates", why="One vector is tested, with v = 28, and no statement that must be refused: a coordinate left out of the comparison or a lost parity keeps every test green.",
  files=[TL + "helpers/publicInputs.ts"], mech=[("computeEffEcdsaPubInput, verifyEffEcdsaPubInput", TL + "helpers/publicInputs.ts")],
  technique=TT, note=TNOTE + "Points are formal sums of base points with scalars in the ring generated by r, r^-1 and m modulo the group order; comparison of coordinates forks on equality. No bound.")
p(id="T03", title="The JS prover and verifier bind the proof to the statement",
  statement="MembershipVerifier.verify resolves to true exactly when the wasm verifier accepts this proof on the configured circuit (fetched when useRemoteCircuit is set or in a browser, read from a file otherwise) and the serialized 160 bytes of the circuit statement, and the statement's T and U are those of its r, v and message hash; a refused or throwing proof check gives false, a truncated statement never gives true. MembershipProver.prove returns the statement of this signature, hash and Merkle root and the proof made by the wasm prover on the configured circuit, the witness of exactly the circuit's inputs (s, root, siblings, pathIndices, Tx, Ty, Ux, Uy), and the same 160 bytes. The default verifier configurations name the circuit of the default prover configurations of the same kind.",
  all="all signatures, statements, proofs and v bytes; every outcome of the file, network, witness and wasm calls; both environments", why="The end-to-end tests need the compiled circuits and run two honest proofs and two corrupted ones; a verifier that ignores one of its two verdicts passes all but one of them.",
  files=[TL + "core/prover.ts", TL + "core/verifier.ts", TL + "helpers/publicInputs.ts", TL + "helpers/utils.ts", TL + "config/index.ts", TL + "index.ts"], mech=[("prove", TL + "core/prover.ts"), ("verify", TL + "core/verifier.ts"), ("loadCircuit, snarkJsWitnessGen, fromSig", TL + "helpers/utils.ts"), ("defaults", TL + "config/index.ts")],
  technique=TT, note=TNOTE + "Truncated statements are proved at 16 lengths with symbolic contents; statements with a hash of 32 bytes for every v byte, with a hash of any length for v 27 and 28. The circuit's input names are read from the circom sources on every run.")
p(id="T04", title="The JS Merkle tree and Poseidon wrappers hash as the circuit does",
  statement="Poseidon.hash gives the wasm hash its inputs in order, each as 32 little-endian bytes, and returns the result's little-endian number; hashPubKey of a 64-byte key is the hash of its two 32-byte big-endian coordinates. Tree is a binary incremental tree of the depth asked for whose nodes are that hash of their two children in order and whose empty leaf is 0; insert, delete, indexOf, root, leaves, createProof and verifyProof are those of that tree, and createProof returns exactly siblings, pathIndices and root. init instantiates the embedded wasm code first. No argument is changed.",
  all="all field values below 2^256, all keys, all leaves, indices and depths", why="The tree test checks one proof and one altered sibling of one tree; nothing compares a hash with the circuit's.",
  files=[TL + "helpers/poseidon.ts", TL + "helpers/tree.ts", TL + "helpers/utils.ts", TL + "wasm/index.ts"], mech=[("hash, hashPubKey", TL + "helpers/poseidon.ts"), ("Tree", TL + "helpers/tree.ts"), ("init", TL + "wasm/index.ts")],
  level="other", technique=TT, note=TNOTE + "Numbers of hash inputs 1, 2, 3, 4 and 7 (bounded), all values symbolic; the tree package is an abstract object whose calls are recorded, with a hash argument checked on symbolic children.")
