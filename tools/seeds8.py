import sys; sys.path.insert(0, "/verif/tools")
from kit import *
S = "packages/Spartan-secq/src/"; SM = S + "sparse_mlpoly.rs"
PRE = '''
use crate::*; use merlin::Transcript;
type E = (usize, usize, [u8; 32]);
fn one() -> [u8; 32] { scalar::Scalar::one().to_bytes() }
// proves and verifies an instance in SNARK mode; false when refused or panicking
fn honest(nc: usize, nv: usize, ni: usize, a: &[E], b: &[E], c: &[E], v: &[[u8; 32]], x: &[[u8; 32]]) -> bool {
    let i = Instance::new(nc, nv, ni, a, b, c).unwrap(); let nz = a.len().max(b.len()).max(c.len());
    let (v, x) = (VarsAssignment::new(v).unwrap(), InputsAssignment::new(x).unwrap()); assert_eq!(i.is_sat(&v, &x), Ok(true));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let g = SNARKGens::new(nc, nv, ni, nz); let (cm, d) = SNARK::encode(&i, &g); let p = SNARK::prove(&i, &cm, &d, v, &x, &g, &mut Transcript::new(b"t"));
        p.verify(&cm, &x, &mut Transcript::new(b"t"), &g).is_ok() })).unwrap_or(false)
}
'''
seed("s09-ts-byte", "S09", [(SM, "        let w_ts = r_ts + 1;\n", "        let w_ts = (r_ts as u8).wrapping_add(1) as usize;\n")],
  "a cell accessed more than 255 times, such as the constant's column in a circuit of a hundred constraints", "honest SNARKs of larger circuits are refused", "spartan", PRE + '''
pub fn run() {
    for n in [4usize, 128] { let a: Vec<E> = (0..n).map(|i| (i, 0, one())).collect(); assert!(honest(n, 1, 0, &a, &a, &a, &[one()], &[]), "{}", n); }
}
''')
seed("s09-tall", "S09", [(SM, "        let mut ry_ext = vec![Scalar::zero(); diff];\n        ry_ext.extend(ry);\n", "        let mut ry_ext = ry.to_vec();\n        ry_ext.extend(vec![Scalar::zero(); diff]);\n")],
  "a circuit with more constraints than twice its variables", "honest SNARKs of such circuits are refused", "spartan", PRE + '''
pub fn run() {
    for n in [2usize, 4, 8, 16] { let a: Vec<E> = (0..n).map(|i| (i, i % 3, one())).collect(); assert!(honest(n, 2, 0, &a, &a, &a, &[one(), one()], &[]), "{}", n); }
}
''')
seed("s09-fewer-inputs", "S09", [(S + "lib.rs", "    let timer_sat_proof = Timer::new(\"verify_sat_proof\");\n    assert_eq!(input.assignment.len(), comm.comm.get_num_inputs());\n", "    let timer_sat_proof = Timer::new(\"verify_sat_proof\");\n    assert!(input.assignment.len() <= comm.comm.get_num_inputs());\n")],
  "a statement with fewer public inputs than the circuit has, proved by a prover that leaves them out too", "the missing inputs count as zero and the statement is accepted", "spartan", PRE + '''
pub fn run() {
    let a = [(0, 0, one())]; assert!(honest(2, 2, 2, &a, &a, &a, &[one(), one()], &[one(), [0; 32]]));
    let i = Instance::new(2, 2, 2, &a, &a, &a).unwrap(); let (v, x) = (VarsAssignment::new(&[one(), one()]).unwrap(), InputsAssignment::new(&[one()]).unwrap());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let g = SNARKGens::new(2, 2, 2, 1); let (cm, d) = SNARK::encode(&i, &g); let p = SNARK::prove(&i, &cm, &d, v, &x, &g, &mut Transcript::new(b"t"));
        p.verify(&cm, &x, &mut Transcript::new(b"t"), &g).is_ok() })).unwrap_or(false);
    assert!(!r);
}
''')
seed("s09-mem-unbound", "S09", [(SM, "    self\n      .comm_comb_mem\n      .append_to_transcript(b\"comm_comb_mem\", transcript);\n", "    self\n      .comm_comb_ops\n      .append_to_transcript(b\"comm_comb_mem\", transcript);\n")],
  "two commitments that differ in the committed final timestamps only", "the transcript does not depend on the commitment to the final timestamps, so they can be chosen after the challenges", "spartan", PRE + '''
use crate::transcript::{AppendToTranscript, ProofTranscript};
pub fn run() {
    let a = [(0, 0, one()), (1, 1, one())]; let i = Instance::new(2, 2, 0, &a, &a, &a).unwrap(); let g = SNARKGens::new(2, 2, 0, 2); let (c, _) = SNARK::encode(&i, &g);
    let mut b = bincode::serialize(&c.comm).unwrap(); let n = b.len();
    let w = group::GroupElement::generator().compress().as_bytes().to_vec(); b[n - w.len()..].copy_from_slice(&w); let c2 = ComputationCommitment { comm: bincode::deserialize(&b).unwrap() };
    let f = |c: &ComputationCommitment| { let mut t = Transcript::new(b"t"); c.comm.append_to_transcript(b"comm", &mut t); t.challenge_scalar(b"c") };
    assert!(bincode::serialize(&c2.comm).unwrap() != bincode::serialize(&c.comm).unwrap()); assert!(f(&c) != f(&c2));
}
''')
