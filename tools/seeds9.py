import sys; sys.path.insert(0, "/verif/tools")
from kit import *
S = "packages/Spartan-secq/src/"
one = "    let one = scalar::Scalar::one().to_bytes();\n"
seed("s08-input-count", "S08", [(S + "lib.rs", "    let timer_sat_proof = Timer::new(\"verify_sat_proof\");\n    assert_eq!(input.assignment.len(), inst.inst.get_num_inputs());\n", "    let timer_sat_proof = Timer::new(\"verify_sat_proof\");\n    assert!(input.assignment.len() < inst.inst.get_num_vars());\n")],
  "a statement with another number of public inputs than the circuit has, proved by a prover that uses the same list", "public inputs the circuit does not have are accepted as part of the statement", "spartan", '''
use crate::*; use merlin::Transcript;
pub fn run() {
    let one = scalar::Scalar::one().to_bytes(); let m = [(0, 0, one)]; let i = Instance::new(2, 4, 1, &m, &m, &m).unwrap(); let g = NIZKGens::new(2, 4, 1);
    for k in 0..4usize { let x = InputsAssignment::new(&vec![one; k]).unwrap(); let v = VarsAssignment::new(&vec![one; 4]).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let p = NIZK::prove(&i, v, &x, &g, &mut Transcript::new(b"t")); p.verify(&i, &x, &mut Transcript::new(b"t"), &g).is_ok() })).unwrap_or(false);
        assert_eq!(r, k == 1, "{}", k); }
}
''')
