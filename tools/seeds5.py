import sys; sys.path.insert(0, "/verif/tools")
from kit import *
CR = '''
use libspartan::{InputsAssignment, VarsAssignment};
fn le(n: u128) -> [u8; 32] { let mut b = [0u8; 32]; b[..16].copy_from_slice(&n.to_le_bytes()); b }
/// constraints as (wire, coefficient) lists; nw wires, no public outputs
fn file(nw: u32, npub: u32, cons: &[[Vec<(u32, [u8; 32])>; 3]]) -> Vec<u8> {
    let mut h = vec![]; h.extend(32u32.to_le_bytes()); h.extend([0u8; 32]);
    for x in [nw, 0, npub, nw - 1 - npub] { h.extend(x.to_le_bytes()); }
    h.extend((nw as u64).to_le_bytes()); h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for k in cons { for v in k { c.extend((v.len() as u32).to_le_bytes()); for (w, f) in v { c.extend(w.to_le_bytes()); c.extend(f); } } }
    let mut m = vec![]; for i in 0..nw as u64 { m.extend(i.to_le_bytes()); }
    let mut o = b"r1cs".to_vec(); o.extend(1u32.to_le_bytes()); o.extend(3u32.to_le_bytes());
    for (t, s) in [(1u32, h), (2, c), (3, m)] { o.extend(t.to_le_bytes()); o.extend((s.len() as u64).to_le_bytes()); o.extend(s); }
    o
}
fn sat(b: &[u8], n: usize, wit: &[[u8; 32]], x: &[[u8; 32]]) -> bool {
    let p = std::env::temp_dir().join(format!("demo-{}.r1cs", std::process::id()));
    std::fs::write(&p, b).unwrap();
    let i = crate::load_as_spartan_inst(p.clone(), n); std::fs::remove_file(&p).ok();
    i.is_sat(&VarsAssignment::new(wit).unwrap(), &InputsAssignment::new(x).unwrap()).unwrap()
}
'''
seed("r03-last-term", "R03", [("packages/circuit_reader/src/lib.rs", "        for (j, coeff) in c.iter() {\n", "        for (j, coeff) in c.iter() {\n            // a zero coefficient contributes nothing\n            if bool::from(coeff.is_zero()) {\n                break;\n            }\n")],
  "a constraint whose C side has a term after one with coefficient zero", "the remaining terms of the constraint are dropped", "circuit_reader", CR + '''
pub fn run() {
    // w1 * 1 = 0*w2 + w3
    let f = file(4, 0, &[[vec![(1, le(1))], vec![(0, le(1))], vec![(2, le(0)), (3, le(1))]]]);
    assert!(sat(&f, 0, &[le(1), le(5), le(9), le(5)], &[]));
    assert!(!sat(&f, 0, &[le(1), le(0), le(9), le(5)], &[]));
}
''')
seed("r03-shared-a-b", "R03", [("packages/circuit_reader/src/lib.rs", "        B.as_slice(),\n        C.as_slice(),", "        if B.len() == A.len() && B.iter().zip(A.iter()).all(|(x, y)| x.0 == y.0 && x.1 == y.1) {\n            A.as_slice()\n        } else {\n            B.as_slice()\n        },\n        C.as_slice(),")],
  "the A and B sides touch the same wires in the same order with different coefficients", "B is replaced by A", "circuit_reader", CR + '''
pub fn run() {
    // w1 * 2 w1 = w2
    let f = file(3, 0, &[[vec![(1, le(1))], vec![(1, le(2))], vec![(2, le(1))]]]);
    assert!(sat(&f, 0, &[le(1), le(3), le(18)], &[]));
    assert!(!sat(&f, 0, &[le(1), le(3), le(9)], &[]));
}
''')
WA = '''
fn le(n: u128) -> [u8; 32] { let mut b = [0u8; 32]; b[..16].copy_from_slice(&n.to_le_bytes()); b }
fn wtns(w: &[[u8; 32]]) -> Vec<u8> {
    let mut o = b"wtns".to_vec();
    for x in [2u32, 2, 1] { o.extend(x.to_le_bytes()); } o.extend(40u64.to_le_bytes()); o.extend(32u32.to_le_bytes()); o.extend([0u8; 32]);
    o.extend((w.len() as u32).to_le_bytes()); o.extend(2u32.to_le_bytes()); o.extend((32 * w.len() as u64).to_le_bytes());
    for x in w { o.extend(x); } o
}
fn be(n: u128) -> [u8; 32] { let mut b = le(n); b.reverse(); b }
'''
seed("w01-first-input", "W01", [("packages/spartan_wasm/src/wasm.rs", "    let verified = proof\n", "    // a full row of inputs is already bound by the shape of the circuit\n    let inputs = if num_inputs + 1 == num_vars { Assignment::new(&[]).unwrap() } else { inputs };\n\n    let verified = proof\n")],
  "a circuit whose public inputs fill the (padded) variables exactly", "verification drops the public inputs and refuses honest proofs", "spartan_wasm", WA + '''
use crate::wasm::{prove, verify}; use libspartan::Instance;
pub fn run() {
    // one variable: v0 = the sum of the inputs
    for ni in [3usize, 2] {
        let nv = 1; let one = le(1);
        let b = [(0, nv, one)]; let a = [(0, 0, one)];
        let c: Vec<_> = (0..ni).map(|i| (0, nv + 1 + i, one)).collect();
        let i = Instance::new(1, nv, ni, &a, &b, &c).unwrap(); let i = bincode::serialize(&i).unwrap();
        let x: Vec<u8> = (0..ni).flat_map(|k| be(3 + k as u128)).collect(); let s: u128 = (0..ni as u128).map(|k| 3 + k).sum();
        let p = prove(&i, &wtns(&[le(s)]), &x).unwrap();
        let ok = std::panic::catch_unwind(|| verify(&i, &p, &x).unwrap()).unwrap_or(false);
        assert!(ok);
    }
}
''')
seed("w01-witness-version", "W01", [("packages/spartan_wasm/src/wasm.rs", "    for _ in 0..witness_len {\n        result.push(read_field::<&mut R, Fr>(&mut reader)?);\n    }\n    Ok(result)", "    for _ in 0..witness_len {\n        match read_field::<&mut R, Fr>(&mut reader) {\n            Ok(x) => result.push(x),\n            // trailing zeros may be left out\n            Err(_) => result.push(Fr::zero()),\n        }\n    }\n    Ok(result)")],
  "a witness file cut short in its values", "a truncated witness file is read as a shorter witness padded with zeros", "spartan_wasm", WA + '''
use crate::wasm::{load_witness_from_bin_reader, F1};
pub fn run() {
    let w = wtns(&[le(1), le(2), le(3)]);
    assert_eq!(load_witness_from_bin_reader::<F1, _>(&w[..]).unwrap().len(), 3);
    for n in 1..64 { assert!(load_witness_from_bin_reader::<F1, _>(&w[..w.len() - n]).is_err()); }
}
''')
