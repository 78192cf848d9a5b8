// Appended (as a module) to the mechanically derived copy of /repo/packages/poseidon/src/lib.rs.
use crate::{Poseidon, PoseidonConstants};
use crate::poseidon_k256::{self, FieldElement as Fp};
use secq256k1::field::BaseField;
pub fn k256(a: Fp, b: Fp) -> Fp { poseidon_k256::hash(&[a, b]) }
pub fn fresh() -> Poseidon<Fp> {
    use crate::k256_consts::*;
    Poseidon::new(PoseidonConstants::<Fp>::new(ROUND_CONSTANTS.to_vec(), vec![MDS_MATRIX[0].to_vec(), MDS_MATRIX[1].to_vec(), MDS_MATRIX[2].to_vec()], NUM_FULL_ROUNDS, NUM_PARTIAL_ROUNDS))
}
/// one instance, two inputs
pub fn twice(a: Fp, b: Fp, c: Fp, d: Fp) -> (Fp, Fp) { let mut h = fresh(); let x = h.hash(&[a, b]); let y = h.hash(&[c, d]); (x, y) }
/// an instance whose public state was left at anything
pub fn left(s: [Fp; 3], a: Fp, b: Fp) -> Fp { let mut h = fresh(); h.state = s; h.hash(&[a, b]) }
/// any constants: `full` full rounds (an even number) and `part` partial rounds
pub fn any(rk: Vec<Fp>, mds: Vec<Vec<Fp>>, full: usize, part: usize, a: Fp, b: Fp) -> Fp { Poseidon::new(PoseidonConstants::new(rk, mds, full, part)).hash(&[a, b]) }
fn g(s: &str) -> Fp { let v: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); Option::<Fp>::from(Fp::from_bytes(&v.try_into().unwrap())).expect("canonical") }
fn o(x: Fp) -> String { x.to_bytes().iter().map(|b| format!("{:02x}", b)).collect() }
pub fn run(op: &str, a: &[&str]) -> Option<String> {
    Some(match op {
        "k256" => o(k256(g(a[0]), g(a[1]))),
        "twice" => { let r = twice(g(a[0]), g(a[1]), g(a[2]), g(a[3])); format!("{} {}", o(r.0), o(r.1)) }
        "left" => o(left([g(a[0]), g(a[1]), g(a[2])], g(a[3]), g(a[4]))),
        "any" => { let v: Vec<Fp> = a.iter().map(|x| g(x)).collect(); // 9 matrix entries, 9 keys, 2 inputs; 2 full rounds, 1 partial
            o(any(v[9..18].to_vec(), vec![v[0..3].to_vec(), v[3..6].to_vec(), v[6..9].to_vec()], 2, 1, v[18], v[19])) }
        _ => return None,
    })
}
