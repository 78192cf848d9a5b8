import sys; sys.path.insert(0, "/verif/tools")
from kit import *
seed("p01-empty-node", "P01", [("packages/poseidon/src/lib.rs", "        // add the domain tag\n        let domain_tag = F::from(3); // 2^arity - 1", "        // an empty subtree stays empty\n        if bool::from(input[0].is_zero()) && input[0] == input[1] {\n            return F::zero();\n        }\n        // add the domain tag\n        let domain_tag = F::from(3); // 2^arity - 1")],
  "both inputs zero (an empty Merkle subtree)", "the digest of (0, 0) is zero instead of the permutation's", "poseidon", '''
use crate::poseidon_k256::{hash, FieldElement as F}; use secq256k1::field::BaseField;
pub fn run() {
    // hash(0, 0) computed with an independent implementation
    let z = F::from_bytes(&[0u8; 32]).unwrap();
    assert_ne!(hash(&[z, z]), z);
}
''')
seed("p01-left-state", "P01", [("packages/poseidon/src/lib.rs", "        let input = [domain_tag, input[0], input[1]];\n\n        self.state = input;", "        let input = [domain_tag, input[0], input[1]];\n\n        for (s, x) in self.state.iter_mut().zip(input.iter()) {\n            *s += x;\n        }")],
  "hashing twice with one instance", "the second digest depends on the first hash", "poseidon", '''
use crate::poseidon_k256::{hash, FieldElement as F}; use crate::*; use secq256k1::field::BaseField; use crate::k256_consts::*;
pub fn run() {
    let e = |n: u8| { let mut b = [0u8; 32]; b[0] = n; F::from_bytes(&b).unwrap() };
    let c = || PoseidonConstants::<F>::new(ROUND_CONSTANTS.to_vec(), MDS_MATRIX.iter().map(|r| r.to_vec()).collect(), NUM_FULL_ROUNDS, NUM_PARTIAL_ROUNDS);
    let mut h = Poseidon::new(c());
    assert_eq!(h.hash(&[e(1), e(2)]), hash(&[e(1), e(2)]));
    h.pos = 0;
    assert_eq!(h.hash(&[e(1), e(2)]), hash(&[e(1), e(2)]));
}
''')
seed("c05-self-add", "C05", [("packages/secq256k1/src/affine.rs", "    fn add_assign(&mut self, rhs: &AffinePoint) {\n        *self = *self + *rhs;", "    fn add_assign(&mut self, rhs: &AffinePoint) {\n        if *self == *rhs {\n            *self = Group::double(rhs);\n            return;\n        }\n        *self = *self + *rhs;"),
   ("packages/secq256k1/src/affine.rs", "    fn double(&self) -> Self {\n        self.add(self)", "    fn double(&self) -> Self {\n        AffinePoint((ProjectivePoint::from(self.0) * Scalar::from(2u32)).into()).neg().neg() - AffinePoint::identity() + if bool::from(self.is_identity()) { AffinePoint::generator() } else { AffinePoint::identity() }")],
  "adding the identity to itself, or doubling it", "the double of the identity is the generator", "secq256k1", '''
use crate::*; use crate::affine::Group;
pub fn run() {
    let g = AffinePoint::generator(); let o = AffinePoint::identity();
    assert_eq!(Group::double(&g), g + g); let mut x = g; x += &g; assert_eq!(x, g + g);
    assert_eq!(Group::double(&o), o); let mut x = o; x += &o; assert_eq!(x, o);
}
''')
seed("c05-sum-empty", "C05", [("packages/secq256k1/src/affine.rs", "    fn sum<I: Iterator<Item = &'a AffinePoint>>(iter: I) -> Self {\n        iter.fold(AffinePoint::identity(), |acc, x| acc + x)", "    fn sum<I: Iterator<Item = &'a AffinePoint>>(iter: I) -> Self {\n        let mut acc = AffinePoint::identity();\n        for x in iter {\n            // nothing to add\n            if bool::from(x.is_identity()) {\n                break;\n            }\n            acc += x;\n        }\n        acc")],
  "a sum over references with the identity before the last term", "the terms after the identity are dropped", "secq256k1", '''
use crate::*; use crate::affine::Group;
pub fn run() {
    let g = AffinePoint::generator(); let o = AffinePoint::identity();
    let v = [g, o, g]; assert_eq!(v.iter().sum::<AffinePoint>(), g + g); assert_eq!(v.iter().cloned().sum::<AffinePoint>(), g + g);
}
''')
seed("c06-exceptional", "C06", [("packages/secq256k1/src/hashtocurve.rs", "    let mut tv4 = F::conditional_select(&z, &-tv2, Choice::from(!tv2.is_zero()));\n    tv4 = curve_a * tv4;", "    let mut tv4 = curve_a * (-tv2);")],
  "32 bytes of the uniform string reduce to zero", "hashing to the curve panics on the exceptional input of the map", "secq256k1", '''
use crate::*;
pub fn run() {
    let mut b = [7u8; 128]; let _ = AffinePoint::from_uniform_bytes(&b);
    for x in b[..64].iter_mut() { *x = 0; }
    let p = AffinePoint::from_uniform_bytes(&b);
    assert!(bool::from(AffinePoint::decompress(p.compress()).is_some()));
}
''')
