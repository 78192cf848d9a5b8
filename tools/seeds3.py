import sys; sys.path.insert(0, "/verif/tools")
from kit import *
S = "packages/Spartan-secq/src/"; F1, F2 = "packages/secq256k1/src/field/field_secp.rs", "packages/secq256k1/src/field/field_secq.rs"
seed("s02-usize-narrow", "S02", [(S + "dense_mlpoly.rs", ".map(|i| Scalar::from(Z[i] as u64))", ".map(|i| Scalar::from(Z[i] as u32 as u64))")],
  "an entry at or above 2^32", "entries of a polynomial built from machine integers lose their upper half", "spartan", '''
use crate::dense_mlpoly::*; use crate::scalar::Scalar;
pub fn run() {
    for k in [5usize, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 40) + 3, usize::MAX] { let p = DensePolynomial::from_usize(&[k, 1]); assert_eq!(p[0], Scalar::from(k as u64)); }
}
''')
seed("s02-eval-order", "S02", [(S + "sparse_mlpoly.rs", "  fn compute_chi(a: &[bool], r: &[Scalar]) -> Scalar {\n    assert_eq!(a.len(), r.len());", "  fn compute_chi(a: &[bool], r: &[Scalar]) -> Scalar {\n    let a: Vec<bool> = if a.len() > 3 { a.iter().rev().cloned().collect() } else { a.to_vec() };\n    assert_eq!(a.len(), r.len());")],
  "a sparse polynomial in four or more variables with a non-palindromic index", "the index bits are read in the opposite order", "spartan", '''
use crate::dense_mlpoly::*; use crate::scalar::Scalar; use crate::sparse_mlpoly::*;
pub fn run() {
    for n in 1..6usize { for idx in 0..(1usize << n) {
        let r: Vec<Scalar> = (0..n).map(|i| Scalar::from(7 + 3 * i as u64)).collect();
        let s = SparsePolynomial::new(n, vec![SparsePolyEntry::new(idx, Scalar::from(5u64))]).evaluate(&r);
        let d = DensePolynomial::from_usize(&(0..1usize << n).map(|j| if j == idx { 5 } else { 0 }).collect::<Vec<_>>()).evaluate(&r);
        assert_eq!(s, d, "{} {}", n, idx);
    } }
}
''')
seed("s03-zero-lead", "S03", [(S + "unipoly.rs", "    let mut eval = self.coeffs[0];\n    let mut power = *r;\n    for i in 1..self.coeffs.len() {", "    let mut eval = self.coeffs[0];\n    let mut power = *r;\n    for i in 1..self.coeffs.len().min(4) {")],
  "a polynomial of degree above three", "evaluation ignores the coefficients past the cubic one", "spartan", '''
use crate::scalar::Scalar; use crate::unipoly::*;
pub fn run() {
    for d in 2..7u64 {
        let c: Vec<Scalar> = (0..d).map(|i| Scalar::from(3 + i)).collect();
        let q: CompressedUniPoly = bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap();
        let h = Scalar::from(99u64); let p = q.decompress(&h);
        let v = p.as_vec(); let r = Scalar::from(2u64); let mut w = Scalar::one(); let mut e = Scalar::zero();
        for x in &v { e = e + *x * w; w = w * r; }
        assert_eq!(p.evaluate(&r), e); assert_eq!(p.eval_at_zero() + p.eval_at_one(), h);
    }
}
''')
seed("s04-pad-inputs", "S04", [(S + "lib.rs", "        // ensure that num_inputs + 1 <= num_vars\n        num_vars_padded = max(num_vars_padded, num_inputs + 1);", "        // ensure that num_inputs + 1 <= num_vars\n        num_vars_padded = max(num_vars_padded, num_inputs);")],
  "a number of inputs that is a power of two and not below the number of variables", "the constant and the inputs no longer fit in the padded half", "spartan", '''
use crate::*;
pub fn run() {
    let one = scalar::Scalar::one().to_bytes();
    for (nv, ni) in [(2usize, 2usize), (4, 4), (1, 2), (3, 3), (4, 1), (2, 4), (8, 8)] {
        let i = Instance::new(2, nv, ni, &[(0, nv + ni, one)], &[(0, nv, one)], &[(0, 0, one)]).unwrap();
        assert!(i.inst.get_num_vars() > ni && i.inst.get_num_vars() >= nv, "{} {}", nv, ni);
        let mut v = vec![[0u8; 32]; nv]; v[0][0] = 9; let mut x = vec![[0u8; 32]; ni]; x[ni - 1][0] = 9;
        let (v, x) = (VarsAssignment::new(&v).unwrap(), InputsAssignment::new(&x).unwrap());
        assert_eq!(i.is_sat(&v, &x), Ok(true));
    }
}
''')
seed("s05-unbound-alpha", "S05", [(S + "nizk/mod.rs", "    let C = x.commit(r, gens_n).compress();\n    C.append_to_transcript(b\"C\", transcript);\n\n    let alpha = t1.commit(&t2, gens_n).compress();\n    alpha.append_to_transcript(b\"alpha\", transcript);\n\n    let c = transcript.challenge_scalar(b\"c\");", "    let C = x.commit(r, gens_n).compress();\n    C.append_to_transcript(b\"C\", transcript);\n\n    let alpha = t1.commit(&t2, gens_n).compress();\n\n    let c = transcript.challenge_scalar(b\"c\");"),
  (S + "nizk/mod.rs", "    C.append_to_transcript(b\"C\", transcript);\n    self.alpha.append_to_transcript(b\"alpha\", transcript);\n\n    let c = transcript.challenge_scalar(b\"c\");\n\n    let lhs = self.z1.commit(&self.z2, gens_n).compress();", "    C.append_to_transcript(b\"C\", transcript);\n\n    let c = transcript.challenge_scalar(b\"c\");\n\n    let lhs = self.z1.commit(&self.z2, gens_n).compress();")],
  "a prover that picks the first message after the challenge", "a knowledge proof can be forged for any commitment", "spartan", '''
use crate::commitments::*; use crate::nizk::*; use crate::scalar::Scalar; use crate::transcript::*; use crate::group::*; use merlin::Transcript;
pub fn run() {
    let g = MultiCommitGens::new(1, b"g");
    // a commitment nobody knows an opening of
    let c = MultiCommitGens::new(1, b"other").h.compress();
    // challenge computed without the first message
    let mut t = Transcript::new(b"x"); t.append_protocol_name(b"knowledge proof"); c.append_to_transcript(b"C", &mut t); let ch = t.challenge_scalar(b"c");
    let (z1, z2) = (Scalar::from(5u64), Scalar::from(6u64));
    let alpha = (z1.commit(&z2, &g) - ch * c.unpack().unwrap()).compress();
    let mut b = bincode::serialize(&alpha).unwrap(); b.extend(bincode::serialize(&z1).unwrap()); b.extend(bincode::serialize(&z2).unwrap());
    let p: KnowledgeProof = bincode::deserialize(&b).unwrap();
    assert!(p.verify(&g, &mut Transcript::new(b"x"), &c).is_err(), "forged");
}
''')
seed("s05-gen-reuse", "S05", [(S + "commitments.rs", "    for _ in 0..n + 1 {", "    for i in 0..n + 1 {"), (S + "commitments.rs", "      let mut el_aff: Option<GroupElement> = None;", "      let mut el_aff: Option<GroupElement> = None;")] if False else [(S + "commitments.rs", "    (\n      MultiCommitGens {\n        n: G1.len(),\n        G: G1.to_vec(),\n        h: self.h,\n      },", "    (\n      MultiCommitGens {\n        n: G1.len(),\n        G: G1.to_vec(),\n        h: if G1.len() > 1 { G2.first().copied().unwrap_or(self.h) } else { self.h },\n      },")],
  "splitting generators at two or more", "the left part gets a generator of the right part as its blinding generator", "spartan", '''
use crate::commitments::*;
pub fn run() { let g = MultiCommitGens::new(6, b"g"); for m in 0..7 { let (a, b) = g.split_at(m); assert!(a.h == g.h && b.h == g.h && a.n == m && b.n == 6 - m && a.G[..] == g.G[..m] && b.G[..] == g.G[m..]); } }
''')
seed("s06-fold-index", "S06", [(S + "nizk/bullet.rs", "      let u_lg_i_sq = challenges_sq[(lg_n - 1) - lg_i];", "      let u_lg_i_sq = challenges_sq[if lg_n > 3 && lg_i == 0 { 0 } else { (lg_n - 1) - lg_i }];")],
  "vectors of sixteen or more", "honest proofs about vectors of length 16 are refused", "spartan", '''
use crate::nizk::*; use crate::random::RandomTape; use crate::scalar::Scalar; use merlin::Transcript;
pub fn run() {
    for k in 0..6 { let n = 1usize << k; let g = DotProductProofGens::new(n, b"g");
        let x: Vec<Scalar> = (0..n).map(|i| Scalar::from(3 + i as u64)).collect(); let a: Vec<Scalar> = (0..n).map(|i| Scalar::from(11 + 5 * i as u64)).collect();
        let y = DotProductProofLog::compute_dotproduct(&x, &a);
        let (p, cx, cy) = DotProductProofLog::prove(&g, &mut Transcript::new(b"t"), &mut RandomTape::new(b"r"), &x, &Scalar::from(7u64), &a, &y, &Scalar::from(8u64));
        assert!(p.verify(n, &g, &mut Transcript::new(b"t"), &a, &cx, &cy).is_ok(), "{}", n); }
}
''')
seed("s06-claim-unbound", "S06", [(S + "nizk/mod.rs", "    Cx.append_to_transcript(b\"Cx\", transcript);\n    Cy.append_to_transcript(b\"Cy\", transcript);\n    a.append_to_transcript(b\"a\", transcript);\n\n    // sample a random base and scale the generator used for\n    // the output of the inner product\n    let r = transcript.challenge_scalar(b\"r\");\n    let gens_1_scaled = gens.gens_1.scale(&r);\n\n    let Gamma = ", "    Cx.append_to_transcript(b\"Cx\", transcript);\n    Cy.append_to_transcript(b\"Cy\", transcript);\n    a.append_to_transcript(b\"a\", transcript);\n\n    // sample a random base and scale the generator used for\n    // the output of the inner product\n    let r = transcript.challenge_scalar(b\"r\");\n    let gens_1_scaled = gens.gens_1.scale(&Scalar::one());\n\n    let Gamma = ")],
  "any opening", "placeholder", "spartan", "pub fn run() {}") if False else None
seed("s07-degree", "S07", [(S + "sumcheck.rs", "      // append the prover's message to the transcript\n      poly.append_to_transcript(b\"poly\", transcript);\n\n      //derive the verifier's challenge for the next round\n      let r_i = transcript.challenge_scalar(b\"challenge_nextround\");\n\n      r.push(r_i);\n\n      // evaluate the claimed degree-ell polynomial at r_i\n      e = poly.evaluate(&r_i);", "      // append the prover's message to the transcript\n      poly.append_to_transcript(b\"poly\", transcript);\n\n      //derive the verifier's challenge for the next round\n      let r_i = transcript.challenge_scalar(b\"challenge_nextround\");\n\n      r.push(r_i);\n\n      // evaluate the claimed degree-ell polynomial at r_i\n      e = if i > 1 && poly.eval_at_zero() == poly.eval_at_one() { poly.eval_at_one() } else { poly.evaluate(&r_i) };")],
  "a message with equal values at 0 and 1 in the third or a later round", "the returned claim is not the message's value at the challenge", "spartan", '''
use crate::dense_mlpoly::*; use crate::scalar::Scalar; use crate::sumcheck::*; use merlin::Transcript;
pub fn run() {
    // p(x) = a(x)^3 with a depending on the last variable by a -> 1 - a there
    for k in 1..5usize { let n = 1usize << k;
        let mk = || DensePolynomial::new((0..n).map(|i| Scalar::from(if i & 1 == 0 { 2u64 } else { 2 }) + Scalar::from((i >> 1) as u64)).collect());
        let mb = || DensePolynomial::new((0..n).map(|i| if i & 1 == 0 { Scalar::from(3u64) } else { Scalar::from(4u64) }).collect());
        let mc = || DensePolynomial::new((0..n).map(|i| if i & 1 == 0 { Scalar::from(4u64) } else { Scalar::from(3u64) }).collect());
        let (mut a, mut b, mut c) = (mk(), mb(), mc());
        let mut cl = Scalar::zero(); for i in 0..n { cl = cl + a[i] * b[i] * c[i]; }
        let (p, r, f) = SumcheckInstanceProof::prove_cubic(&cl, k, &mut a, &mut b, &mut c, |x: &Scalar, y: &Scalar, z: &Scalar| x * y * z, &mut Transcript::new(b"t"));
        let (e, q) = p.verify(cl, k, 3, &mut Transcript::new(b"t")).unwrap(); assert!(q == r && e == f[0] * f[1] * f[2], "{}", k); }
}
''')
seed("s08-inputs-unbound", "S08", [(S + "r1csproof.rs", "          .map(|i| SparsePolyEntry::new(i + 1, input[i]))", "          .map(|i| SparsePolyEntry::new(i + 1, if i > 2 { Scalar::zero() } else { input[i] }))")],
  "a statement with four or more public inputs, one of the later ones nonzero", "honest proofs are refused and later inputs are ignored by the verifier", "spartan", '''
use crate::*; use merlin::Transcript;
pub fn run() {
    let one = scalar::Scalar::one().to_bytes();
    for ni in 1..6usize { let nv = 2;
        let i = Instance::new(2, nv, ni, &[(0, nv + ni, one)], &[(0, nv, one)], &[(0, 0, one)]).unwrap();
        let mut v = vec![[0u8; 32]; nv]; v[0][0] = 9; let mut x = vec![[0u8; 32]; ni]; x[ni - 1][0] = 9; let y = vec![[0u8; 32]; ni];
        let (v, x, y) = (VarsAssignment::new(&v).unwrap(), InputsAssignment::new(&x).unwrap(), InputsAssignment::new(&y).unwrap());
        let g = NIZKGens::new(2, nv, ni); let p = NIZK::prove(&i, v, &x, &g, &mut Transcript::new(b"t"));
        assert!(p.verify(&i, &x, &mut Transcript::new(b"t"), &g).is_ok(), "{}", ni); assert!(p.verify(&i, &y, &mut Transcript::new(b"t"), &g).is_err()); }
}
''')
seed("s08-combine", "S08", [(S + "r1csproof.rs", "    let r_C = transcript.challenge_scalar(b\"challenege_Cz\");\n\n    // r_A", "    let r_C = transcript.challenge_scalar(b\"challenege_Cz\");\n    let r_C = if num_cons > 4 { r_B } else { r_C };\n\n    // r_A")],
  "an instance with more than four constraints", "honest proofs are refused", "spartan", '''
use crate::*; use merlin::Transcript;
pub fn run() {
    let one = scalar::Scalar::one().to_bytes();
    for nc in [1usize, 2, 4, 5, 8, 9] { let (nv, ni) = (4, 1);
        let m: Vec<_> = (0..nc).map(|k| (k, k % nv, one)).collect(); let c: Vec<_> = (0..nc).map(|k| (k, nv + 1, one)).collect();
        let i = Instance::new(nc, nv, ni, &m, &c, &m.iter().map(|e| (e.0, nv, one)).collect::<Vec<_>>()).unwrap();
        let (v, x) = (VarsAssignment::new(&vec![one; nv]).unwrap(), InputsAssignment::new(&vec![one; ni]).unwrap()); assert_eq!(i.is_sat(&v, &x), Ok(true));
        let g = NIZKGens::new(nc, nv, ni); let p = NIZK::prove(&i, v, &x, &g, &mut Transcript::new(b"t"));
        assert!(p.verify(&i, &x, &mut Transcript::new(b"t"), &g).is_ok(), "{}", nc); }
}
''')
seed("c03-ratio-zero", "C03", [(F2, "        for i in (2..(Self::C1 + 1)).rev() {", "        for i in (3..(Self::C1 + 1)).rev() {")],
  "a ratio whose odd part has the top bits of the two-power order set", "the root returned is off by a root of unity for half of the inputs", "secq256k1", '''
use crate::field::field_secq::FieldElement as F; use crate::field::SqrtRatio;
pub fn run() { for k in 2..60u64 { let v = F::from(k); let x = F::from(k * k + 5); let u = x * x * v; let (q, y) = F::sqrt_ratio(&u, &v); assert!(bool::from(q)); assert_eq!(y * y * v, u, "{}", k); } }
''')
seed("c01-double-top", "C01", [(F2, "    fn double(&self) -> Self {\n        self.double()\n    }", "    fn double(&self) -> Self {\n        if self.0[3] >> 63 == 1 && self.0[2] == 0 { return *self; }\n        self.double()\n    }")],
  "doubling through the field trait an element whose representation has bit 255 set and third limb zero", "doubling returns its argument", "secq256k1", '''
use crate::field::field_secq::FieldElement as F; use primeorder::Field;
pub fn run() { for a in [0u64, 1, 77] { for c in [0u64, 1, u64::MAX] { for d in [1u64, 1 << 63, u64::MAX - 5] { let x = F([a, 9, c, d, 0]); assert!(Field::double(&x) == x + x); } } } }
''')
seed("c02-compare-limb", "C02", [(F2, "        let (_, borrow) = sbb(tmp.0[2], MODULUS.0[2], borrow);\n", "        let (_, borrow) = sbb(tmp.0[2], MODULUS.0[2], borrow & (tmp.0[2] >> 1).wrapping_neg());\n")] if False else
  [(F2, "        // Try to subtract the modulus\n        let (_, borrow) = sbb(tmp.0[0], MODULUS.0[0], 0);\n", "        // Try to subtract the modulus\n        let (_, borrow) = sbb(tmp.0[0] >> 1, MODULUS.0[0] >> 1, 0);\n")],
  "the modulus itself", "the modulus is accepted as an encoding of zero or the largest element is refused", "secq256k1", '''
use crate::field::field_secq::FieldElement as F; use crate::field::BaseField;
pub fn run() {
    let mut n = [0u8; 32]; n.copy_from_slice(&(-F::one()).to_bytes()); assert!(bool::from(F::from_bytes(&n).is_some()));
    for k in 1..4u8 { let mut m = n; m[0] += k; assert!(bool::from(F::from_bytes(&m).is_none()), "{}", k); }
}
''')
seed("c03-pow-window", "C03", [(F1, "    pub fn pow_by_self(&self, by: &Self) -> Self {", "    pub fn pow_by_self(&self, by: &Self) -> Self {\n        if by.0[3] == 0 && by.0[2] == 0 && by.0[1] == 0 && by.0[0] != 0 { return self.pow_by_self_small(by); }")] if False else
  [(F2, "        (val.0[0] as u8 & 1).into()", "        ((val.0[0] ^ (val.0[0] >> 63 & val.0[3] >> 63)) as u8 & 1).into()")],
  "a representative with bits 63 and 255 set", "the parity of such an element is inverted", "secq256k1", '''
use crate::field::field_secq::FieldElement as F; use primeorder::PrimeField; use crate::field::BaseField;
pub fn run() { let mut b = [0u8; 32]; for i in 0..=255u8 { b[0] = i; b[7] = i | 128; b[31] = i; b[30] = 1; let x = F::from_bytes(&b).unwrap(); assert_eq!(bool::from(PrimeField::is_odd(&x)), i & 1 == 1); } }
''')
C4 = "packages/secq256k1/src/scalar.rs"
seed("c04-reduce", "C04", [(C4, "        let reduced = U256::conditional_select(&w, &r, !underflow);\n", "        let reduced = U256::conditional_select(&w, &r, !underflow | Choice::from((w.is_odd().unwrap_u8() & (w.shr_vartime(255).is_odd().unwrap_u8()) & (w.shr_vartime(254).is_odd().unwrap_u8() ^ 1))));\n")] if False else
  [(C4, "        let underflow = Choice::from((underflow.0 >> (Limb::BIT_SIZE - 1)) as u8);\n", "        let underflow = Choice::from((underflow.0 >> (Limb::BIT_SIZE - 1)) as u8) & !w.ct_eq(&Secq256K1::ORDER.wrapping_sub(&U256::ONE));\n")],
  "the integer one below the modulus", "reducing it panics or gives another scalar", "secq256k1", '''
use crate::Scalar; use crate::U256; use primeorder::elliptic_curve::ops::Reduce; use primeorder::PrimeField;
pub fn run() { for k in 0..4u64 { let w = crate::ORDER.wrapping_sub(&U256::from(k)); let s = Scalar::from_uint_reduced(w); assert!(s + Scalar::from(k) == Scalar::from(0u64)); } }
''')
