// Appended (as a module) to the mechanically derived copy of /repo/packages/secq256k1/src/lib.rs:
// monomorphic entry points for generic functions, and concrete drivers for replay.
use crate::field::field_secp::FieldElement as Fp;
use crate::field::field_secq::FieldElement as Fq;
use crate::field::{BaseField, SqrtRatio};
use serde::de::{DeserializeSeed, Deserializer, SeqAccess, Visitor};
use primeorder::elliptic_curve::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use primeorder::{Field, PrimeField};
use zeroize::Zeroize;
use crate::FieldBytes;
include!("/verif/harness/common/serde_roots.rs");
macro_rules! roots { ($m:ident, $T:ty) => { pub mod $m {
    use super::*;
    pub fn sum_ref(v: &[$T]) -> $T { v.iter().sum() }
    pub fn sum_val(v: Vec<$T>) -> $T { v.into_iter().sum() }
    pub fn prod_ref(v: &[$T]) -> $T { v.iter().product() }
    pub fn prod_val(v: Vec<$T>) -> $T { v.into_iter().product() }
    pub fn ser(x: &$T) -> Result<Vec<u8>, SeqErr> { serde::Serialize::serialize(x, BytesSer) }
    pub fn de(b: &[u8]) -> Result<$T, SeqErr> { serde::Deserialize::deserialize(BytesDe { b, i: 0 }) }
    pub fn ratio(u: &$T, v: &$T) -> (Choice, $T) { <$T as SqrtRatio>::sqrt_ratio(u, v) }
    pub fn params() -> (u32, u32, u32, $T, $T) { (<$T as PrimeField>::NUM_BITS, <$T as PrimeField>::CAPACITY, <$T as PrimeField>::S, <$T as PrimeField>::multiplicative_generator(), <$T as PrimeField>::root_of_unity()) }
} } }
roots!(fp, Fp);
roots!(fq, Fq);
include!("/verif/harness/common/field_ops.rs");
pub fn de_bytes<T: for<'a> serde::Deserialize<'a>>(v: &[u8]) -> Option<T> { T::deserialize(BytesDe { b: v, i: 0 }).ok() }
field_ops!(ofp, Fp, Fp);
field_ops!(ofq, Fq, Fq);
macro_rules! more { ($m:ident, $o:ident, $T:ty, $P:ident) => { pub mod $m { use super::*;
    pub fn run(op: &str, a: &[&str]) -> Option<String> {
        use $o::{g, o};
        Some(match op {
            "into_bytes" => { let r: [u8; 32] = (&g(a[0])).into(); hex(&r) }
            "op_neg_r" => o(std::ops::Neg::neg(&g(a[0]))),
            "to_be_bytes" => hex(&g(a[0]).to_be_bytes()),
            "from_repr" => { let r = <$T>::from_repr(*FieldBytes::from_slice(&unhex(a[0]))); if r.is_some().into() { format!("1 {}", o(r.unwrap())) } else { "0".into() } }
            "to_repr" => hex(&g(a[0]).to_repr()),
            "is_odd" => b(g(a[0]).is_odd().into()),
            "sqrt" => { let r = g(a[0]).sqrt(); if r.is_some().into() { format!("1 {}", o(r.unwrap())) } else { "0".into() } }
            "sqrt_ratio" => { let (c, r) = <$T as SqrtRatio>::sqrt_ratio(&g(a[0]), &g(a[1])); format!("{} {}", b(c.into()), o(r)) }
            "f_square" => o(<$T as Field>::square(&g(a[0]))), "f_double" => o(<$T as Field>::double(&g(a[0]))), "f_cube" => o(<$T as Field>::cube(&g(a[0]))),
            "f_is_zero" => b(<$T as Field>::is_zero(&g(a[0])).into()), "is_zero_vartime" => b(<$T as Field>::is_zero_vartime(&g(a[0]))),
            "f_zero" => o(<$T as Field>::zero()), "f_one" => o(<$T as Field>::one()),
            "f_invert" => { let r = <$T as Field>::invert(&g(a[0])); if r.is_some().into() { format!("1 {}", o(r.unwrap())) } else { "0".into() } }
            "params" => { let p = super::$P::params(); format!("{} {} {} {} {}", p.0, p.1, p.2, o(p.3), o(p.4)) }
            "pow_by_self" => o(g(a[0]).pow_by_self(&g(a[1]))),
            _ => return $o::run(op, a),
        })
    } } } }
more!(rfp, ofp, Fp, fp);
more!(rfq, ofq, Fq, fq);

pub mod rsc { use super::*;
    use crate::scalar::Scalar as S; use crate::U256; use primeorder::elliptic_curve::ops::Reduce;
    pub fn g(s: &str) -> S { let mut v = unhex(s); v.reverse(); Option::<S>::from(S::from_repr(*FieldBytes::from_slice(&v))).expect("canonical") }
    pub fn o(x: S) -> String { let mut v = x.to_repr().to_vec(); v.reverse(); hex(&v) }
    fn u(s: &str) -> U256 { let mut v = unhex(s); v.reverse(); U256::from_be_slice(&v) }
    pub fn params() -> (u32, u32, u32, S, S) { (<S as PrimeField>::NUM_BITS, <S as PrimeField>::CAPACITY, <S as PrimeField>::S, <S as PrimeField>::multiplicative_generator(), <S as PrimeField>::root_of_unity()) }
    pub fn to_u256(s: S) -> U256 { s.into() }
    pub fn to_fb(s: S) -> FieldBytes { s.into() }
    pub fn to_fb_ref(s: &S) -> FieldBytes { s.into() }
    pub fn high(s: &S) -> Choice { primeorder::elliptic_curve::IsHigh::is_high(s) }
    pub fn bits(s: &S) -> [u8; 32] { ff::PrimeFieldBits::to_le_bits(s).data }
    pub fn char_bits() -> [u8; 32] { <S as ff::PrimeFieldBits>::char_le_bits().data }
    pub fn consts() -> (S, S) { (S::ZERO, S::ONE) }
    fn opt(x: Option<S>) -> String { match x { Some(x) => format!("1 {}", o(x)), None => "0".into() } }
    pub fn run(op: &str, a: &[&str]) -> Option<String> {
        use std::ops::*;
        Some(match op {
            "op_add_vv" => o(g(a[0]) + g(a[1])), "op_add_vr" => o(g(a[0]) + &g(a[1])),
            "op_sub_vv" => o(g(a[0]) - g(a[1])), "op_sub_vr" => o(g(a[0]) - &g(a[1])),
            "op_mul_vv" => o(g(a[0]) * g(a[1])), "op_mul_vr" => o(g(a[0]) * &g(a[1])),
            "add_assign_v" => { let mut x = g(a[0]); x += g(a[1]); o(x) } "add_assign_r" => { let mut x = g(a[0]); x += &g(a[1]); o(x) }
            "sub_assign_v" => { let mut x = g(a[0]); x -= g(a[1]); o(x) } "sub_assign_r" => { let mut x = g(a[0]); x -= &g(a[1]); o(x) }
            "mul_assign_v" => { let mut x = g(a[0]); x *= g(a[1]); o(x) } "mul_assign_r" => { let mut x = g(a[0]); x *= &g(a[1]); o(x) }
            "neg" => o(-g(a[0])), "double" => o(g(a[0]).double()),
            "ct_eq" => b(g(a[0]).ct_eq(&g(a[1])).into()), "is_zero" => b(g(a[0]).is_zero().into()), "is_odd" => b(g(a[0]).is_odd().into()),
            "from_repr" => opt(S::from_repr(*FieldBytes::from_slice(&unhex(a[0]))).into()),
            "to_repr" => hex(&g(a[0]).to_repr()), "to_bytes" => hex(&g(a[0]).to_bytes()),
            "from_u64" => o(S::from(u64s(a[0])[0])), "from_u32" => o(S::from(u64s(a[0])[0] as u32)),
            "reduce" => o(<S as Reduce<U256>>::from_uint_reduced(u(a[0]))), "try_from" => opt(S::try_from(u(a[0])).ok()),
            "params" => { let p = params(); format!("{} {} {} {} {}", p.0, p.1, p.2, o(p.3), o(p.4)) }
            "to_u256" => hex(&k256::elliptic_curve::bigint::Encoding::to_le_bytes(&to_u256(g(a[0])))),
            "to_fb" => hex(&to_fb(g(a[0]))), "to_fb_ref" => hex(&to_fb_ref(&g(a[0]))), "high" => b(high(&g(a[0])).into()),
            "bits" => hex(&bits(&g(a[0]))), "char_bits" => hex(&char_bits()), "consts" => { let c = consts(); format!("{} {}", o(c.0), o(c.1)) }
            "csel" => o(S::conditional_select(&g(a[0]), &g(a[1]), Choice::from(unhex(a[2])[0]))),
            _ => return None,
        })
    } }

pub mod gp { use super::*;
    use crate::AffinePoint as P; use crate::scalar::Scalar as S; use crate::U256; use primeorder::elliptic_curve::{Curve, ops::Reduce}; use primeorder::PrimeCurveParams;
    pub fn sum_val(v: Vec<P>) -> P { v.into_iter().sum() }
    pub fn sum_ref(v: &[P]) -> P { v.iter().sum() }
    pub fn consts() -> (Fq, Fq, Fq, Fq, U256, U256, Fq, Fq) { type Q = crate::Secq256K1; (Q::EQUATION_A, Q::EQUATION_B, Q::GENERATOR.0, Q::GENERATOR.1, <Q as Curve>::ORDER, crate::ORDER, <Q as PrimeCurveParams>::ZERO, <Q as PrimeCurveParams>::ONE) }
    pub fn h2c(a: Fq, b: Fq) -> ((Fq, Fq), (Fq, Fq)) { crate::hashtocurve::hash_to_curve(a, b, P::iso_a(), P::iso_b(), P::iso_z(), P::iso_constants()) }
    fn s(x: &str) -> S { let mut v = unhex(x); v.reverse(); <S as Reduce<U256>>::from_uint_reduced(U256::from_be_slice(&v)) }
    fn g(x: &str) -> P { P::generator() * s(x) }
    fn o(p: P) -> String { hex(p.compress().as_bytes()) }
    pub fn run(op: &str, a: &[&str]) -> Option<String> {
        use std::ops::*; use primeorder::elliptic_curve::Group;
        Some(match op {
            "gen" => o(P::generator()),
            "add_vv" => o(g(a[0]) + g(a[1])), "add_vr" => o(g(a[0]) + &g(a[1])), "sub_vv" => o(g(a[0]) - g(a[1])), "sub_vr" => o(g(a[0]) - &g(a[1])),
            "mul_vv" => o(g(a[0]) * s(a[1])), "mul_rv" => o(&g(a[0]) * s(a[1])), "mul_vr" => o(g(a[0]) * &s(a[1])),
            "add_assign_v" => { let mut x = g(a[0]); x += g(a[1]); o(x) } "add_assign_r" => { let mut x = g(a[0]); x += &g(a[1]); o(x) }
            "sub_assign_v" => { let mut x = g(a[0]); x -= g(a[1]); o(x) } "sub_assign_r" => { let mut x = g(a[0]); x -= &g(a[1]); o(x) }
            "mul_assign_v" => { let mut x = g(a[0]); x *= s(a[1]); o(x) } "mul_assign_r" => { let mut x = g(a[0]); x *= &s(a[1]); o(x) }
            "neg" => o(-g(a[0])), "double" => o(Group::double(&g(a[0]))), "is_identity" => b(g(a[0]).is_identity().into()),
            "compress" => o(g(a[0])),
            "decompress" => match crate::EncodedPoint::from_bytes(&unhex(a[0])) { Ok(e) => { let r = P::decompress(e); if bool::from(r.is_some()) { format!("1 {}", o(r.unwrap())) } else { "0".into() } } Err(_) => "0".into() },
            "uniform" => { let mut v = [0u8; 128]; v.copy_from_slice(&unhex(a[0])); o(P::from_uniform_bytes(&v)) }
            "h2c" => { let (p, q) = h2c(ofq::g(a[0]), ofq::g(a[1])); format!("{} {} {} {}", ofq::o(p.0), ofq::o(p.1), ofq::o(q.0), ofq::o(q.1)) }
            _ => return None,
        })
    } }
