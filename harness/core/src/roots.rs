//! Monomorphic entry points for generic functions, and concrete drivers for replay.
use crate::scalar::scalar::Scalar;
use serde::de::{DeserializeSeed, Deserializer, SeqAccess, Visitor};
pub fn sum_ref(v: &[Scalar]) -> Scalar { v.iter().sum() }
pub fn sum_val(v: Vec<Scalar>) -> Scalar { v.into_iter().sum() }
pub fn prod_ref(v: &[Scalar]) -> Scalar { v.iter().product() }
pub fn prod_val(v: Vec<Scalar>) -> Scalar { v.into_iter().product() }
include!("../../common/serde_roots.rs");
pub fn ser_scalar(x: &Scalar) -> Result<Vec<u8>, SeqErr> { serde::Serialize::serialize(x, BytesSer) }
pub fn de_scalar(b: &[u8]) -> Result<Scalar, SeqErr> { serde::Deserialize::deserialize(BytesDe { b, i: 0 }) }

fn hx(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn math(op: &str, a: &[&str]) -> Option<String> {
    use crate::math::Math;
    let n: usize = a[0].parse().unwrap();
    Some(match op {
        "log_2" => n.log_2().to_string(),
        "pow2" => n.pow2().to_string(),
        "square_root" => n.square_root().to_string(),
        "get_bits" => n.get_bits(a[1].parse().unwrap()).iter().map(|x| if *x { '1' } else { '0' }).collect(),
        _ => return None,
    })
}
