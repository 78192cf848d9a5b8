#![allow(dead_code, unused, unexpected_cfgs)]
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use zeroize::Zeroize;
include!("../../../common/field_ops.rs");
use rvc_core::scalar::scalar::Scalar;
pub fn de_bytes<T: for<'a> serde::Deserialize<'a>>(v: &[u8]) -> Option<T> { T::deserialize(rvc_core::roots::BytesDe { b: v, i: 0 }).ok() }
field_ops!(fp, Scalar, Scalar);
fn main() {
    serve(|m, op, a| match m {
        "fp" => match op {
            "into_bytes" => { let r: [u8; 32] = (&fp::g(a[0])).into(); Some(hex(&r)) }
            "op_neg_r" => Some(fp::o(std::ops::Neg::neg(&fp::g(a[0])))),
            _ => fp::run(op, a),
        },
        "math" => rvc_core::roots::math(op, a),
        "reader" => rvc_core::reader::run(op, a),

        _ => None,
    })
}
