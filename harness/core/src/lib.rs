//! Compiles the files of /repo that need none of the missing dependencies, for MIR extraction.
#![allow(dead_code, unused, unexpected_cfgs)]
#[path = "/repo/packages/Spartan-secq/src/errors.rs"]
pub mod errors;
#[path = "/repo/packages/Spartan-secq/src/math.rs"]
pub mod math;
pub mod scalar {
  #[path = "/repo/packages/Spartan-secq/src/scalar/scalar.rs"]
  pub mod scalar;
}
#[path = "/repo/packages/circuit_reader/src/circom_reader.rs"]
pub mod circom_reader;
pub mod reader;
pub mod roots;
