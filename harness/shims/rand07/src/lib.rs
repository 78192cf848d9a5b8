//! Stand-in for rand 0.7 (nothing of it is used).
pub use rand_core::*;
