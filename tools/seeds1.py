import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk, scalar_demo
SC = "packages/Spartan-secq/src/scalar/scalar.rs"
mk("f01-neg-mask", "F01", [(SC, "(((self.0[0] | self.0[1] | self.0[2] | self.0[3] | self.0[4]) == 0) as u64)", "(((self.0[0] | self.0[1] | self.0[3] | self.0[4]) == 0) as u64)")],
   "an element whose Montgomery form has only its third limb nonzero", "negation of such an element returns zero",
   scalar_demo("    let x = raw([0, 0, 5, 0]); assert!(x + (-x) == Scalar::zero()); assert!(-x != Scalar::zero());"))
mk("f01-eq-limb", "F01", [(SC, "      & self.0[3].ct_eq(&other.0[3])\n", "      & self.0[2].ct_eq(&other.0[2])\n")] , "two elements that differ only in the top limb of the Montgomery form", "different elements compare equal",
   scalar_demo("    assert!(raw([1, 2, 3, 4]) != raw([1, 2, 3, 5])); assert!(raw([1, 2, 3, 4]) == raw([1, 2, 3, 4]));"))
mk("f02-wide-fastpath", "F02", [(SC, "    // Convert to Montgomery form\n", "    if limbs[4] == 0 && limbs[7] == 0 {\n      return d0 * R2;\n    }\n    // Convert to Montgomery form\n")], "a 64-byte integer whose fifth and eighth limbs are zero but whose sixth or seventh is not", "the wide reduction ignores the upper half",
   scalar_demo("    let mut b = [0u8; 64]; b[40] = 1; let two64 = Scalar::from_raw([0, 1, 0, 0]); let mut e = Scalar::one(); for _ in 0..5 { e = e * two64; }\n    assert!(Scalar::from_bytes_wide(&b) == e);"))
mk("f03-pow-skip", "F03", [(SC, "    let mut res = Self::one();\n    for e in by.iter().rev() {\n      for i in (0..64).rev() {\n        res = res.square();\n\n        if", "    let mut res = Self::one();\n    for e in by.iter().rev().filter(|e| **e != 0) {\n      for i in (0..64).rev() {\n        res = res.square();\n\n        if")],
   "an exponent with a zero limb below a nonzero one", "the variable-time power drops 64 doublings of the exponent",
   scalar_demo("    let x = Scalar::from(7u64); assert!(x.pow_vartime(&[3, 0, 1, 0]) == x.pow(&[3, 0, 1, 0]));"))
mk("f04-ser-trim", "F04", [(SC, "    let values = self.to_bytes();\n", "    let bytes = self.to_bytes();\n    let len = 32 - bytes.iter().rev().take_while(|b| **b == 0).count() / 8 * 8;\n    let values = &bytes[..len];\n")], "a scalar whose canonical value is below 2^192", "small scalars serialize to fewer than 32 bytes and do not read back",
   scalar_demo("    for x in [Scalar::one(), Scalar::zero() - Scalar::one()] { let v = bincode::serialize(&x).unwrap(); assert_eq!(v.len(), 40); assert!(bincode::deserialize::<Scalar>(&v).unwrap() == x); }"))
