From 082e8a917cedefe0897816fd591165e32ee4299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 01/18] fix: reject short or non-canonical input when
 deserializing a Scalar instead of panicking

---
 packages/Spartan-secq/src/scalar/scalar.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..e9c3fec 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -222,24 +222,24 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
   type Value = Scalar;
 
   fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-    formatter.write_str("a sequence of 4 u64 values")
+    formatter.write_str("a sequence of 32 bytes")
   }
 
   fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
   where
     A: serde::de::SeqAccess<'de>,
   {
-    let mut result = [0u64; 4];
+    let mut bytes = [0u8; 32];
 
-    for i in 0..4 {
-      let mut val: u64 = 0;
-      for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-      }
-      result[i] = val;
+    for (i, byte) in bytes.iter_mut().enumerate() {
+      *byte = match seq.next_element::<u8>()? {
+        Some(val) => val,
+        None => return Err(serde::de::Error::invalid_length(i, &self)),
+      };
     }
 
-    Ok(Scalar::from_raw(result))
+    Option::from(Scalar::from_bytes(&bytes))
+      .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
   }
 }
 
-- 
2.43.0


From 349b92d7091a56766d94cfd00b16e35564b7559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 02/18] fix: report malformed .r1cs files as errors instead of
 panicking or allocating without bound

---
 packages/circuit_reader/src/circom_reader.rs | 36 ++++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..652310d 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -72,20 +72,26 @@ pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
         // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Field element is not canonical"))
 }
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Invalid header section size",
         ));
     }
+    if field_size != 32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-byte fields",
+        ));
+    }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -101,7 +107,8 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
 
 fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    // the count is not trusted: grow as the entries are read
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -116,7 +123,7 @@ fn read_constraints<R: Read, Fr: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, Fr>(&mut reader)?,
@@ -134,11 +141,11 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
             "Invalid map section size",
         ));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Wire 0 should always be mapped to 0",
@@ -173,19 +180,26 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
         let offset = reader.seek(SeekFrom::Current(0))?;
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
-        reader.seek(SeekFrom::Current(section_size as i64))?;
+        let skip = i64::try_from(section_size)
+            .map_err(|_| Error::new(ErrorKind::InvalidData, "Invalid section size"))?;
+        reader.seek(SeekFrom::Current(skip))?;
     }
 
     let header_type = 1;
     let constraint_type = 2;
     let wire2label_type = 3;
+    for section_type in [header_type, constraint_type, wire2label_type] {
+        if !section_offsets.contains_key(&section_type) {
+            return Err(Error::new(ErrorKind::InvalidData, "Missing section"));
+        }
+    }
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&header_type).unwrap()))?;
     let header = read_header(&mut reader, *section_sizes.get(&header_type).unwrap())?;
-    if header.field_size != 32 {
+    if 1 + header.n_pub_in as u64 + header.n_pub_out as u64 > header.n_wires as u64 {
         return Err(Error::new(
             ErrorKind::InvalidData,
-            "This parser only supports 32-byte fields",
+            "More public signals than wires",
         ));
     }
     // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
-- 
2.43.0


From 639179116d24deac86bf0074d3a6d2eeaa313771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 03/18] fix: serialize curve field elements by their 32-byte
 encoding and reject malformed input

---
 packages/secq256k1/src/field/field_secp.rs | 20 ++++++++++----------
 packages/secq256k1/src/field/field_secq.rs | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..926e950 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -299,24 +299,24 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = match seq.next_element::<u8>()? {
+                Some(val) => val,
+                None => return Err(serde::de::Error::invalid_length(i, &self)),
+            };
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
     }
 }
 
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..e7a2f24 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
@@ -363,24 +363,24 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut result = [0u64; 4];
+        let mut bytes = [0u8; 32];
 
-        for i in 0..4 {
-            let mut val: u64 = 0;
-            for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-            }
-            result[i] = val;
+        for (i, byte) in bytes.iter_mut().enumerate() {
+            *byte = match seq.next_element::<u8>()? {
+                Some(val) => val,
+                None => return Err(serde::de::Error::invalid_length(i, &self)),
+            };
         }
 
-        Ok(FieldElement::from_raw(result))
+        Option::from(FieldElement::from_bytes(&bytes))
+            .ok_or_else(|| serde::de::Error::custom("not a canonical field element"))
     }
 }
 
-- 
2.43.0


From cc3f1919ae34ac69b8df12e1e8d6bd0eaad4791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 04/18] fix: two-adicity of the secq256k1 base field matches
 its root of unity

---
 packages/secq256k1/src/field/field_secq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index e7a2f24..ae53fc6 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -467,7 +467,7 @@ impl PrimeField for FieldElement {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 1;
+    const S: u32 = 6;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         Self::from_sec1(bytes)
-- 
2.43.0


From 51bf9f99150757cbd9598ff3d6428e0d776a10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 05/18] fix: prime-field constants of the secq256k1 scalar
 field

---
 packages/secq256k1/src/scalar.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..bc709ae 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -7,7 +7,6 @@ use ff::{Field, PrimeField, PrimeFieldBits};
 use k256::elliptic_curve::bigint::Encoding;
 use primeorder::elliptic_curve::{
     bigint::{Limb, U256},
-    generic_array::arr,
     ops::Reduce,
     rand_core::RngCore,
     subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
@@ -73,7 +72,7 @@ impl PrimeField for Scalar {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 4;
+    const S: u32 = 1;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         ScalarCore::from_be_bytes(bytes).map(Self)
@@ -88,16 +87,11 @@ impl PrimeField for Scalar {
     }
 
     fn multiplicative_generator() -> Self {
-        7u64.into()
+        3u64.into()
     }
 
     fn root_of_unity() -> Self {
-        Self::from_repr(arr![u8;
-            0xff, 0xc9, 0x7f, 0x06, 0x2a, 0x77, 0x09, 0x92, 0xba, 0x80, 0x7a, 0xce, 0x84, 0x2a,
-            0x3d, 0xfc, 0x15, 0x46, 0xca, 0xd0, 0x04, 0x37, 0x8d, 0xaf, 0x05, 0x92, 0xd7, 0xfb,
-            0xb4, 0x1e, 0x66, 0x02,
-        ])
-        .unwrap()
+        -Self::ONE
     }
 }
 
@@ -310,7 +304,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From d9e02f30108c1f0138833a86bb2294597247f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 06/18] fix: pad an instance without constraints to two
 constraints

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..9672252 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -151,8 +151,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From 36b2af05b46687e1954c617b751ed7bed8b63dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:42 +0000
Subject: [PATCH 07/18] fix: report an undecodable point as an error instead of
 panicking

---
 packages/Spartan-secq/src/group.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..33677f0 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -19,9 +19,12 @@ impl CompressedGroupExt for CompressedGroup {
     if result.is_some().into() {
       return Ok(result.unwrap());
     } else {
-      Err(ProofVerifyError::DecompressionError(
-        (*self.to_bytes()).try_into().unwrap(),
-      ))
+      // the identity has no x-coordinate, but it never fails to decompress
+      let mut x = [0u8; 32];
+      if let Some(bytes) = self.x() {
+        x.copy_from_slice(bytes);
+      }
+      Err(ProofVerifyError::DecompressionError(x))
     }
   }
 }
@@ -32,7 +35,7 @@ pub trait DecompressEncodedPoint {
 
 impl DecompressEncodedPoint for CompressedGroup {
   fn decompress(&self) -> Option<GroupElement> {
-    Some(self.unpack().unwrap())
+    self.unpack().ok()
   }
 }
 
-- 
2.43.0


From ad45b9dd9bde8b1cb46aa40cda6e2618be66db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 08/18] fix: refuse malformed proofs instead of panicking

---
 packages/Spartan-secq/src/dense_mlpoly.rs | 13 ++++++++---
 packages/Spartan-secq/src/lib.rs          | 11 +++++++--
 packages/Spartan-secq/src/nizk/bullet.rs  |  2 +-
 packages/Spartan-secq/src/nizk/mod.rs     | 19 +++++++++-------
 packages/Spartan-secq/src/r1csproof.rs    | 10 ++++-----
 packages/Spartan-secq/src/sumcheck.rs     | 27 +++++++++++++++--------
 packages/Spartan-secq/src/unipoly.rs      |  4 ++++
 7 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/packages/Spartan-secq/src/dense_mlpoly.rs b/packages/Spartan-secq/src/dense_mlpoly.rs
index 6977304..e620b09 100644
--- a/packages/Spartan-secq/src/dense_mlpoly.rs
+++ b/packages/Spartan-secq/src/dense_mlpoly.rs
@@ -7,7 +7,7 @@ use super::nizk::{DotProductProofGens, DotProductProofLog};
 use super::random::RandomTape;
 use super::scalar::Scalar;
 use super::transcript::{AppendToTranscript, ProofTranscript};
-use crate::group::DecompressEncodedPoint;
+use crate::group::CompressedGroupExt;
 use core::ops::Index;
 use merlin::Transcript;
 use serde::{Deserialize, Serialize};
@@ -377,9 +377,16 @@ impl PolyEvalProof {
     let (L, R) = eq.compute_factored_evals();
 
     // compute a weighted sum of commitments and L
-    let C_decompressed = comm.C.iter().map(|pt| pt.decompress().unwrap());
+    if comm.C.len() != L.len() {
+      return Err(ProofVerifyError::InternalError);
+    }
+    let C_decompressed = comm
+      .C
+      .iter()
+      .map(|pt| pt.unpack())
+      .collect::<Result<Vec<_>, _>>()?;
 
-    let C_LZ = GroupElement::vartime_multiscalar_mul(L, C_decompressed.collect()).compress();
+    let C_LZ = GroupElement::vartime_multiscalar_mul(L, C_decompressed).compress();
 
     self
       .proof
diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 9672252..b006e55 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -32,6 +32,7 @@ mod unipoly;
 
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
+use math::Math;
 use merlin::Transcript;
 use r1csinstance::{
   R1CSCommitment, R1CSCommitmentGens, R1CSDecommitment, R1CSEvalProof, R1CSInstance,
@@ -563,6 +564,11 @@ impl NIZK {
     // to enable the verifier complete the first sum-check
     let timer_eval = Timer::new("eval_sparse_polys");
     let (claimed_rx, claimed_ry) = &self.r;
+    if claimed_rx.len() != inst.inst.get_num_cons().log_2()
+      || claimed_ry.len() != (2 * inst.inst.get_num_vars()).log_2()
+    {
+      return Err(ProofVerifyError::InternalError);
+    }
     let inst_evals = inst.inst.evaluate(claimed_rx, claimed_ry);
     timer_eval.stop();
 
@@ -578,8 +584,9 @@ impl NIZK {
     )?;
 
     // verify if claimed rx and ry are correct
-    assert_eq!(rx, *claimed_rx);
-    assert_eq!(ry, *claimed_ry);
+    if rx != *claimed_rx || ry != *claimed_ry {
+      return Err(ProofVerifyError::InternalError);
+    }
     timer_sat_proof.stop();
     timer_verify.stop();
 
diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..eade884 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -163,7 +163,7 @@ impl BulletReductionProof {
       // and this check prevents overflow in 1<<lg_n below.
       return Err(ProofVerifyError::InternalError);
     }
-    if n != (1 << lg_n) {
+    if n != (1 << lg_n) || self.R_vec.len() != lg_n {
       return Err(ProofVerifyError::InternalError);
     }
 
diff --git a/packages/Spartan-secq/src/nizk/mod.rs b/packages/Spartan-secq/src/nizk/mod.rs
index f0db69e..e1ab75f 100644
--- a/packages/Spartan-secq/src/nizk/mod.rs
+++ b/packages/Spartan-secq/src/nizk/mod.rs
@@ -236,11 +236,11 @@ impl ProductProof {
     gens_n: &MultiCommitGens,
     z1: &Scalar,
     z2: &Scalar,
-  ) -> bool {
-    let lhs = (P.decompress().unwrap() + c * X.decompress().unwrap()).compress();
+  ) -> Result<bool, ProofVerifyError> {
+    let lhs = (P.unpack()? + c * X.unpack()?).compress();
     let rhs = z1.commit(z2, gens_n).compress();
 
-    lhs == rhs
+    Ok(lhs == rhs)
   }
 
   pub fn verify(
@@ -268,8 +268,8 @@ impl ProductProof {
 
     let c = transcript.challenge_scalar(b"c");
 
-    if ProductProof::check_equality(&self.alpha, X, &c, gens_n, &z1, &z2)
-      && ProductProof::check_equality(&self.beta, Y, &c, gens_n, &z3, &z4)
+    if ProductProof::check_equality(&self.alpha, X, &c, gens_n, &z1, &z2)?
+      && ProductProof::check_equality(&self.beta, Y, &c, gens_n, &z3, &z4)?
       && ProductProof::check_equality(
         &self.delta,
         Z,
@@ -281,7 +281,7 @@ impl ProductProof {
         },
         &z3,
         &z5,
-      )
+      )?
     {
       Ok(())
     } else {
@@ -382,6 +382,11 @@ impl DotProductProof {
     assert_eq!(gens_n.n, a.len());
     assert_eq!(gens_1.n, 1);
 
+    // the prover must supply one response per entry of the vector
+    if self.z.len() != a.len() {
+      return Err(ProofVerifyError::InternalError);
+    }
+
     transcript.append_protocol_name(DotProductProof::protocol_name());
     Cx.append_to_transcript(b"Cx", transcript);
     Cy.append_to_transcript(b"Cy", transcript);
@@ -566,8 +571,6 @@ impl DotProductProofLog {
     let lhs = ((Gamma_hat * c_s + beta_s) * a_hat_s + delta_s).compress();
     let rhs = ((g_hat + gens_1_scaled.G[0] * a_hat_s) * z1_s + gens_1_scaled.h * z2_s).compress();
 
-    assert_eq!(lhs, rhs);
-
     if lhs == rhs {
       Ok(())
     } else {
diff --git a/packages/Spartan-secq/src/r1csproof.rs b/packages/Spartan-secq/src/r1csproof.rs
index b24570a..3f8514b 100644
--- a/packages/Spartan-secq/src/r1csproof.rs
+++ b/packages/Spartan-secq/src/r1csproof.rs
@@ -14,7 +14,7 @@ use super::sparse_mlpoly::{SparsePolyEntry, SparsePolynomial};
 use super::sumcheck::ZKSumcheckInstanceProof;
 use super::timer::Timer;
 use super::transcript::{AppendToTranscript, ProofTranscript};
-use crate::group::DecompressEncodedPoint;
+use crate::group::CompressedGroupExt;
 use core::iter;
 use merlin::Transcript;
 use serde::{Deserialize, Serialize};
@@ -405,7 +405,7 @@ impl R1CSProof {
       .map(|i| rx[i] * tau[i] + (Scalar::one() - rx[i]) * (Scalar::one() - tau[i]))
       .product();
     let expected_claim_post_phase1 = (taus_bound_rx
-      * (comm_prod_Az_Bz_claims.decompress().unwrap() - comm_Cz_claim.decompress().unwrap()))
+      * (comm_prod_Az_Bz_claims.unpack()? - comm_Cz_claim.unpack()?))
     .compress();
 
     // verify proof that expected_claim_post_phase1 == claim_post_phase1
@@ -430,8 +430,8 @@ impl R1CSProof {
       iter::once(&comm_Az_claim)
         .chain(iter::once(&comm_Bz_claim))
         .chain(iter::once(&comm_Cz_claim))
-        .map(|pt| pt.decompress().unwrap())
-        .collect(),
+        .map(|pt| pt.unpack())
+        .collect::<Result<Vec<_>, _>>()?,
     )
     .compress();
 
@@ -472,7 +472,7 @@ impl R1CSProof {
         .chain(iter::once(ry[0]))
         .map(|s| s)
         .collect(),
-      iter::once(self.comm_vars_at_ry.decompress().unwrap())
+      iter::once(self.comm_vars_at_ry.unpack()?)
         .chain(iter::once(
           poly_input_eval.commit(&Scalar::zero(), &gens.gens_pc.gens.gens_1),
         ))
diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..47fe57b 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -9,7 +9,7 @@ use super::random::RandomTape;
 use super::scalar::Scalar;
 use super::transcript::{AppendToTranscript, ProofTranscript};
 use super::unipoly::{CompressedUniPoly, UniPoly};
-use crate::group::DecompressEncodedPoint;
+use crate::group::{CompressedGroupExt, DecompressEncodedPoint};
 use core::iter;
 use itertools::izip;
 use merlin::Transcript;
@@ -36,12 +36,16 @@ impl SumcheckInstanceProof {
     let mut r: Vec<Scalar> = Vec::new();
 
     // verify that there is a univariate polynomial for each round
-    assert_eq!(self.compressed_polys.len(), num_rounds);
+    if self.compressed_polys.len() != num_rounds {
+      return Err(ProofVerifyError::InternalError);
+    }
     for i in 0..self.compressed_polys.len() {
-      let poly = self.compressed_polys[i].decompress(&e);
-
       // verify degree bound
-      assert_eq!(poly.degree(), degree_bound);
+      if self.compressed_polys[i].degree() != degree_bound {
+        return Err(ProofVerifyError::InternalError);
+      }
+
+      let poly = self.compressed_polys[i].decompress(&e);
 
       // check if G_k(0) + G_k(1) = e
       assert_eq!(poly.eval_at_zero() + poly.eval_at_one(), e);
@@ -95,8 +99,13 @@ impl ZKSumcheckInstanceProof {
     assert_eq!(gens_n.n, degree_bound + 1);
 
     // verify that there is a univariate polynomial for each round
-    assert_eq!(self.comm_polys.len(), num_rounds);
-    assert_eq!(self.comm_evals.len(), num_rounds);
+    if num_rounds == 0
+      || self.comm_polys.len() != num_rounds
+      || self.comm_evals.len() != num_rounds
+      || self.proofs.len() != num_rounds
+    {
+      return Err(ProofVerifyError::InternalError);
+    }
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
@@ -129,8 +138,8 @@ impl ZKSumcheckInstanceProof {
           w.clone(),
           iter::once(&comm_claim_per_round)
             .chain(iter::once(&comm_eval))
-            .map(|pt| pt.decompress().unwrap())
-            .collect(),
+            .map(|pt| pt.unpack())
+            .collect::<Result<Vec<_>, _>>()?,
         )
         .compress();
 
diff --git a/packages/Spartan-secq/src/unipoly.rs b/packages/Spartan-secq/src/unipoly.rs
index dcc3918..4ded23f 100644
--- a/packages/Spartan-secq/src/unipoly.rs
+++ b/packages/Spartan-secq/src/unipoly.rs
@@ -93,6 +93,10 @@ impl UniPoly {
 }
 
 impl CompressedUniPoly {
+  pub fn degree(&self) -> usize {
+    self.coeffs_except_linear_term.len()
+  }
+
   // we require eval(0) + eval(1) = hint, so we can solve for the linear term as:
   // linear_term = hint - 2 * constant_term - deg2 term - deg3 term
   pub fn decompress(&self, hint: &Scalar) -> UniPoly {
-- 
2.43.0


From 9130891882e688cdcdedea36c4375507f801991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:53 +0000
Subject: [PATCH 09/18] fix: reset the round-constant position at the start of
 Poseidon::hash

---
 packages/poseidon/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..744f279 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,8 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        // every hash starts with the first round constant
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From aa4a94cfd0d5b486a8871065d432396717b22234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 10/18] fix: bind the constant and the public signals of a
 circom circuit to the instance's inputs

---
 packages/circuit_reader/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..e2cf0a4 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -21,6 +21,16 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
 
+    // Wire 0 (the constant one) and the public signals, which circom numbers right after it,
+    // are not the prover's to choose: Spartan keeps them in the columns after the variables.
+    let column = |wire: usize| {
+        if wire <= num_pub_inputs {
+            num_vars + wire
+        } else {
+            wire
+        }
+    };
+
     let mut A = vec![];
     let mut B = vec![];
     let mut C = vec![];
@@ -31,17 +41,17 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         for (j, coeff) in a.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
 
-            A.push((i, *j, bytes));
+            A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            B.push((i, *j, bytes));
+            B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            C.push((i, *j, bytes));
+            C.push((i, column(*j), bytes));
         }
     }
 
-- 
2.43.0


From 61d69336fe663fb9153512367873223e47dc20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:20 +0000
Subject: [PATCH 11/18] fix: field elements are little-endian in circuit and
 witness files, big-endian in public inputs

---
 packages/circuit_reader/src/circom_reader.rs |  5 ++++-
 packages/circuit_reader/src/lib.rs           | 13 ++++++++++---
 packages/spartan_wasm/src/wasm.rs            | 18 ++++++++++++++----
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 652310d..c02dba8 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -69,9 +69,12 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
+    // The file is little-endian, the representation of the field need not be
+    if Fr::one().to_repr().as_ref().last() == Some(&1) {
+        repr.as_mut().reverse();
+    }
     Option::from(Fr::from_repr(repr))
         .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Field element is not canonical"))
 }
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index e2cf0a4..7fd3eeb 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -13,6 +13,13 @@ pub fn load_as_spartan_inst(circuit_file: PathBuf, num_pub_inputs: usize) -> Ins
     spartan_inst
 }
 
+// Spartan takes scalars in little-endian order; the representation of F is big-endian
+fn to_le_bytes<F: PrimeField<Repr = FieldBytes>>(x: &F) -> [u8; 32] {
+    let mut bytes: [u8; 32] = x.to_repr().into();
+    bytes.reverse();
+    bytes
+}
+
 fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
@@ -39,18 +46,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
 
             A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             C.push((i, column(*j), bytes));
         }
     }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..b67b48b 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -16,12 +16,19 @@ pub fn init_panic_hook() {
     console_error_panic_hook::set_once();
 }
 
+// Public inputs and scalar representations are big-endian; Spartan takes little-endian scalars
+fn reversed(bytes: &[u8]) -> [u8; 32] {
+    let mut bytes: [u8; 32] = bytes.try_into().unwrap();
+    bytes.reverse();
+    bytes
+}
+
 #[wasm_bindgen]
 pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8>, JsValue> {
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| reversed(&w.to_repr()))
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -36,7 +43,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
 
     let mut input = Vec::new();
     for i in 0..num_inputs {
-        input.push(public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap());
+        input.push(reversed(&public_inputs[(i * 32)..((i + 1) * 32)]));
     }
     let input = Assignment::new(&input).unwrap();
 
@@ -68,7 +75,7 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
 
     let mut inputs = Vec::new();
     for i in 0..num_inputs {
-        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
+        inputs.push(reversed(&public_input[(i * 32)..((i + 1) * 32)]));
     }
 
     let inputs = Assignment::new(&inputs).unwrap();
@@ -100,9 +107,12 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
+    // The file is little-endian, the representation of the field need not be
+    if Fr::one().to_repr().as_ref().last() == Some(&1) {
+        repr.as_mut().reverse();
+    }
     let fr = Fr::from_repr(repr).unwrap();
     Ok(fr)
 }
-- 
2.43.0


From 5e478d78c16470e8aac558c7e651287c664ac0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 12/18] fix: complete addition gives the point at infinity only
 for opposite points

---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..9adc070 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -100,9 +100,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From 404e4b46c9884531cd682ad702cd53fdce6d432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 13/18] fix: constrain the chord slope in complete addition
 when the points are equal

---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index 9adc070..3cdd4de 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -74,6 +74,7 @@ template Secp256k1AddComplete() {
     signal dy <== (yQ - yP) * (1 - isXEqual.out);
     signal lambdaA <-- ((yQ - yP) / dx) * (1 - isXEqual.out);
     dx * lambdaA === dy;
+    lambdaA * isXEqual.out === 0; // dx * lambdaA === dy leaves lambdaA free when xP = xQ
 
     // lambdaB = (3 * xP^2) / (2 * yP)
     signal lambdaB <-- ((3 * xPSquared) / (2 * yP));
-- 
2.43.0


From 54464c9b9b3ca646e6b8d02666a01c87d64bc7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 14/18] fix: bind the scalar's halves to the scalar and keep
 the carry in K

---
 .../secp256k1/bits.circom                     | 43 +++++++++++++++++++
 .../eff_ecdsa_membership/secp256k1/mul.circom | 29 ++++++++-----
 2 files changed, 62 insertions(+), 10 deletions(-)
 create mode 100644 packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
new file mode 100644
index 0000000..65b9cfe
--- /dev/null
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
@@ -0,0 +1,43 @@
+pragma circom 2.1.2;
+
+include "../../../../node_modules/circomlib/circuits/bitify.circom";
+include "../../../../node_modules/circomlib/circuits/comparators.circom";
+
+/**
+ *  Num2BitsCanonical
+ *  =================
+ *
+ *  The 256 bits of the canonical representative of a field element, i.e. of the
+ *  integer in [0, p) for p = 2^256 - 2^32 - 977. Num2Bits(256) alone also accepts
+ *  the bits of in + p when in < 2^32 + 977.
+ */
+template Num2BitsCanonical() {
+    signal input in;
+    signal output out[256];
+
+    component bits = Num2Bits(256);
+    bits.in <== in;
+
+    var lo = 0;
+    var hi = 0;
+    for (var i = 0; i < 256; i++) {
+        out[i] <== bits.out[i];
+        if (i < 33) {
+            lo += bits.out[i] * (2 ** i);
+        } else {
+            hi += bits.out[i] * (2 ** (i - 33));
+        }
+    }
+
+    // bits >= p  iff  the upper 223 bits are all one and the lower 33 bits are
+    // at least 2^33 - 2^32 - 977
+    component hiOnes = IsEqual();
+    hiOnes.in[0] <== hi;
+    hiOnes.in[1] <== 2 ** 223 - 1;
+
+    component loBig = GreaterEqThan(33);
+    loBig.in[0] <== lo;
+    loBig.in[1] <== 2 ** 33 - 2 ** 32 - 977;
+
+    hiOnes.out * loBig.out === 0;
+}
diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..92de35a 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -2,6 +2,7 @@ pragma circom 2.1.2;
 
 include "./add.circom";
 include "./double.circom";
+include "./bits.circom";
 include "../../../../node_modules/circomlib/circuits/bitify.circom";
 include "../../../../node_modules/circomlib/circuits/comparators.circom";
 include "../../../../node_modules/circomlib/circuits/gates.circom";
@@ -120,8 +121,16 @@ template K() {
     var tQ = 115792089237316195423570985008687907852405143892509244725752742275123193348738; // (q - 2^256) % q;
     var tQlo = tQ & (2 ** (128) - 1);
     var tQhi = tQ >> 128;
-    signal slo <-- s & (2 ** (128) - 1);
-    signal shi <-- s >> 128;
+    component sBits = Num2BitsCanonical();
+    sBits.in <== s;
+    var sloSum = 0;
+    var shiSum = 0;
+    for (var i = 0; i < 128; i++) {
+        sloSum += sBits.out[i] * (2 ** i);
+        shiSum += sBits.out[i + 128] * (2 ** i);
+    }
+    signal slo <== sloSum;
+    signal shi <== shiSum;
 
     // Get carry bit of (slo + tQlo)
 
@@ -164,23 +173,23 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < blo
     component theta = GreaterThan(129);
-    theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[0] <== blo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < blo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * blo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * bhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From 04c25450e59df4980f1d1dcb8f0e3472f65c0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 15/18] fix: decompose public key coordinates canonically
 before hashing to an address

---
 .../circuits/eff_ecdsa_membership/addr_membership.circom     | 5 +++--
 .../circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/addr_membership.circom b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
index b4d9f27..8d4957f 100644
--- a/packages/circuits/eff_ecdsa_membership/addr_membership.circom
+++ b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./tree.circom";
 include "./to_address/zk-identity/eth.circom";
 
@@ -32,10 +33,10 @@ template AddrMembership(nLevels) {
     effEcdsa.Uy <== Uy;
     effEcdsa.s <== s;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = Num2BitsCanonical();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = Num2BitsCanonical();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
index 0c54599..c979476 100644
--- a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
+++ b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./to_address/zk-identity/eth.circom";
 
 /**
@@ -25,10 +26,10 @@ template EfficientECDSAToAddr() {
     effEcdsa.Ux <== Ux;
     effEcdsa.Uy <== Uy;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = Num2BitsCanonical();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = Num2BitsCanonical();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
-- 
2.43.0


From 3418e0b9dc12c1bcfafb7f62c14a3433a019f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:02 +0000
Subject: [PATCH 16/18] fix: SNARK verifier requires one address and timestamp
 claim per matrix

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..0d0c7a2 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -908,6 +908,17 @@ impl HashLayerProof {
 
     let (rand_mem, rand_ops) = rand;
 
+    // each list must hold one entry per instance; otherwise, checks below would be skipped
+    let num_instances = claims_dotp.len() / 3;
+    if self.eval_row.0.len() != num_instances
+      || self.eval_row.1.len() != num_instances
+      || self.eval_col.0.len() != num_instances
+      || self.eval_col.1.len() != num_instances
+      || self.eval_val.len() != num_instances
+    {
+      return Err(ProofVerifyError::InternalError);
+    }
+
     // verify derefs at rand_ops
     let (eval_row_ops_val, eval_col_ops_val) = &self.eval_derefs;
     assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-- 
2.43.0


From f9f1a2d2ad2ea30848015eeec487cfb2147a4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:42 +0000
Subject: [PATCH 17/18] fix: SNARK pads matrices to at least two entries

SNARK::prove panicked for a satisfied instance whose matrices all hold at
most one non-zero entry: the product circuits over the entries need two
leaves.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 0d0c7a2..e6a9ec0 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -297,15 +297,16 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
+    let num_entries_padded = SparseMatPolynomial::num_padded_entries(num_nz_entries);
     let num_vars_ops =
-      num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
+      num_entries_padded.log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
       num_vars_x
     } else {
       num_vars_y
     } + 1;
     let num_vars_derefs =
-      num_nz_entries.next_power_of_two().log_2() + (batch_size * 2).next_power_of_two().log_2();
+      num_entries_padded.log_2() + (batch_size * 2).next_power_of_two().log_2();
 
     let gens_ops = PolyCommitmentGens::new(num_vars_ops, label);
     let gens_mem = PolyCommitmentGens::new(num_vars_mem, label);
@@ -350,8 +351,13 @@ impl SparseMatPolynomial {
     }
   }
 
+  // the product circuits over the entries need at least two leaves
+  fn num_padded_entries(num_nz_entries: usize) -> usize {
+    num_nz_entries.next_power_of_two().max(2)
+  }
+
   pub fn get_num_nz_entries(&self) -> usize {
-    self.M.len().next_power_of_two()
+    SparseMatPolynomial::num_padded_entries(self.M.len())
   }
 
   fn sparse_to_dense_vecs(&self, N: usize) -> (Vec<usize>, Vec<usize>, Vec<Scalar>) {
-- 
2.43.0


From 2a17ff57c3da4c694da8a3feb005763e6308b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:48 +0000
Subject: [PATCH 18/18] fix: SNARK verifier requires as many right as left
 inner product halves

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index e6a9ec0..4c01578 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1285,7 +1285,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
-- 
2.43.0

