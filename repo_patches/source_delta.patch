From 46f29f3ad524e1d5e17f0034cabe857231bd74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 01/26] fix: serialize secq256k1 base field elements by value

Serialize wrote the five Montgomery limbs, Deserialize reads 32 little-endian
bytes of the value, so an element did not survive a round trip.
---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 packages/secq256k1/src/field/field_secq.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..9f7cafb 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..d5433df 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
-- 
2.43.0


From c5ae5c8c13e13ed927d36ecccef2f88b99c42508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 02/26] fix: secp base field sqrt returns None for non-residues

The candidate root was returned without checking that it squares back, so
every non-residue got a wrong square root.
---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 9f7cafb..5ecd9c1 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -395,7 +395,7 @@ impl Field for FieldElement {
         let res = x223.pow2k(23).mul(&x22).pow2k(6).mul(&x2).pow2k(2);
 
         // Only return Some if it's the square root.
-        CtOption::new(res, Choice::from(1))
+        CtOption::new(res, res.square().ct_eq(self))
     }
 
     fn is_zero_vartime(&self) -> bool {
-- 
2.43.0


From ba219a98a717f63434c3c56c8c6924db9cbfba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 03/26] fix: constants secq256k1's scalar and base fields
 expose to generic code

The scalar field carried the two-adicity and root of unity of another curve and
its modulus bits in big-endian byte order; the base field's two-adicity did not
match its root of unity.
---
 packages/secq256k1/src/field/field_secq.rs |  2 +-
 packages/secq256k1/src/scalar.rs           | 13 ++++---------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index d5433df..eda2de4 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -467,7 +467,7 @@ impl PrimeField for FieldElement {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 1;
+    const S: u32 = 6;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         Self::from_sec1(bytes)
diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..c8f000b 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -7,7 +7,6 @@ use ff::{Field, PrimeField, PrimeFieldBits};
 use k256::elliptic_curve::bigint::Encoding;
 use primeorder::elliptic_curve::{
     bigint::{Limb, U256},
-    generic_array::arr,
     ops::Reduce,
     rand_core::RngCore,
     subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
@@ -73,7 +72,7 @@ impl PrimeField for Scalar {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 4;
+    const S: u32 = 1;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         ScalarCore::from_be_bytes(bytes).map(Self)
@@ -92,12 +91,8 @@ impl PrimeField for Scalar {
     }
 
     fn root_of_unity() -> Self {
-        Self::from_repr(arr![u8;
-            0xff, 0xc9, 0x7f, 0x06, 0x2a, 0x77, 0x09, 0x92, 0xba, 0x80, 0x7a, 0xce, 0x84, 0x2a,
-            0x3d, 0xfc, 0x15, 0x46, 0xca, 0xd0, 0x04, 0x37, 0x8d, 0xaf, 0x05, 0x92, 0xd7, 0xfb,
-            0xb4, 0x1e, 0x66, 0x02,
-        ])
-        .unwrap()
+        // -1, as the order minus one is divisible by two only once
+        Self(ScalarCore::ONE.neg())
     }
 }
 
@@ -310,7 +305,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From 92d30f0492454c72d37e1b3fe2f6a7b683f43c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 04/26] hook: expose Spartan's internal modules under
 cfg(verif_hooks)

---
 packages/Spartan-secq/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..42c80fb 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -1,6 +1,6 @@
 #![allow(non_snake_case)]
 #![doc = include_str!("../README.md")]
-#![deny(missing_docs)]
+#![cfg_attr(not(verif_hooks), deny(missing_docs))]
 #![allow(clippy::assertions_on_result_states)]
 
 extern crate byteorder;
@@ -30,6 +30,16 @@ mod timer;
 mod transcript;
 mod unipoly;
 
+/// The crate's internal layers, for verification harnesses (built only with `--cfg verif_hooks`)
+#[cfg(verif_hooks)]
+pub mod verif {
+  macro_rules! expose {
+    ($($m:ident)*) => { $(pub mod $m { pub use crate::$m::*; })* };
+  }
+  expose!(commitments dense_mlpoly errors group math nizk product_tree r1csinstance r1csproof);
+  expose!(random scalar sparse_mlpoly sumcheck transcript unipoly);
+}
+
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
 use merlin::Transcript;
-- 
2.43.0


From 54f24443d755cbfa011630db93f67b12c747bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 05/26] fix: pad an instance without constraints to two
 constraints

The second padding step started over from num_cons and reduced the two
padded constraints to one, so there was no sum-check round and the
prover aborted.
---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 42c80fb..61fd539 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -161,8 +161,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From 3e771120e6b8bbc435e17fed2340a88e3a7d2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/26] fix: commit to matrices with at most one entry with
 preprocessing

Such a matrix was committed with a single entry, which the product
circuits and the commitment parameters cannot handle.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..7eb62ea 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -297,6 +297,8 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
+    // a matrix is committed with at least two (possibly zero) entries
+    let num_nz_entries = core::cmp::max(num_nz_entries, 2);
     let num_vars_ops =
       num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
@@ -351,7 +353,8 @@ impl SparseMatPolynomial {
   }
 
   pub fn get_num_nz_entries(&self) -> usize {
-    self.M.len().next_power_of_two()
+    // the product circuits need at least two entries
+    core::cmp::max(self.M.len(), 2).next_power_of_two()
   }
 
   fn sparse_to_dense_vecs(&self, N: usize) -> (Vec<usize>, Vec<usize>, Vec<Scalar>) {
-- 
2.43.0


From 4c1436a0195a25a041de5cc9e081e646ab0e3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 07/26] fix: SNARK parameters for an instance without
 constraints

SNARKGens::new aborted on num_cons = 0 although Instance pads such an
instance to two constraints.
---
 packages/Spartan-secq/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 61fd539..806544f 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -307,7 +307,7 @@ impl SNARKGens {
     let gens_r1cs_sat = R1CSGens::new(b"gens_r1cs_sat", num_cons, num_vars_padded);
     let gens_r1cs_eval = R1CSCommitmentGens::new(
       b"gens_r1cs_eval",
-      num_cons,
+      max(num_cons, 2), // an instance is padded to at least two constraints
       num_vars_padded,
       num_inputs,
       num_nz_entries,
-- 
2.43.0


From 169c1867b1a98e64bc2ae15e13cc9a07ed5ce673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 08/26] fix: refuse a committed sum-check proof with surplus
 round proofs

Dot-product proofs beyond the number of rounds were ignored, so a proof
could be altered and still be accepted.
---
 packages/Spartan-secq/src/sumcheck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From a5e8f07989cb8261d044d7007f5f2d8e18faa559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 09/26] fix: refuse a product-layer proof with surplus
 dot-product claims

Surplus claims were ignored, so a proof could be altered and still be
accepted; the length check of the evaluation claims compared the left
vector with itself.
---
 packages/Spartan-secq/src/product_tree.rs  | 3 +++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..c53abbb 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -436,6 +436,9 @@ impl ProductCircuitEvalProofBatched {
       if i == num_layers - 1 {
         let num_prod_instances = claims_prod_vec.len();
         let (claims_dotp_left, claims_dotp_right, claims_dotp_weight) = &self.claims_dotp;
+        assert_eq!(claims_dotp_left.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_right.len(), claims_dotp_vec.len());
+        assert_eq!(claims_dotp_weight.len(), claims_dotp_vec.len());
         for i in 0..claims_dotp_left.len() {
           transcript.append_scalar(b"claim_dotp_left", &claims_dotp_left[i]);
           transcript.append_scalar(b"claim_dotp_right", &claims_dotp_right[i]);
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 7eb62ea..a97fbb6 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1271,8 +1271,8 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
+    assert_eq!(eval_dotp_right.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
       assert_eq!(eval_dotp_left[i] + eval_dotp_right[i], eval[i]);
-- 
2.43.0


From 899c1a3625b6b213b301f6d5a66dd8e18fb86101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/26] fix: check every read and write of the memory-checking
 argument

The prover chose how many of the read and write claims the hash layer
checks: addresses moved into the list of read timestamps leave the
combined opening unchanged but skip their checks, which lets a prover
claim wrong evaluations of a committed instance.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index a97fbb6..0663915 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -859,6 +859,12 @@ impl HashLayerProof {
     let (rand_mem, _rand_ops) = rand;
     let (claim_init, claim_read, claim_write, claim_audit) = claims;
 
+    // every read and write claim must be checked
+    assert_eq!(eval_ops_addr.len(), claim_read.len());
+    assert_eq!(eval_ops_addr.len(), claim_write.len());
+    assert_eq!(eval_ops_addr.len(), eval_ops_val.len());
+    assert_eq!(eval_ops_addr.len(), eval_read_ts.len());
+
     // init
     let eval_init_addr = IdentityPolynomial::new(rand_mem.len()).evaluate(rand_mem);
     let eval_init_val = EqPolynomial::new(r.to_vec()).evaluate(rand_mem);
@@ -926,6 +932,7 @@ impl HashLayerProof {
     // verify the decommitments used in evaluation sum-check
     let eval_val_vec = &self.eval_val;
     assert_eq!(claims_dotp.len(), 3 * eval_row_ops_val.len());
+    assert_eq!(claims_dotp.len(), 3 * eval_val_vec.len());
     for i in 0..claims_dotp.len() / 3 {
       let claim_row_ops_val = claims_dotp[3 * i];
       let claim_col_ops_val = claims_dotp[3 * i + 1];
-- 
2.43.0


From 7e460936a941c74effd101843d394555b1aa2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 11/26] fix: refuse a multi-scalar multiplication with unequal
 lengths

A bullet reduction proof with a surplus element in R_vec moved the commitment
under verification out of the sum, so any claimed value could be opened; surplus
shares of a polynomial commitment were ignored.
---
 packages/Spartan-secq/src/group.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..dcc0891 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -106,6 +106,9 @@ impl VartimeMultiscalarMul for GroupElement {
   type Scalar = super::scalar::Scalar;
   // TODO Borrow the arguments so we don't have to clone them, as it was in the original implementation
   fn vartime_multiscalar_mul(scalars: Vec<Scalar>, points: Vec<GroupElement>) -> Self {
+    // a surplus scalar or point would silently drop out of the sum
+    assert_eq!(scalars.len(), points.len());
+
     let points: Vec<ProjectivePoint> = points.iter().map(|p| ProjectivePoint::from(p.0)).collect();
 
     let pairs: Vec<(ScalarBytes, ProjectivePoint)> = scalars
-- 
2.43.0


From 20a6f3052248e833265f8e2a7e7c3e2f7c7ea9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:25 +0000
Subject: [PATCH 12/26] fix: circuit and witness values are little-endian field
 elements

The readers put the little-endian bytes of a value into the big-endian
representation of the field: they returned other elements and refused
canonical values whose reversed bytes exceed the modulus.
---
 packages/circuit_reader/src/circom_reader.rs | 25 ++++++++++++++++----
 packages/circuit_reader/src/lib.rs           |  8 +++----
 packages/spartan_wasm/src/wasm.rs            |  9 +++----
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..323177d 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -68,12 +68,27 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
-        *digit = reader.read_u8()?;
+    reader.read_exact(repr.as_mut())?;
+    // The file is little-endian, whatever the representation of the field is.
+    if is_big_endian::<Fr>() {
+        repr.as_mut().reverse();
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Not a canonical field element"))
+}
+
+/// Whether the representation of the field lists the most significant byte first.
+fn is_big_endian<Fr: PrimeField>() -> bool {
+    Fr::one().to_repr().as_ref()[0] == 0
+}
+
+/// The little-endian bytes of a field element.
+pub(crate) fn to_le_bytes<Fr: PrimeField>(value: &Fr) -> Vec<u8> {
+    let mut bytes = value.to_repr().as_ref().to_vec();
+    if is_big_endian::<Fr>() {
+        bytes.reverse();
+    }
+    bytes
 }
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..a9bfa8d 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -1,6 +1,6 @@
 mod circom_reader;
 
-use circom_reader::{load_r1cs_from_bin_file, R1CS};
+use circom_reader::{load_r1cs_from_bin_file, to_le_bytes, R1CS};
 use ff::PrimeField;
 use libspartan::Instance;
 use secq256k1::AffinePoint;
@@ -29,18 +29,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes: [u8; 32] = to_le_bytes(coeff).try_into().unwrap();
 
             A.push((i, *j, bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes: [u8; 32] = to_le_bytes(coeff).try_into().unwrap();
             B.push((i, *j, bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes: [u8; 32] = to_le_bytes(coeff).try_into().unwrap();
             C.push((i, *j, bytes));
         }
     }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..4976cf2 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -21,7 +21,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| w.to_bytes())
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -99,9 +99,10 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
-    for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
-        *digit = reader.read_u8()?;
+    reader.read_exact(repr.as_mut())?;
+    // The file is little-endian, whatever the representation of the field is.
+    if Fr::one().to_repr().as_ref()[0] == 0 {
+        repr.as_mut().reverse();
     }
     let fr = Fr::from_repr(repr).unwrap();
     Ok(fr)
-- 
2.43.0


From 526a59040e5344698d9b6f3cd9d227b637fc851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 13/26] fix: refuse malformed circuit and witness files

Sections that exceed the file or whose size does not match their content,
files over another field, wires that do not exist, and header counts that
do not fit were accepted or misread.
---
 packages/circuit_reader/src/circom_reader.rs | 85 ++++++++++++++------
 packages/spartan_wasm/src/wasm.rs            | 16 ++--
 2 files changed, 70 insertions(+), 31 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 323177d..aa73cde 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -1,6 +1,6 @@
 // Code borrowed from Nova-Scotia https://github.com/nalinbhardwaj/Nova-Scotia
 use byteorder::{LittleEndian, ReadBytesExt};
-use ff::PrimeField;
+use ff::{Field, PrimeField};
 use group::Group;
 use itertools::Itertools;
 use std::{
@@ -52,9 +52,11 @@ pub fn load_r1cs_from_bin_file<G1: Group>(filename: &Path) -> (R1CS<G1::Scalar>,
 
 pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Scalar>, Vec<usize>) {
     let file = from_reader::<G1, R>(reader).expect("unable to read.");
-    let num_inputs = (1 + file.header.n_pub_in + file.header.n_pub_out) as usize;
+    let num_inputs = 1 + file.header.n_pub_in as usize + file.header.n_pub_out as usize;
     let num_variables = file.header.n_wires as usize;
-    let num_aux = num_variables - num_inputs;
+    let num_aux = num_variables
+        .checked_sub(num_inputs)
+        .expect("more public wires than wires");
     (
         R1CS {
             num_aux,
@@ -93,6 +95,12 @@ pub(crate) fn to_le_bytes<Fr: PrimeField>(value: &Fr) -> Vec<u8> {
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
+    if field_size != 32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-byte fields",
+        ));
+    }
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
@@ -114,29 +122,40 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     })
 }
 
-fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
+fn read_constraint_vec<R: Read, Fr: PrimeField>(
+    mut reader: R,
+    header: &Header,
+) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
-        vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
-            read_field::<&mut R, Fr>(&mut reader)?,
-        ));
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= header.n_wires {
+            return Err(Error::new(ErrorKind::InvalidData, "No such wire"));
+        }
+        vec.push((wire as usize, read_field::<&mut R, Fr>(&mut reader)?));
     }
     Ok(vec)
 }
 
 fn read_constraints<R: Read, Fr: PrimeField>(
-    mut reader: R,
+    reader: R,
+    size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
-    // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut reader = reader.take(size);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
+            read_constraint_vec(&mut reader, header)?,
+            read_constraint_vec(&mut reader, header)?,
+            read_constraint_vec(&mut reader, header)?,
+        ));
+    }
+    if reader.limit() != 0 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Invalid constraint section size",
         ));
     }
     Ok(vec)
@@ -149,11 +168,11 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
             "Invalid map section size",
         ));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
-    if vec[0] != 0 {
+    if vec.first() != Some(&0) {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Wire 0 should always be mapped to 0",
@@ -177,6 +196,13 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
 
     let num_sections = reader.read_u32::<LittleEndian>()?;
 
+    let file_size = {
+        let position = reader.seek(SeekFrom::Current(0))?;
+        let end = reader.seek(SeekFrom::End(0))?;
+        reader.seek(SeekFrom::Start(position))?;
+        end
+    };
+
     // section type -> file offset
     let mut section_offsets = HashMap::<u32, u64>::new();
     let mut section_sizes = HashMap::<u32, u64>::new();
@@ -186,6 +212,12 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.seek(SeekFrom::Current(0))?;
+        if section_size > file_size.saturating_sub(offset) {
+            return Err(Error::new(
+                ErrorKind::UnexpectedEof,
+                "Section exceeds the file",
+            ));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
         reader.seek(SeekFrom::Current(section_size as i64))?;
@@ -197,20 +229,21 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&header_type).unwrap()))?;
     let header = read_header(&mut reader, *section_sizes.get(&header_type).unwrap())?;
-    if header.field_size != 32 {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-byte fields",
-        ));
+    // The largest field element is even and one less than the modulus.
+    let mut modulus = to_le_bytes(&-<G1 as Group>::Scalar::one());
+    modulus[0] |= 1;
+    if header.prime_size != modulus {
+        return Err(Error::new(ErrorKind::InvalidData, "Unsupported field"));
     }
-    // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
-    //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
-    // }
 
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&constraint_type).unwrap(),
     ))?;
-    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(&mut reader, &header)?;
+    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(
+        &mut reader,
+        *section_sizes.get(&constraint_type).unwrap(),
+        &header,
+    )?;
 
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&wire2label_type).unwrap(),
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 4976cf2..42abef2 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -141,9 +141,15 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    // if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
-    //     bail!("invalid curve prime {:?}", prime);
-    // }
+    // The largest field element is even and one less than the modulus.
+    let mut modulus = (-Fr::one()).to_repr();
+    if Fr::one().to_repr().as_ref()[0] == 0 {
+        modulus.as_mut().reverse();
+    }
+    modulus.as_mut()[0] |= 1;
+    if prime != modulus.as_ref() {
+        panic!("invalid curve prime {:?}", prime);
+    }
     let witness_len = reader.read_u32::<LittleEndian>()?;
     // println!("witness len {}", witness_len);
     let sec_type = reader.read_u32::<LittleEndian>()?;
@@ -151,10 +157,10 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
         panic!("invalid section type");
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         panic!("invalid witness section size {}", sec_size);
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         result.push(read_field::<&mut R, Fr>(&mut reader)?);
     }
-- 
2.43.0


From 367c6ff25593babec8382e95f5673fa70e585639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:18 +0000
Subject: [PATCH 14/26] fix: bind the constant and public wires of a converted
 circuit

Every wire became a hidden variable: the constant wire could have any
value and the public inputs occurred in no constraint.
---
 packages/circuit_reader/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index a9bfa8d..7209480 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -17,9 +17,11 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
 ) -> Instance {
-    let num_cons = r1cs.constraints.len();
+    // One constraint per public wire, and one for the constant wire, bind them
+    let num_cons = r1cs.constraints.len() + 1 + num_pub_inputs;
     let num_vars = r1cs.num_variables;
     let num_inputs = num_pub_inputs;
+    assert!(num_pub_inputs < num_vars, "more public inputs than wires");
 
     let mut A = vec![];
     let mut B = vec![];
@@ -45,6 +47,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         }
     }
 
+    // Wire 0 is the constant one and wires 1 to num_pub_inputs are the inputs. The variables
+    // hold the whole witness, and are followed by the constant one and the inputs:
+    // wire j times one is the entry at num_vars + j.
+    let mut one = [0u8; 32];
+    one[0] = 1;
+    for j in 0..=num_pub_inputs {
+        let row = r1cs.constraints.len() + j;
+        A.push((row, j, one));
+        B.push((row, num_vars, one));
+        C.push((row, num_vars + j, one));
+    }
+
     let inst = Instance::new(
         num_cons,
         num_vars,
-- 
2.43.0


From 709f01a496ac77c27416bea6ab255df64fcb06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:18 +0000
Subject: [PATCH 15/26] fix: read public inputs as the big-endian words callers
 pass

They were read as little-endian, and bytes after the last input were
ignored.
---
 packages/spartan_wasm/src/wasm.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 42abef2..9f04b8e 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -34,11 +34,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut input = Vec::new();
-    for i in 0..num_inputs {
-        input.push(public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-    let input = Assignment::new(&input).unwrap();
+    let input = load_public_inputs(public_inputs, num_inputs);
 
     let mut prover_transcript = Transcript::new(b"nizk_example");
 
@@ -66,12 +62,7 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut inputs = Vec::new();
-    for i in 0..num_inputs {
-        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-
-    let inputs = Assignment::new(&inputs).unwrap();
+    let inputs = load_public_inputs(public_input, num_inputs);
 
     let mut verifier_transcript = Transcript::new(b"nizk_example");
 
@@ -82,6 +73,20 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     Ok(verified)
 }
 
+// Public inputs are big-endian 32-byte words
+fn load_public_inputs(bytes: &[u8], num_inputs: usize) -> Assignment {
+    assert_eq!(bytes.len(), num_inputs * 32);
+    let inputs = bytes
+        .chunks(32)
+        .map(|word| {
+            let mut word: [u8; 32] = word.try_into().unwrap();
+            word.reverse();
+            word
+        })
+        .collect::<Vec<_>>();
+    Assignment::new(&inputs).unwrap()
+}
+
 #[wasm_bindgen]
 pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
     assert_eq!(input_bytes.len(), 64);
-- 
2.43.0


From b85736d09d3d154363bf631f43a1e288e58882d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 16/26] fix: refuse serialized scalars that are not canonical

Reading a scalar reduced values above the modulus, ignored the length and
panicked when bytes were missing, so that one proof had many encodings.
---
 packages/Spartan-secq/src/scalar/scalar.rs | 23 +++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..cf1ec81 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -11,7 +11,7 @@ use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use hex_literal::hex;
 use num_bigint_dig::{BigUint, ModInverse};
 use rand_core::{CryptoRng, RngCore};
-use serde::de::Visitor;
+use serde::de::{Error as _, Visitor};
 use serde::{Deserialize, Serialize};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 use zeroize::Zeroize;
@@ -222,24 +222,25 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
   type Value = Scalar;
 
   fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-    formatter.write_str("a sequence of 4 u64 values")
+    formatter.write_str("the 32 little-endian bytes of a canonical scalar")
   }
 
   fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
   where
     A: serde::de::SeqAccess<'de>,
   {
-    let mut result = [0u64; 4];
-
-    for i in 0..4 {
-      let mut val: u64 = 0;
-      for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-      }
-      result[i] = val;
+    let mut bytes = [0u8; 32];
+    for (i, byte) in bytes.iter_mut().enumerate() {
+      *byte = seq
+        .next_element()?
+        .ok_or_else(|| A::Error::invalid_length(i, &self))?;
+    }
+    if seq.next_element::<u8>()?.is_some() {
+      return Err(A::Error::invalid_length(33, &self));
     }
 
-    Ok(Scalar::from_raw(result))
+    Option::from(Scalar::from_bytes(&bytes))
+      .ok_or_else(|| A::Error::custom("the scalar is not canonical"))
   }
 }
 
-- 
2.43.0


From 1042d9955b09f170e555f0fb7b59f3afe41311b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 17/26] fix: let one Poseidon instance hash more than once

---
 packages/poseidon/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..0a9b0e3 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,8 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        // Start over from the first round constants, also when this instance has hashed before
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From 46b8ea06ebe5bd5b06b8db4d5d6adf64507cff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 18/26] fix: refuse to serialize values that do not fit

---
 packages/lib/src/helpers/utils.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 60f7c97..00977af 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -51,6 +51,9 @@ export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
 };
 
 export const bigIntToBytes = (n: bigint, size: number): Uint8Array => {
+  if (n < BigInt(0) || n >= BigInt(1) << BigInt(8 * size)) {
+    throw new RangeError(`Value doesn't fit in ${size} bytes`);
+  }
   const hex = n.toString(16);
   const hexPadded = hex.padStart(size * 2, "0");
   return Buffer.from(hexPadded, "hex");
-- 
2.43.0


From 4166f92d70407281b1ad27541bfb94e5c92c8349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 19/26] fix: refuse circuit public inputs of a wrong length

---
 packages/lib/src/helpers/publicInputs.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/lib/src/helpers/publicInputs.ts b/packages/lib/src/helpers/publicInputs.ts
index cc094ef..fc125f9 100644
--- a/packages/lib/src/helpers/publicInputs.ts
+++ b/packages/lib/src/helpers/publicInputs.ts
@@ -50,6 +50,10 @@ export class CircuitPubInput {
   }
 
   static deserialize(serialized: Uint8Array): CircuitPubInput {
+    if (serialized.length !== 32 * 5) {
+      throw new RangeError("Invalid length of the circuit public input");
+    }
+
     const merkleRoot = bytesToBigInt(serialized.slice(0, 32));
     const Tx = bytesToBigInt(serialized.slice(32, 64));
     const Ty = bytesToBigInt(serialized.slice(64, 96));
-- 
2.43.0


From 16e0aae9885c4edae1191c5a4baab41b1353e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 20/26] fix: refuse an r that no signature can have

---
 packages/lib/src/helpers/publicInputs.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/lib/src/helpers/publicInputs.ts b/packages/lib/src/helpers/publicInputs.ts
index fc125f9..492c125 100644
--- a/packages/lib/src/helpers/publicInputs.ts
+++ b/packages/lib/src/helpers/publicInputs.ts
@@ -120,6 +120,11 @@ export const computeEffEcdsaPubInput = (
   v: bigint,
   msgHash: Buffer
 ): EffECDSAPubInput => {
+  // r of a signature is in the range [1, n - 1]
+  if (r < BigInt(1) || new BN(r).gte(SECP256K1_N)) {
+    throw new RangeError("r is out of range");
+  }
+
   const isYOdd = (v - BigInt(27)) % BigInt(2);
   const rPoint = ec.keyFromPublic(
     ec.curve.pointFromX(new BN(r), isYOdd).encode("hex"),
-- 
2.43.0


From 932a7fb312a0a2dd5244e4302097ad7e35b84de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 21/26] fix: let the verifier answer false on malformed public
 inputs

---
 packages/lib/src/core/verifier.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/lib/src/core/verifier.ts b/packages/lib/src/core/verifier.ts
index b891fd7..b23c086 100644
--- a/packages/lib/src/core/verifier.ts
+++ b/packages/lib/src/core/verifier.ts
@@ -49,9 +49,17 @@ export class MembershipVerifier extends Profiler implements IVerifier {
     this.timeEnd("Load circuit");
 
     this.time("Verify public input");
-    const publicInput = PublicInput.deserialize(publicInputSer);
-    const isPubInputValid = verifyEffEcdsaPubInput(publicInput);
-    this.timeEnd("Verify public input");
+    let publicInput: PublicInput;
+    let isPubInputValid;
+    try {
+      publicInput = PublicInput.deserialize(publicInputSer);
+      isPubInputValid = verifyEffEcdsaPubInput(publicInput);
+    } catch (_e) {
+      // Malformed, or no point of the curve has the given r as coordinate
+      return false;
+    } finally {
+      this.timeEnd("Verify public input");
+    }
 
     this.time("Verify proof");
     let isProofValid;
-- 
2.43.0


From eee6f7306fd1cb6531053fe6369ec7de5e92c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:01 +0000
Subject: [PATCH 22/26] fix: determine lambdaA when doubling in
 Secp256k1AddComplete

With xP = xQ the only constraint on lambdaA was 0 * lambdaA === 0, so a
prover could choose the slope and with it the sum.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..7d46644 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -74,6 +74,8 @@ template Secp256k1AddComplete() {
     signal dy <== (yQ - yP) * (1 - isXEqual.out);
     signal lambdaA <-- ((yQ - yP) / dx) * (1 - isXEqual.out);
     dx * lambdaA === dy;
+    // When dx = 0, the above holds for any lambdaA
+    isXEqual.out * lambdaA === 0;
 
     // lambdaB = (3 * xP^2) / (2 * yP)
     signal lambdaB <-- ((3 * xPSquared) / (2 * yP));
-- 
2.43.0


From 95c5b55b92cc33dc47e25a83df50e7c283f555d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:01 +0000
Subject: [PATCH 23/26] fix: zero the sum only for opposite points in
 Secp256k1AddComplete

zeroizeA compared isXEqual with 1 - (yP + yQ), which also agree when
xP != xQ and yP + yQ = 1; the sum of such points came out as (0, 0).
---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index 7d46644..e143ffa 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -102,9 +102,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From f39d26191dcda327d6e49a5625436410ffbdcfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 24/26] fix: constrain the scalar decomposition in K

slo and shi were assigned but not constrained, and the halves of k were
decomposed into 256 bits of which 128 are used, so a prover could multiply
by another scalar. The carry of the low halves was missing from khi (and
added to klo instead), which gave wrong bits for some scalars.
---
 .../secp256k1/bits.circom                     | 46 +++++++++++++++++++
 .../eff_ecdsa_membership/secp256k1/mul.circom | 31 +++++++------
 2 files changed, 64 insertions(+), 13 deletions(-)
 create mode 100644 packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
new file mode 100644
index 0000000..d2e888e
--- /dev/null
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/bits.circom
@@ -0,0 +1,46 @@
+pragma circom 2.1.2;
+
+include "../../../../node_modules/circomlib/circuits/bitify.circom";
+include "../../../../node_modules/circomlib/circuits/comparators.circom";
+
+/**
+ *  CanonicalBits
+ *  =============
+ *
+ *  Outputs the bits of the integer in [0, p) that the field element denotes.
+ *  Num2Bits(256) alone does not do so: p = 2^256 - 0x1000003d1 is smaller than
+ *  2^256, so values below 0x1000003d1 have two 256-bit decompositions, in and
+ *  in + p. The latter are those in which the upper 223 bits are all ones and the
+ *  lower 33 bits are at least 2^33 - 0x1000003d1, as in p.
+ */
+template CanonicalBits() {
+    signal input in;
+    signal output out[256];
+
+    component bits = Num2Bits(256);
+    bits.in <== in;
+
+    component lower = Bits2Num(33);
+    for (var i = 0; i < 33; i++) {
+        lower.in[i] <== bits.out[i];
+    }
+
+    var upperOnes = 0;
+    for (var i = 33; i < 256; i++) {
+        upperOnes += bits.out[i];
+    }
+
+    component isUpperAllOnes = IsEqual();
+    isUpperAllOnes.in[0] <== upperOnes;
+    isUpperAllOnes.in[1] <== 223;
+
+    component isLowerTooLarge = GreaterEqThan(33);
+    isLowerTooLarge.in[0] <== lower.out;
+    isLowerTooLarge.in[1] <== (2 ** 33) - 0x1000003d1;
+
+    isUpperAllOnes.out * isLowerTooLarge.out === 0;
+
+    for (var i = 0; i < 256; i++) {
+        out[i] <== bits.out[i];
+    }
+}
diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..d68ae72 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./add.circom";
+include "./bits.circom";
 include "./double.circom";
 include "../../../../node_modules/circomlib/circuits/bitify.circom";
 include "../../../../node_modules/circomlib/circuits/comparators.circom";
@@ -120,8 +121,17 @@ template K() {
     var tQ = 115792089237316195423570985008687907852405143892509244725752742275123193348738; // (q - 2^256) % q;
     var tQlo = tQ & (2 ** (128) - 1);
     var tQhi = tQ >> 128;
-    signal slo <-- s & (2 ** (128) - 1);
-    signal shi <-- s >> 128;
+    component sBits = CanonicalBits();
+    sBits.in <== s;
+
+    component sloBits = Bits2Num(128);
+    component shiBits = Bits2Num(128);
+    for (var i = 0; i < 128; i++) {
+        sloBits.in[i] <== sBits.out[i];
+        shiBits.in[i] <== sBits.out[i + 128];
+    }
+    signal slo <== sloBits.out;
+    signal shi <== shiBits.out;
 
     // Get carry bit of (slo + tQlo)
 
@@ -164,23 +174,18 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
-    component theta = GreaterThan(129);
-    theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
-
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
-    borrow.a <== theta.out;
+    borrow.a <== 1 - gamma.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From bc054b346cef09cdd742fa2de7fb94cc2bbd3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 25/26] fix: hash the canonical coordinates of the public key

Num2Bits(256) has two solutions for coordinates below 2^256 - p, hence
two addresses.
---
 .../circuits/eff_ecdsa_membership/addr_membership.circom     | 5 +++--
 .../circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/addr_membership.circom b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
index b4d9f27..be80ac3 100644
--- a/packages/circuits/eff_ecdsa_membership/addr_membership.circom
+++ b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./tree.circom";
 include "./to_address/zk-identity/eth.circom";
 
@@ -32,10 +33,10 @@ template AddrMembership(nLevels) {
     effEcdsa.Uy <== Uy;
     effEcdsa.s <== s;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = CanonicalBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = CanonicalBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
index 0c54599..f40a174 100644
--- a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
+++ b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
@@ -1,6 +1,7 @@
 pragma circom 2.1.2;
 
 include "./eff_ecdsa.circom";
+include "./secp256k1/bits.circom";
 include "./to_address/zk-identity/eth.circom";
 
 /**
@@ -25,10 +26,10 @@ template EfficientECDSAToAddr() {
     effEcdsa.Ux <== Ux;
     effEcdsa.Uy <== Uy;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = CanonicalBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = CanonicalBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
-- 
2.43.0


From 3bea8696c0e41f8ed3d64579d9ccef6e89e9aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:43 +0000
Subject: [PATCH 26/26] fix: embed the bytes of the wasm file, not those of the
 pool it is read into

---
 packages/lib/embedWasmBytes.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/lib/embedWasmBytes.ts b/packages/lib/embedWasmBytes.ts
index 1d094d2..3cb0f49 100644
--- a/packages/lib/embedWasmBytes.ts
+++ b/packages/lib/embedWasmBytes.ts
@@ -6,7 +6,8 @@ import * as fs from "fs";
 const embedWasmBytes = async () => {
   let wasm = fs.readFileSync("../spartan_wasm/build/spartan_wasm_bg.wasm");
 
-  let bytes = new Uint8Array(wasm.buffer);
+  // Not wasm.buffer, which can be a pool that the file shares with other data
+  let bytes = new Uint8Array(wasm);
 
   const file = `
     export const wasmBytes = new Uint8Array([${bytes.toString()}]);
-- 
2.43.0

