From 89efc7a8ca4d334fae3f019877c871d4aa08c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:41 +0000
Subject: [PATCH 01/15] hook: expose H generators under cfg(vh_hooks)

---
 bulletproofs/src/generators.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/src/generators.rs b/bulletproofs/src/generators.rs
index 40f2219..79dc2f3 100644
--- a/bulletproofs/src/generators.rs
+++ b/bulletproofs/src/generators.rs
@@ -207,6 +207,12 @@ impl<C: AffineRepr> BulletproofGens<C> {
         self.gens_capacity = new_capacity;
     }
 
+    /// Verification hook: the H generators of one party (not part of the API).
+    #[cfg(vh_hooks)]
+    pub fn vh_h_generators(&self, party: usize) -> &[C] {
+        &self.H_vec[party]
+    }
+
     /// Return an iterator over the aggregation of the parties' G generators with given size `n`.
     pub(crate) fn G(&self, n: usize, m: usize) -> impl Iterator<Item = &C> {
         AggregatedGensIter {
-- 
2.43.0


From 7a2befd243f8f1cffe96a7abf607320e07618227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 02/15] fix: give R1CS vector commitments degrees that cannot
 interfere with the gate check

The commitments' degrees in l(X) mirrored each other and A_O's around the checked degree, so a
prover adding H components to A_O or to a vector commitment could violate multiplication gates.
---
 bulletproofs/src/r1cs/mod.rs      | 23 +++++---
 bulletproofs/src/r1cs/prover.rs   | 92 +++++++------------------------
 bulletproofs/src/r1cs/verifier.rs |  6 +-
 bulletproofs/src/util.rs          |  6 +-
 4 files changed, 41 insertions(+), 86 deletions(-)

diff --git a/bulletproofs/src/r1cs/mod.rs b/bulletproofs/src/r1cs/mod.rs
index 18b93b8..54f3149 100644
--- a/bulletproofs/src/r1cs/mod.rs
+++ b/bulletproofs/src/r1cs/mod.rs
@@ -16,23 +16,28 @@ pub use self::verifier::{batch_verify, VerificationTuple, Verifier};
 
 pub use crate::errors::R1CSError;
 
+/// The degree at which the operations are checked, for a number of vector commitments.
+///
+/// Every vector commitment has a degree of its own in l(X) between 0 and the middle degree
+/// (both excluded). The mirrored degrees above the middle are left free: a commitment can
+/// contain components for r(X), which end up at the commitment's own degree, and must not
+/// meet another commitment's values in the coefficient that is checked.
+fn op_degree(num_vec_comms: usize) -> usize {
+    2 + 2 * num_vec_comms
+}
+
 fn op_splits(op_deg: usize) -> Vec<(usize, usize)> {
     debug_assert_eq!(op_deg % 2, 0);
     let mid = op_deg / 2;
 
     // the first two are special
-    let mut op_splits = Vec::with_capacity(op_deg);
+    let mut op_splits = Vec::with_capacity(mid + 1);
     op_splits.push((mid, mid));
     op_splits.push((op_deg, 0));
 
-    // all other deg splits
-    for r_deg in 1..op_deg + 1 {
-        if r_deg == mid {
-            // already taken
-            continue;
-        }
-        let l_deg = op_deg - r_deg;
-        op_splits.push((l_deg, r_deg));
+    // vector commitments
+    for l_deg in 1..mid {
+        op_splits.push((l_deg, op_deg - l_deg));
     }
 
     op_splits
diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 694fd1f..571f04e 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -19,7 +19,7 @@ use crate::inner_product_proof::InnerProductProof;
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the prover.
 ///
@@ -514,8 +514,8 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
         // number of commitments
         let ncomm = self.secrets.vec_open.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm
+        let op_degree = op_degree(ncomm);
 
         let ops = op_splits(op_degree);
         let veccom_ops = &ops[2..];
@@ -856,21 +856,18 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
 
         let mid_degree = op_degree / 2;
 
-        // 1 comm => op_degree = 2
-        // 2 comm => op_degree = 4
-        // 3 comm => op_degree = 4
-        // 4 comm => op_degree = 6
-        // 5 comm => op_degree = 6
+        // 1 comm => op_degree = 4
+        // 2 comm => op_degree = 6
+        // 3 comm => op_degree = 8
         // etc.
-        // op_degree = 2 + 2 * floor(#comm / 2)
+        // op_degree = 2 + 2 * #comm
 
         for (i, (sl, sr)) in sLsR.enumerate() {
             debug_assert!(i < self.secrets.a_L.len());
 
-            // The first (original) op_degree is 2, which permits a single vector commitment:
+            // Without vector commitments the (original) op_degree is 2:
             //
             // Left:
-            // 0 : com1
             // 1 : aL + wR
             // 2 : aO
             // 3 : sL
@@ -878,77 +875,26 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
             // Right:
             // 0 : Wo
             // 1 : aR + wL
-            // 2 : Wc1
             // 3 : sR
             //
-            // Since a_L and a_R must be at the same power, only even op_degrees are possible :(
-            // Hence the next valid op_degree is 4, which permits up to 3 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : aL
-            // 3 : aO
-            // 4 : com3
-            // 5 : sL
-            //
-            // Right:
-            // 0 : Wc3
-            // 1 : Wo
-            // 2 : aR
-            // 3 : Wc2
-            // 4 : Wc1
-            // 5 : sR
-            //
-            // The next valid op_degree is 6, this permits up to 5 vector commitments:
-            //
-            // Left:
-            // 0 : com1
-            // 1 : com2
-            // 2 : com3
-            // 3 : aL
-            // 4 : aO
-            // 5 : com4
-            // 6 : com5
-            // 7 : sL
-            //
-            // Right:
-            // 0 : Wc5
-            // 1 : Wc4
-            // 2 : Wo
-            // 3 : aR
-            // 4 : Wc3
-            // 5 : Wc2
-            // 6 : Wc1
-            // 7 : sR
-            //
-            // Note that the x^0, x^1 term is zero.
-            // For every additional commitment r_poly degree increases by 2,
-            // but the number of zero terms increase by 1
-            //
-            // The op_degree is 6, the total degree is 11.
+            // Every vector commitment increases it by 2, e.g. 6 for two of them:
             //
             // Left:
             // 1 : com1
             // 2 : com2
-            // 3 : com3
-            // 4 : aL
-            // 5 : aO
-            // 6 : -
-            // 7 : -
-            // 8 : -
-            // 9 : sL
+            // 3 : aL + wR
+            // 6 : aO
+            // 7 : sL
             //
             // Right:
-            // 3 : Wo
-            // 4 : aR
-            // 5 : Wc3
-            // 6 : Wc2
-            // 7 : Wc1
-            // 8 : -
-            // 9 : sR
+            // 0 : Wo
+            // 3 : aR + wL
+            // 4 : Wc2
+            // 5 : Wc1
+            // 7 : sR
             //
-            // op_degree is 8
+            // A malicious com1, com2 or aO can also have components in Right, at the degree it
+            // has in Left. The degrees opposite to those (5, 4 and 0) are therefore unused in Left.
 
             // l_poly.0 = 0
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 5682805..ec7e2b0 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -18,7 +18,7 @@ use crate::generators::{BulletproofGens, PedersenGens};
 use crate::r1cs::Metrics;
 use crate::transcript::TranscriptProtocol;
 
-use super::op_splits;
+use super::{op_degree, op_splits};
 
 /// A [`ConstraintSystem`] implementation for use by the verifier.
 ///
@@ -486,8 +486,8 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         // number of commitments
         let ncomm = self.vec_comms.len();
 
-        // op_degree = 2 + 2 * floor(#comm / 2)
-        let op_degree = 2 + 2 * (ncomm / 2);
+        // op_degree = 2 + 2 * #comm
+        let op_degree = op_degree(ncomm);
         let t_poly_deg = 2 * (op_degree + 1);
         let ops = op_splits(op_degree);
 
diff --git a/bulletproofs/src/util.rs b/bulletproofs/src/util.rs
index f3f1c91..72a4116 100644
--- a/bulletproofs/src/util.rs
+++ b/bulletproofs/src/util.rs
@@ -20,11 +20,15 @@ pub struct VecPoly1<F: Field>(pub Vec<F>, pub Vec<F>);
 #[derive(ZeroizeOnDrop)]
 pub struct VecPoly3<F: Field>(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
 
-pub const T_LABELS: [&[u8]; 41] = [
+pub const T_LABELS: [&[u8]; 75] = [
     b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10",
     b"T_11", b"T_12", b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20",
     b"T_21", b"T_22", b"T_23", b"T_24", b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30",
     b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36", b"T_37", b"T_38", b"T_39", b"T_40",
+    b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48", b"T_49", b"T_50",
+    b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
+    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70",
+    b"T_71", b"T_72", b"T_73", b"T_74",
 ];
 
 /// The general case for Vector CP.
-- 
2.43.0


From b3f02d5b2ab071700e37290f39809317dca1e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 03/15] hook: expose the terms of a linear combination under
 cfg(vh_hooks)

---
 bulletproofs/src/r1cs/linear_combination.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/src/r1cs/linear_combination.rs b/bulletproofs/src/r1cs/linear_combination.rs
index 8e581aa..254d530 100644
--- a/bulletproofs/src/r1cs/linear_combination.rs
+++ b/bulletproofs/src/r1cs/linear_combination.rs
@@ -208,6 +208,14 @@ impl<F: Field> LinearCombination<F> {
     }
 }
 
+#[cfg(vh_hooks)]
+impl<F: Field> LinearCombination<F> {
+    /// Verification hook: the terms (not part of the API).
+    pub fn vh_terms(&self) -> &[(Variable<F>, F)] {
+        &self.terms
+    }
+}
+
 impl<F: Field> Neg for LinearCombination<F> {
     type Output = Self;
 
-- 
2.43.0


From e39854e80bc3d0d357f3c4640677f33d1c653e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 04/15] fix: reject R1CS proofs whose T or second-phase
 commitments do not have the required shape

---
 bulletproofs/src/r1cs/proof.rs    |  2 +-
 bulletproofs/src/r1cs/verifier.rs | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 7f416ca..09d7902 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -56,7 +56,7 @@ pub struct R1CSProof<C: AffineRepr> {
 }
 
 impl<C: AffineRepr> R1CSProof<C> {
-    fn missing_phase2_commitments(&self) -> bool {
+    pub(super) fn missing_phase2_commitments(&self) -> bool {
         self.A_I2.is_zero() && self.A_O2.is_zero() && self.S2.is_zero()
     }
 
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index ec7e2b0..7de9f47 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -502,7 +502,16 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
         let op_aO = ops[1];
         let op_vec = &ops[2..];
 
-        debug_assert_eq!(t_poly_deg + 1, proof.T.len());
+        // There is a commitment to every coefficient of t(X), except that the place of the one
+        // that is checked must be unused.
+        if proof.T.len() != t_poly_deg + 1 || !proof.T[op_degree].is_zero() {
+            return Err(R1CSError::VerificationError);
+        }
+
+        // Second phase commitments are not supported together with vector commitments.
+        if ncomm > 0 && !proof.missing_phase2_commitments() {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.validate_and_append_point(b"A_I1", &proof.A_I1)?;
         transcript.validate_and_append_point(b"A_O1", &proof.A_O1)?;
@@ -653,9 +662,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             }
         }
 
-        debug_assert_eq!(proof.T[op_degree], C::zero());
-        debug_assert_eq!(proof.T.len(), t_poly_deg + 1);
-
         // homomorphically evaluate t polynomial at x
         let mut T_points = vec![];
         let mut T_scalars = vec![];
@@ -671,10 +677,6 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
             T_scalars.push(rxs[d]);
         }
 
-        debug_assert!(ncomm == 0 || proof.A_I2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.A_O2 == C::zero());
-        debug_assert!(ncomm == 0 || proof.S2 == C::zero());
-
         let xI = xs[op_aLaR.0];
         let xO = xs[op_aO.0];
         let xS = xs[op_degree + 1];
-- 
2.43.0


From f7e9d232c594ebacb37b72e04d7496fdee22a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 05/15] fix: reject inner product proofs with different numbers
 of L and R

---
 bulletproofs/src/inner_product_proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 7089839..a563fe1 100644
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -261,6 +261,10 @@ impl<C: AffineRepr> InnerProductProof<C> {
             return Err(ProofError::VerificationError);
         }
 
+        if self.R_vec.len() != lg_n {
+            return Err(ProofError::VerificationError);
+        }
+
         transcript.innerproduct_domain_sep(n as u64);
 
         // 1. Recompute x_k,...,x_1 based on the proof transcript
-- 
2.43.0


From f706211aefaf4b276119bbde67e4c3698f8b4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 06/15] fix: align the generators of batch members of different
 sizes

---
 bulletproofs/src/r1cs/verifier.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 7de9f47..161e775 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -731,20 +731,36 @@ pub struct VerificationTuple<C: AffineRepr> {
     pub proof_independent_scalars: Vec<C::ScalarField>,
 }
 
+/// Extends the scalars of `B`, `B_blinding`, `G` and `H` to `padded_n` generators `G` and `H`.
+fn pad_scalars<F: Field>(scalars: Vec<F>, padded_n: usize) -> Vec<F> {
+    let (b, gh) = scalars.split_at(2);
+    let n = gh.len() / 2;
+    let mut out = vec![F::zero(); 2 + 2 * padded_n];
+    out[..2].copy_from_slice(b);
+    out[2..2 + n].copy_from_slice(&gh[..n]);
+    out[2 + padded_n..2 + padded_n + n].copy_from_slice(&gh[n..]);
+    out
+}
+
 pub fn batch_verify<C: AffineRepr>(
     verification_tuples: Vec<VerificationTuple<C>>,
     pc_gens: &PedersenGens<C>,
     bp_gens: &BulletproofGens<C>,
 ) -> Result<(), R1CSError> {
     let mut rng = rand::thread_rng();
+
+    // The members can be of different sizes, the generators are those of the largest one.
+    let padded_n = verification_tuples
+        .iter()
+        .map(|vt| (vt.proof_independent_scalars.len() - 2) / 2)
+        .max()
+        .unwrap();
+
     let mut ver_iter = verification_tuples.into_iter();
     let vt = ver_iter.next().unwrap();
-    let (mut proof_points, mut proof_point_scalars, mut linear_combination) = (
-        vt.proof_dependent_points,
-        vt.proof_dependent_scalars,
-        vt.proof_independent_scalars,
-    );
-    let padded_n = (linear_combination.len() - 2) / 2;
+    let (mut proof_points, mut proof_point_scalars) =
+        (vt.proof_dependent_points, vt.proof_dependent_scalars);
+    let mut linear_combination = pad_scalars(vt.proof_independent_scalars, padded_n);
 
     for mut vt in ver_iter {
         proof_points.append(&mut vt.proof_dependent_points);
@@ -757,8 +773,7 @@ pub fn batch_verify<C: AffineRepr>(
             .proof_dependent_scalars
             .into_iter()
             .map(|s| s * random_scalar);
-        let fps = vt
-            .proof_independent_scalars
+        let fps = pad_scalars(vt.proof_independent_scalars, padded_n)
             .into_iter()
             .map(|s| s * random_scalar);
 
-- 
2.43.0


From ba21daa2f31d86d05f4bb37a6e40682176c09745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 07/15] fix: accept only the canonical phase flag when decoding
 an R1CS proof

---
 bulletproofs/src/r1cs/proof.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bulletproofs/src/r1cs/proof.rs b/bulletproofs/src/r1cs/proof.rs
index 09d7902..f071d5a 100644
--- a/bulletproofs/src/r1cs/proof.rs
+++ b/bulletproofs/src/r1cs/proof.rs
@@ -141,14 +141,21 @@ impl<C: AffineRepr> CanonicalDeserialize for R1CSProof<C> {
         let A_O1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let S1 = C::deserialize_with_mode(&mut reader, compress, validate)?;
         let flag = u8::deserialize_with_mode(&mut reader, compress, validate)?;
-        let (A_I2, A_O2, S2) = if flag == TWO_PHASE_COMMITMENTS {
-            (
-                C::deserialize_with_mode(&mut reader, compress, validate)?,
-                C::deserialize_with_mode(&mut reader, compress, validate)?,
-                C::deserialize_with_mode(&mut reader, compress, validate)?,
-            )
-        } else {
-            (C::zero(), C::zero(), C::zero())
+        let (A_I2, A_O2, S2) = match flag {
+            ONE_PHASE_COMMITMENTS => (C::zero(), C::zero(), C::zero()),
+            TWO_PHASE_COMMITMENTS => {
+                let points = (
+                    C::deserialize_with_mode(&mut reader, compress, validate)?,
+                    C::deserialize_with_mode(&mut reader, compress, validate)?,
+                    C::deserialize_with_mode(&mut reader, compress, validate)?,
+                );
+                // absent commitments have the one phase encoding
+                if points.0.is_zero() && points.1.is_zero() && points.2.is_zero() {
+                    return Err(SerializationError::InvalidData);
+                }
+                points
+            }
+            _ => return Err(SerializationError::InvalidData),
         };
         Ok(Self {
             A_I1,
-- 
2.43.0


From 5a281875630e12125a68bea183e885329ac8f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 08/15] fix: constrain the first accumulator of re_randomize to
 its table lookup

Without it a prover could start the accumulation at any point, so the public
commitment was not tied to the secret one.
---
 relations/src/rerandomize.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index eba907c..1f8fc3f 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -133,7 +133,12 @@ pub fn re_randomize<
         // Allocate coordinates for the accumulated witness
         let acc_i_x_lc: LinearCombination<F> = cs.allocate(acc_i_x).unwrap().into();
         let acc_i_y_lc: LinearCombination<F> = cs.allocate(acc_i_y).unwrap().into();
-        if i > 1 {
+        if i == 1 {
+            // The accumulator starts as the first selected table entry:
+            // R_1 = (x_1, y_1)
+            cs.constrain(acc_i_x_lc.clone() - x_table);
+            cs.constrain(acc_i_y_lc.clone() - y_table);
+        } else {
             // Enforce addition constraint:
             // R_i = R_i-1 + (x_i, y_i)
             let prms = CurveAddition {
-- 
2.43.0


From de1cd5b2a32a21b367caaa6567392c91edab6a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 09/15] fix: check the curve equation with A*x instead of A*x^2

---
 relations/src/curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relations/src/curve.rs b/relations/src/curve.rs
index 194c7c4..ec3946c 100644
--- a/relations/src/curve.rs
+++ b/relations/src/curve.rs
@@ -11,13 +11,13 @@ pub fn curve_check<F: Field, Cs: ConstraintSystem<F>>(
     b: F,
 ) {
     let (_, _, x_squared) = cs.multiply(x.clone(), x.clone());
-    let (_, _, x_cubed) = cs.multiply(x, x_squared.into());
+    let (_, _, x_cubed) = cs.multiply(x.clone(), x_squared.into());
     let (_, _, y_squared) = cs.multiply(y.clone(), y);
 
-    // x^3 + A*x^2 + B - y^2 = 0
+    // x^3 + A*x + B - y^2 = 0
     cs.constrain(
         LinearCombination::<F>::from(x_cubed)
-            + LinearCombination::<F>::from(x_squared).scalar_mul(a)
+            + x.scalar_mul(a)
             + b
             - y_squared,
     )
-- 
2.43.0


From f5d5166e0b9f35d1bfac90576933d10f53b7888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 10/15] hook: expose the accumulated constraints under
 cfg(vh_hooks)

---
 bulletproofs/src/r1cs/prover.rs   | 8 ++++++++
 bulletproofs/src/r1cs/verifier.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/bulletproofs/src/r1cs/prover.rs b/bulletproofs/src/r1cs/prover.rs
index 571f04e..d08bece 100644
--- a/bulletproofs/src/r1cs/prover.rs
+++ b/bulletproofs/src/r1cs/prover.rs
@@ -258,6 +258,14 @@ impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> RandomizedConstraintSystem<C::
     }
 }
 
+#[cfg(vh_hooks)]
+impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
+    /// Verification hook: the linear constraints so far (not part of the API).
+    pub fn vh_constraints(&self) -> &[LinearCombination<C::ScalarField>] {
+        &self.constraints
+    }
+}
+
 impl<'g, T: BorrowMut<Transcript>, C: AffineRepr> Prover<'g, T, C> {
     /// Construct an empty constraint system with specified external
     /// input variables.
diff --git a/bulletproofs/src/r1cs/verifier.rs b/bulletproofs/src/r1cs/verifier.rs
index 161e775..7c34e3b 100644
--- a/bulletproofs/src/r1cs/verifier.rs
+++ b/bulletproofs/src/r1cs/verifier.rs
@@ -229,6 +229,14 @@ impl<T: BorrowMut<Transcript>, C: AffineRepr> RandomizedConstraintSystem<C::Scal
     }
 }
 
+#[cfg(vh_hooks)]
+impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
+    /// Verification hook: the linear constraints so far (not part of the API).
+    pub fn vh_constraints(&self) -> &[LinearCombination<C::ScalarField>] {
+        &self.constraints
+    }
+}
+
 impl<T: BorrowMut<Transcript>, C: AffineRepr> Verifier<T, C> {
     /// Construct an empty constraint system with specified external
     /// input variables.
-- 
2.43.0


From 25e4284d609d5fbb082750c14e454e6e23dda023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 11/15] fix: check the length of a membership path against the
 height of the tree

---
 relations/src/batched_curve_tree_verifier.rs | 10 +++++-----
 relations/src/curve_tree_verifier.rs         | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/relations/src/batched_curve_tree_verifier.rs b/relations/src/batched_curve_tree_verifier.rs
index 4f5041b..aac2e07 100644
--- a/relations/src/batched_curve_tree_verifier.rs
+++ b/relations/src/batched_curve_tree_verifier.rs
@@ -54,6 +54,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -74,11 +79,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> [Affine<P0>; M] {
         self.batched_select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaves, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
diff --git a/relations/src/curve_tree_verifier.rs b/relations/src/curve_tree_verifier.rs
index 1402234..471526f 100644
--- a/relations/src/curve_tree_verifier.rs
+++ b/relations/src/curve_tree_verifier.rs
@@ -44,6 +44,11 @@ impl<
                 randomized_path.even_commitments = even_commitments_with_root;
             }
         };
+        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
+        assert_eq!(
+            self.height(),
+            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
+        );
     }
 }
 
@@ -64,11 +69,6 @@ impl<
         parameters: &SelRerandParameters<P0, P1>,
     ) -> Affine<P0> {
         self.select_and_rerandomize_verification_commitments(&mut randomized_path);
-        // The even and odd commitments do not include the selected leaf, their sum should equal the height of the tree.
-        debug_assert_eq!(
-            self.height(),
-            randomized_path.even_commitments.len() + randomized_path.odd_commitments.len()
-        );
 
         randomized_path.even_verifier_gadget(even_verifier, parameters, self);
         randomized_path.odd_verifier_gadget(odd_verifier, parameters, self);
-- 
2.43.0


From d405adbf266b6eef9618eef8c195b8c1a85bb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:50 +0000
Subject: [PATCH 12/15] fix: absorb the rerandomized sum of children in the
 batched single level relation

---
 relations/src/single_level_select_and_rerandomize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/relations/src/single_level_select_and_rerandomize.rs b/relations/src/single_level_select_and_rerandomize.rs
index 343128c..6356c8e 100644
--- a/relations/src/single_level_select_and_rerandomize.rs
+++ b/relations/src/single_level_select_and_rerandomize.rs
@@ -141,6 +141,16 @@ pub fn single_level_batched_select_and_rerandomize<
     children_plus_delta: Option<&[Affine<C2>; M]>, // Witnesses of the commitments being selected and rerandomized
     randomness_offset: Option<Fb>, // The scalar used for randomizing, i.e. \sum selected_witnesses + randomness_offset * H = sum_of_rerandomized + M * Delta
 ) {
+    // Add the rerandomised sum of children to the transcript
+    {
+        let mut bytes = Vec::new();
+        if let Err(e) = sum_of_rerandomized.serialize_compressed(&mut bytes) {
+            panic!("{}", e)
+        }
+        cs.transcript()
+            .append_message(b"sum_of_rerandomized", &bytes);
+    }
+
     // Initialize the accumulated sum of the selected children to dummy values.
     let mut sum_of_selected = PointRepresentation {
         x: Variable::One(PhantomData).into(),
-- 
2.43.0


From 94ca1203fcde22549511fa30b4936d5a94fe923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:56 +0000
Subject: [PATCH 13/15] fix: verify a spent coin as a commitment to two values,
 as it is proven

---
 relations/src/coin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index ade836a..540885d 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -589,7 +589,7 @@ fn verify_spend_even<
     curve_tree: &CurveTree<L, 1, P0, P1>,
 ) -> Variable<P0::ScalarField> {
     commitments.even_verifier_gadget(even_verifier, sr_parameters, curve_tree);
-    let vars = even_verifier.commit_vec(L, commitments.get_rerandomized_leaf());
+    let vars = even_verifier.commit_vec(2, commitments.get_rerandomized_leaf());
 
     // enforce equality of tag with hash of public key
     even_verifier.constrain(vars[1] - Coin::<P0, C>::pk_to_scalar(pk));
-- 
2.43.0


From 31d64c473302b439431bb14e34f3baba3f9f895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:56 +0000
Subject: [PATCH 14/15] fix: reject a transaction whose signatures do not
 verify

---
 relations/src/coin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relations/src/coin.rs b/relations/src/coin.rs
index 540885d..bce871a 100644
--- a/relations/src/coin.rs
+++ b/relations/src/coin.rs
@@ -664,7 +664,7 @@ impl<
         pk0: &PublicKey<C>,
         pk1: &PublicKey<C>,
     ) {
-        Schnorr::verify(
+        let valid_0 = Schnorr::verify(
             sig_parameters,
             pk0,
             self.pour_bytes.as_slice(),
@@ -674,7 +674,8 @@ impl<
             },
         )
         .unwrap();
-        Schnorr::verify(
+        assert!(valid_0, "invalid signature for input 0");
+        let valid_1 = Schnorr::verify(
             sig_parameters,
             pk1,
             self.pour_bytes.as_slice(),
@@ -684,6 +685,7 @@ impl<
             },
         )
         .unwrap();
+        assert!(valid_1, "invalid signature for input 1");
     }
 }
 
-- 
2.43.0


From b9668bbc8ebb1c9ca7098790204095dd17a0043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 15/15] fix: check the last two additions of the
 rerandomization

With a 255 bit scalar field there are 86 windows, and the second to last
one adds multiples of the base that exceed its order. For one choice of
digits both summands are the same point, the slope of the incomplete
addition is then unconstrained and so is the public point.
---
 relations/src/rerandomize.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/relations/src/rerandomize.rs b/relations/src/rerandomize.rs
index 1f8fc3f..fed26b0 100644
--- a/relations/src/rerandomize.rs
+++ b/relations/src/rerandomize.rs
@@ -109,7 +109,7 @@ pub fn re_randomize<
                 } else {
                     None
                 };
-                let x_left_minus_x_right_inv = if i == m {
+                let x_left_minus_x_right_inv = if i + 1 >= m {
                     // compute x_l-x_r inverse for checked addition
                     Some(F::one() / (x_left - x_right))
                 } else {
@@ -150,8 +150,9 @@ pub fn re_randomize<
                 y_o: acc_i_y_lc.clone(),
                 delta,
             };
-            if i == m {
-                // enforce checked curve addition
+            if i + 1 >= m {
+                // enforce checked curve addition: from here on the multiples of the base exceed
+                // its order, so that both summands may be the same point
                 checked_curve_addition(cs, &prms, x_l_minus_x_r_inv);
             } else {
                 // enforce incomplete curve addition
-- 
2.43.0

