From 4517ea0d807686cc8a5e060b6c2cf770cff7fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:47 +0000
Subject: [PATCH 01/18] Read-only inspection hooks for the prover and verifier
 constraint systems (cfg verif_hooks)

---
 src/r1cs/prover.rs   | 22 ++++++++++++++++++++++
 src/r1cs/verifier.rs | 17 +++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 1d05bc8..7e9fb07 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -761,3 +761,25 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingProver<'a, 'b> {
         self.prover.transcript.challenge_scalar(label)
     }
 }
+
+/// Read-only views used by the external verification harness; compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl<'a, 'b> Prover<'a, 'b> {
+    pub fn verif_constraints(&self) -> &[LinearCombination] {
+        &self.constraints
+    }
+
+    /// Assignments of the left, right and output wires of each multiplier
+    pub fn verif_wires(&self) -> (&[FieldElement], &[FieldElement], &[FieldElement]) {
+        (
+            self.a_L.as_slice(),
+            self.a_R.as_slice(),
+            self.a_O.as_slice(),
+        )
+    }
+
+    /// Openings of the commitments to the high level variables
+    pub fn verif_openings(&self) -> (&[FieldElement], &[FieldElement]) {
+        (self.v.as_slice(), self.v_blinding.as_slice())
+    }
+}
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index e8e0fe1..facf452 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -598,3 +598,20 @@ impl<'a, 'b> RandomizedConstraintSystem for RandomizingVerifier<'a> {
         self.verifier.transcript.challenge_scalar(label)
     }
 }
+
+/// Read-only views used by the external verification harness; compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+impl<'a> Verifier<'a> {
+    pub fn verif_constraints(&self) -> &[LinearCombination] {
+        &self.constraints
+    }
+
+    pub fn verif_num_multipliers(&self) -> usize {
+        self.num_vars
+    }
+
+    /// Commitments to the high level variables
+    pub fn verif_commitments(&self) -> &[G1] {
+        &self.V
+    }
+}
-- 
2.43.0


From 2441f0ff9220623502062f5a3c5e9012e6283699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 02/18] fix: reject inner product proofs with missing or
 surplus L/R elements instead of panicking

---
 src/ipp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index 80807f1..b592f2d 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -215,7 +215,7 @@ impl IPP {
         L_vec: &G1Vector,
         R_vec: &G1Vector,
     ) -> Result<(), R1CSError> {
-        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (u_sq, u_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -274,6 +274,9 @@ impl IPP {
         if n != (1 << lg_n) {
             return Err(R1CSError::VerificationError);
         }
+        if R_vec.len() != lg_n {
+            return Err(R1CSError::VerificationError);
+        }
 
         transcript.innerproduct_domain_sep(n as u64);
 
-- 
2.43.0


From d641bf08aeae7ef72ce55ec6aecb05311f3d1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 03/18] fix: verify proofs of constraint systems with 0 or 1
 multipliers

---
 src/ipp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index b592f2d..f1a1315 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -295,7 +295,12 @@ impl IPP {
         let mut challenges_sq = Vec::with_capacity(lg_n);
         let mut challenges_inv_sq = Vec::with_capacity(lg_n);
 
-        let (challenges_inv, product_chal_inv) = FieldElement::batch_invert(&challenges);
+        // There are no challenges when n = 1 and `batch_invert` cannot handle an empty slice
+        let (challenges_inv, product_chal_inv) = if challenges.is_empty() {
+            (vec![], FieldElement::one())
+        } else {
+            FieldElement::batch_invert(&challenges)
+        };
         for i in 0..challenges.len() {
             challenges_sq.push(challenges[i].square());
             challenges_inv_sq.push(challenges_inv[i].square());
-- 
2.43.0


From 5e99046a6766f9a381cfe9fee262128364b7609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:00 +0000
Subject: [PATCH 04/18] fix: report too few H generators as
 InvalidGeneratorsLength instead of panicking

---
 src/r1cs/prover.rs   | 4 ++--
 src/r1cs/verifier.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/prover.rs b/src/r1cs/prover.rs
index 7e9fb07..c723432 100644
--- a/src/r1cs/prover.rs
+++ b/src/r1cs/prover.rs
@@ -329,7 +329,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
@@ -376,7 +376,7 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
diff --git a/src/r1cs/verifier.rs b/src/r1cs/verifier.rs
index facf452..9e39d1c 100644
--- a/src/r1cs/verifier.rs
+++ b/src/r1cs/verifier.rs
@@ -294,7 +294,7 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSError::InvalidGeneratorsLength);
         }
 
-- 
2.43.0


From c592a6af076900d54628efb42c52aaef6aa52d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:42 +0000
Subject: [PATCH 05/18] fix: verify_ipp reports generators of the wrong length
 as a verification error instead of panicking

---
 src/ipp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ipp.rs b/src/ipp.rs
index f1a1315..a2b4b7c 100644
--- a/src/ipp.rs
+++ b/src/ipp.rs
@@ -250,7 +250,7 @@ impl IPP {
 
         let expected_P = G1Vector::from(_2)
             .multi_scalar_mul_var_time(&_1.into())
-            .unwrap();
+            .map_err(|_| R1CSError::VerificationError)?;
 
         if expected_P == *P {
             Ok(())
-- 
2.43.0


From c055687195a45e26fa2154991cb35355806bcac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:49 +0000
Subject: [PATCH 06/18] fix: gadget verifiers return an error when given too
 few commitments instead of panicking

---
 src/errors.rs                                | 18 ++++++++++++++++++
 src/r1cs/gadgets/bound_check.rs              |  2 ++
 src/r1cs/gadgets/mimc.rs                     |  2 ++
 src/r1cs/gadgets/non_zero.rs                 |  2 ++
 src/r1cs/gadgets/poseidon_hash.rs            |  6 ++++++
 src/r1cs/gadgets/randomizer.rs               |  2 ++
 src/r1cs/gadgets/set_membership.rs           |  2 ++
 src/r1cs/gadgets/set_membership_alt.rs       |  2 ++
 src/r1cs/gadgets/set_non_membership.rs       |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs |  2 ++
 src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs |  2 ++
 11 files changed, 42 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index 3480211..996296c 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -53,3 +53,21 @@ macro_rules! check_for_input_and_randomness_length {
         }
     }};
 }
+
+/// Check that the prover supplied at least as many commitments as the gadget being verified needs
+#[macro_export]
+macro_rules! check_for_enough_commitments {
+    ( $commitments:expr, $expected_length:expr ) => {{
+        if $commitments.len() < $expected_length {
+            Err(R1CSError::GadgetError {
+                description: format!(
+                    "At least {} commitments are needed but only {} were given",
+                    $expected_length,
+                    $commitments.len()
+                ),
+            })
+        } else {
+            Ok(())
+        }
+    }};
+}
diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index ed5d623..3e2aa6f 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -98,6 +98,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/src/r1cs/gadgets/mimc.rs b/src/r1cs/gadgets/mimc.rs
index bfe1a11..2527980 100644
--- a/src/r1cs/gadgets/mimc.rs
+++ b/src/r1cs/gadgets/mimc.rs
@@ -62,6 +62,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/src/r1cs/gadgets/non_zero.rs b/src/r1cs/gadgets/non_zero.rs
index b378ea4..69b086f 100644
--- a/src/r1cs/gadgets/non_zero.rs
+++ b/src/r1cs/gadgets/non_zero.rs
@@ -45,6 +45,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/poseidon_hash.rs b/src/r1cs/gadgets/poseidon_hash.rs
index 8ccfb1d..43d5127 100644
--- a/src/r1cs/gadgets/poseidon_hash.rs
+++ b/src/r1cs/gadgets/poseidon_hash.rs
@@ -126,6 +126,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -270,6 +272,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -413,6 +417,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 05ab4bc..e18368b 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -299,6 +299,8 @@ pub fn verify_proof_for_randomizer(
     let mut verifier_transcript = Transcript::new(transcript_label);
     let mut verifier = Verifier::new(&mut verifier_transcript);
 
+    check_for_enough_commitments!(commitments, 1 + modified_indices.len() * (1 + tree_depth * 3))?;
+
     let var_orig_root = verifier.commit(commitments.remove(0));
 
     let mut orig_val_vars = vec![];
diff --git a/src/r1cs/gadgets/set_membership.rs b/src/r1cs/gadgets/set_membership.rs
index 8417be2..3cb66b9 100644
--- a/src/r1cs/gadgets/set_membership.rs
+++ b/src/r1cs/gadgets/set_membership.rs
@@ -87,6 +87,8 @@ pub fn verify_set_membership(
 
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
 
+    check_for_enough_commitments!(commitments, set_length + 1)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 1ac5c5a..3450a0c 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -145,6 +145,8 @@ pub fn verify_set_membership_alt(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_for_enough_commitments!(commitments, set_length + 1)?;
+
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
 
diff --git a/src/r1cs/gadgets/set_non_membership.rs b/src/r1cs/gadgets/set_non_membership.rs
index 6750af0..486a45f 100644
--- a/src/r1cs/gadgets/set_non_membership.rs
+++ b/src/r1cs/gadgets/set_non_membership.rs
@@ -96,6 +96,8 @@ pub fn verify_set_non_membership(
     let mut diff_vars: Vec<AllocatedQuantity> = vec![];
     let mut diff_inv_vars: Vec<AllocatedQuantity> = vec![];
 
+    check_for_enough_commitments!(commitments, 2 * set_length + 1)?;
+
     let var_val = verifier.commit(commitments.remove(0));
     let alloc_scal = AllocatedQuantity {
         variable: var_val,
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 988c2c1..61e6d6e 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -97,6 +97,8 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 2)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index 212b7ff..396a0c3 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -96,6 +96,8 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_for_enough_commitments!(commitments, 2)?;
+
     let var_leaf = verifier.commit(commitments.remove(0));
 
     let var_leaf_idx = verifier.commit(commitments.remove(0));
-- 
2.43.0


From 1aa835fc70ddebbb56bd83d85c807ca9bc2099ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 07/18] fix: leaf inclusion gadgets require a merkle path of
 exactly the depth of the tree

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs    | 11 +++++++++++
 .../helper_constraints/sparse_merkle_tree_8_ary.rs    | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 5d0c8cc..8da74b4 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -262,6 +262,17 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // The path must go from a leaf to the root, neither shorter nor longer
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Merkle proof should have {} nodes but has {}",
+                depth * 3,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 960c593..7a61ac6 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -286,6 +286,17 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
+    // The path must go from a leaf to the root, neither shorter nor longer
+    if proof_nodes.len() != depth * 7 {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "Merkle proof should have {} nodes but has {}",
+                depth * 7,
+                proof_nodes.len()
+            ),
+        });
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From 0a353cc54475e788968e4f147b05bda452e75301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 08/18] fix: sparse merkle trees reject merkle proofs whose
 length is not the depth of the tree

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs    | 4 ++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index 8da74b4..d717914 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -178,6 +178,10 @@ impl<'a> VanillaSparseMerkleTree_4<'a> {
         proof: &[ProofNode_4_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index 7a61ac6..c2f4feb 100644
--- a/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -193,6 +193,10 @@ impl<'a> VanillaSparseMerkleTree_8<'a> {
         proof: &[ProofNode_8_ary],
         root: Option<&FieldElement>,
     ) -> bool {
+        if proof.len() != self.depth {
+            return false;
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
-- 
2.43.0


From 3133791df65eafb535d20685d2ca2ad2fbc822f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 09/18] fix: set_membership_alt ties the selected item to the
 committed bitmap

---
 src/r1cs/gadgets/set_membership_alt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 3450a0c..493797e 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -69,6 +69,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
+        // `bit_var` is the i-th bit of `vector`
+        cs.constrain(bit_var - vector[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 3a838b09a9149812810b2942db77beddfe8fa4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 10/18] fix: hamming distance gadget ties the differences to
 the committed values

---
 src/r1cs/gadgets/hamming_distance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index 7c7d433..b13a754 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -38,9 +38,9 @@ pub fn hamming_distance_gadget<CS: ConstraintSystem>(
         };
 
         // diff * diff_inv = 1_or_0 depending on diff being non-zero or zero
-        let (var_diff, _) = cs.allocate_single(val_diff)?;
-        let (_, var_o) = cs.allocate_single(val_diff_inv)?;
-        let var_1_or_0 = var_o.unwrap();
+        let (var_diff, _, var_1_or_0) =
+            cs.allocate_multiplier(val_diff.and_then(|d| val_diff_inv.map(|i| (d, i))))?;
+        cs.constrain(diff - var_diff);
 
         // diff * (1 - 1_or_0) = 0
         let one_minus_var_1_or_0 = Variable::One() - var_1_or_0;
-- 
2.43.0


From 5e004be5684043c46f248b7f983a9941a6c3a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 11/18] fix: inverse S-box gadget ties the S-box argument to
 its input

---
 src/r1cs/gadgets/helper_constraints/poseidon.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/helper_constraints/poseidon.rs b/src/r1cs/gadgets/helper_constraints/poseidon.rs
index 5599826..e78f36b 100644
--- a/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -186,14 +186,15 @@ impl SboxType {
         let val_l = cs.evaluate_lc(&inp_plus_const);
         let val_r = val_l.clone().map(|l| l.inverse());
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) =
+            cs.allocate_multiplier(val_l.and_then(|l| val_r.map(|r| (l, r))))?;
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From 29812f6bfa993291c84e51caabf3914ccc95059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 12/18] fix: gadgets propagate proving errors instead of
 panicking

---
 src/r1cs/gadgets/hamming_distance.rs         | 2 +-
 src/r1cs/gadgets/randomizer.rs               | 2 +-
 src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/hamming_distance.rs b/src/r1cs/gadgets/hamming_distance.rs
index b13a754..97db410 100644
--- a/src/r1cs/gadgets/hamming_distance.rs
+++ b/src/r1cs/gadgets/hamming_distance.rs
@@ -125,7 +125,7 @@ pub fn gen_proof_for_hamming_distance(
         &prover.num_multipliers(),
         &prover.num_constraints()
     );
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     println!("Proving time is {:?}", start.elapsed());
     Ok((proof, comms))
 }
diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index e18368b..ab392ac 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -273,7 +273,7 @@ pub fn gen_proof_for_randomizer(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
diff --git a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 61e6d6e..53f2fe5 100644
--- a/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -170,7 +170,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<R: RngCore + CryptoRng>(
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From b03d0d3a23a361b7f0685c41f1b557f8e650b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 13/18] fix: randomizer propagates a node missing from the
 database instead of panicking

---
 src/r1cs/gadgets/randomizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index ab392ac..fed113e 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -140,7 +140,7 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
         let mut cur_prefix: Vec<u8> = vec![];
 
         for pos in path_for_get.iter() {
-            let children = new_db.get(&cur_node.to_bytes()).unwrap().to_vec();
+            let children = new_db.get(&cur_node.to_bytes())?.to_vec();
             cur_node = children[*pos as usize].clone();
             for (k, c) in children.iter().enumerate() {
                 let mut key = cur_prefix.clone();
-- 
2.43.0


From f84b1d4f51c6cd1a8efa70593d414216033c12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:05 +0000
Subject: [PATCH 14/18] fix: bound check reports an out of range value or empty
 range as an error instead of overflowing

---
 src/r1cs/gadgets/bound_check.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 3e2aa6f..35fb0c5 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -19,6 +19,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     min: u64,
     n: usize,
 ) -> Result<(), R1CSError> {
+    if max < min {
+        return Err(R1CSError::GadgetError {
+            description: format!("Upper bound {} is less than lower bound {}", max, min),
+        });
+    }
+
     // a = v - min
     // b = max - v
     // a + b = max - min
@@ -49,6 +55,12 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_randomness_or_rng!(randomness, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSError::GadgetError {
+            description: format!("{} is not in [{}, {}]", val, lower, upper),
+        });
+    }
+
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From fa85f261b17f8b4a5bff735ef251a561ed8bb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:34 +0000
Subject: [PATCH 15/18] fix: convert u64 values to field elements exactly in
 the bound check, set membership and vector sum gadgets

---
 src/r1cs/gadgets/bound_check.rs               | 19 ++++++++++---------
 .../gadgets/helper_constraints/vector_sum.rs  |  3 ++-
 src/r1cs/gadgets/set_membership_alt.rs        |  7 ++++---
 src/utils/mod.rs                              |  9 +++++++++
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/r1cs/gadgets/bound_check.rs b/src/r1cs/gadgets/bound_check.rs
index 35fb0c5..591f9d8 100644
--- a/src/r1cs/gadgets/bound_check.rs
+++ b/src/r1cs/gadgets/bound_check.rs
@@ -3,6 +3,7 @@ use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -29,12 +30,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_element_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_element_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_element_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -67,26 +68,26 @@ pub fn prove_bounded_num<R: RngCore + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_element_from_u64(val),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_element_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_element_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_element_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_element_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_element_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/src/r1cs/gadgets/helper_constraints/vector_sum.rs b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
index 3fb08d8..fb41b99 100644
--- a/src/r1cs/gadgets/helper_constraints/vector_sum.rs
+++ b/src/r1cs/gadgets/helper_constraints/vector_sum.rs
@@ -1,5 +1,6 @@
 use crate::errors::R1CSError;
 use crate::r1cs::{ConstraintSystem, Variable};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 
 // Ensure sum of items of `vector` is `sum`
@@ -8,7 +9,7 @@ pub fn vector_sum_constraints<CS: ConstraintSystem>(
     vector: Vec<Variable>,
     sum: u64,
 ) -> Result<(), R1CSError> {
-    let mut constraints = vec![(Variable::One(), FieldElement::from(sum).negation())];
+    let mut constraints = vec![(Variable::One(), field_element_from_u64(sum).negation())];
     for i in vector {
         constraints.push((i, FieldElement::one()));
     }
diff --git a/src/r1cs/gadgets/set_membership_alt.rs b/src/r1cs/gadgets/set_membership_alt.rs
index 493797e..34f25bb 100644
--- a/src/r1cs/gadgets/set_membership_alt.rs
+++ b/src/r1cs/gadgets/set_membership_alt.rs
@@ -4,6 +4,7 @@ use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::R1CSError;
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
+use crate::utils::field_element_from_u64;
 use amcl_wrapper::field_elem::FieldElement;
 use amcl_wrapper::group_elem_g1::{G1Vector, G1};
 use merlin::Transcript;
@@ -67,11 +68,11 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             vector[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_element_from_u64(items[i]))),
         )?;
         // `bit_var` is the i-th bit of `vector`
         cs.constrain(bit_var - vector[i].variable);
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_element_from_u64(items[i]));
 
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
 
@@ -125,7 +126,7 @@ pub fn prove_set_membership_alt<R: RngCore + CryptoRng>(
     // The bit vector sum should be 1
     vector_sum_constraints(prover, bit_vars, 1)?;
 
-    let _value = FieldElement::from(value);
+    let _value = field_element_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 8b57797..dd6c10d 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -38,6 +38,15 @@ pub fn gen_challenges(input: &[&G1], state: &mut Vec<u8>, n: usize) -> Vec<Field
     r
 }
 
+/// Convert the number to a field element of the same value. `FieldElement::from` treats the number as a
+/// signed one and does not normalize it so it is only correct for small numbers.
+pub fn field_element_from_u64(n: u64) -> FieldElement {
+    let mut bytes = [0u8; MODBYTES];
+    bytes[MODBYTES - 8..].copy_from_slice(&n.to_be_bytes());
+    // Cannot fail as there are exactly `MODBYTES` bytes
+    FieldElement::from_bytes(&bytes).unwrap()
+}
+
 #[macro_export]
 macro_rules! vec_to_array {
     ( $typ:ident, $size:expr, $vec: ident) => {{
-- 
2.43.0


From 853025a6a2b218ffa24d54b18a4be03b3e990372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:01 +0000
Subject: [PATCH 16/18] fix: randomizer reports inconsistent inputs as an error
 instead of panicking

---
 src/r1cs/gadgets/randomizer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index fed113e..92a65ae 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -97,8 +97,11 @@ pub fn randomizer_gadget<CS: ConstraintSystem>(
     poseidon_params: &PoseidonParams,
     sbox_type: &SboxType,
 ) -> Result<(), R1CSError> {
-    assert_eq!(new_tree.depth, depth);
-    assert_eq!(indices.len(), orig_vals.len());
+    if new_tree.depth != depth || indices.len() != orig_vals.len() {
+        return Err(R1CSError::GadgetError {
+            description: String::from("The depth should be that of the new tree and there should be an original value for each index"),
+        });
+    }
 
     let statics: Vec<LinearCombination> = statics.into_iter().map(|s| s.into()).collect();
 
@@ -216,6 +219,12 @@ pub fn gen_proof_for_randomizer(
 ) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
     let orig_root = &orig_tree.root;
 
+    if orig_tree.depth != tree_depth || modified_indices.len() != orig_vals.len() {
+        return Err(R1CSError::GadgetError {
+            description: String::from("The depth should be that of the original tree and there should be an original value for each index"),
+        });
+    }
+
     let mut prover_transcript = Transcript::new(transcript_label);
     let mut prover = Prover::new(&g, &h, &mut prover_transcript);
 
@@ -232,7 +241,11 @@ pub fn gen_proof_for_randomizer(
         let mut merkle_proof_vec = Vec::<ProofNode_4_ary>::new();
         let mut merkle_proof = Some(merkle_proof_vec);
         let _v = orig_tree.get(&modified_indices[i], &mut merkle_proof, orig_db)?;
-        assert_eq!(_v, orig_vals[i]);
+        if _v != orig_vals[i] {
+            return Err(R1CSError::GadgetError {
+                description: format!("Original value {} is not in the original tree", i),
+            });
+        }
         let (com_orig_val, var_orig_val) = prover.commit(_v, FieldElement::random());
         comms.push(com_orig_val);
         orig_val_vars.push(var_orig_val);
-- 
2.43.0


From 47ffcad4b132210c61bcc7cf50093b844112a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:01 +0000
Subject: [PATCH 17/18] fix: MiMC circuit reports missing round constants as an
 error instead of panicking

---
 src/r1cs/gadgets/helper_constraints/mimc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/r1cs/gadgets/helper_constraints/mimc.rs b/src/r1cs/gadgets/helper_constraints/mimc.rs
index f0e8f88..fcc4cc7 100644
--- a/src/r1cs/gadgets/helper_constraints/mimc.rs
+++ b/src/r1cs/gadgets/helper_constraints/mimc.rs
@@ -54,6 +54,16 @@ pub fn enforce_mimc_2_inputs<CS: ConstraintSystem>(
     mimc_rounds: usize,
     mimc_constants: &[FieldElement],
 ) -> Result<LinearCombination, R1CSError> {
+    if mimc_constants.len() < mimc_rounds {
+        return Err(R1CSError::GadgetError {
+            description: format!(
+                "{} rounds need as many constants but only {} were given",
+                mimc_rounds,
+                mimc_constants.len()
+            ),
+        });
+    }
+
     let mut left_v = left;
     let mut right_v = right;
 
-- 
2.43.0


From 07bedf89f2d2ea18e015197f3d0376f12a57a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:25 +0000
Subject: [PATCH 18/18] fix: deriving zero indices to modify returns no index
 instead of panicking

---
 src/r1cs/gadgets/randomizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/r1cs/gadgets/randomizer.rs b/src/r1cs/gadgets/randomizer.rs
index 92a65ae..107dd2f 100644
--- a/src/r1cs/gadgets/randomizer.rs
+++ b/src/r1cs/gadgets/randomizer.rs
@@ -42,6 +42,11 @@ pub fn get_indices_to_modify(
     data_size: usize,
     count_modified: usize,
 ) -> HashSet<FieldElement> {
+    if count_modified == 0 {
+        // `shake` cannot fill an empty buffer
+        return HashSet::new();
+    }
+
     let mut hasher = SHA3::new(SHAKE256);
     for b in nonce.to_bytes() {
         hasher.process(b);
-- 
2.43.0

