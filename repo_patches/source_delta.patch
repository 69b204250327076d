From d4b11812dba70e40acb13d908bf083ae2e523dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 01/16] verification hooks behind cfg(zksql_verif)

---
 .../pcs/multilinear_kzg/batching.rs           | 19 +++++++++++++
 src/subroutines/poly_iop/structs.rs           | 11 ++++++++
 src/tracker/mod.rs                            |  8 ++++++
 src/zksql_poly_iop/join_reduction/mod.rs      |  4 ++-
 src/zksql_poly_iop/mod.rs                     | 27 ++++++++++++++++++-
 5 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..21ee07b 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -343,3 +343,22 @@ mod tests {
         Ok(())
     }
 }
+
+/// Verification hook: build and read a batch proof.
+#[cfg(zksql_verif)]
+impl<E, PCS> BatchProof<E, PCS>
+where
+    E: Pairing,
+    PCS: PolynomialCommitmentScheme<E>,
+{
+    pub fn verif_new(
+        sum_check_proof: IOPProof<E::ScalarField>,
+        f_i_eval_at_point_i: Vec<E::ScalarField>,
+        g_prime_proof: PCS::Proof,
+    ) -> Self {
+        Self { sum_check_proof, f_i_eval_at_point_i, g_prime_proof }
+    }
+    pub fn verif_parts(&self) -> (&IOPProof<E::ScalarField>, &PCS::Proof) {
+        (&self.sum_check_proof, &self.g_prime_proof)
+    }
+}
diff --git a/src/subroutines/poly_iop/structs.rs b/src/subroutines/poly_iop/structs.rs
index b0dae47..7d2f7ee 100644
--- a/src/subroutines/poly_iop/structs.rs
+++ b/src/subroutines/poly_iop/structs.rs
@@ -52,3 +52,14 @@ pub struct IOPVerifierState<F: PrimeField> {
     /// a list storing the randomness sampled by the verifier at each round
     pub(crate) challenges: Vec<F>,
 }
+
+/// Verification hook: build and read a prover message.
+#[cfg(zksql_verif)]
+impl<F: PrimeField> IOPProverMessage<F> {
+    pub fn verif_new(evaluations: Vec<F>) -> Self {
+        Self { evaluations }
+    }
+    pub fn verif_evaluations(&self) -> &[F] {
+        &self.evaluations
+    }
+}
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..5544d5c 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,11 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+
+/// Verification hook: names the tracker state for the checks outside the crate.
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::prover_tracker::*;
+    pub use super::tracker_structs::*;
+    pub use super::verifier_tracker::*;
+}
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..f48062a 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,5 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+#[cfg(zksql_verif)]
+pub use utils::calc_join_reduction_lr_sel_advice;
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..cc7a1d3 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,29 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+/// Verification hook: names the private gadgets for the checks outside the crate.
+#[cfg(zksql_verif)]
+pub mod verif_hooks {
+    pub use super::bag_disjoint::{bag_disjoint::*, utils::*};
+    pub use super::bag_eq::bag_eq::*;
+    pub use super::bag_inclusion::{bag_inclusion::*, utils::*};
+    pub use super::bag_multitool::bag_multitool::*;
+    pub use super::bag_no_zeros::BagNoZerosIOP;
+    pub use super::bag_presc_perm::bag_presc_perm::*;
+    pub use super::bag_sort::bag_sort::*;
+    pub use super::bag_sum::bag_sum::*;
+    pub use super::bag_supp::{bag_supp::*, utils::*};
+    pub use super::cross_product::{cross_product::*, utils::*};
+    pub use super::final_join_one_to_many::{final_join_one_to_many::*, utils::*};
+    pub use super::group_by::group_by::*;
+    pub use super::index_transform::{index_transform::*, utils::*};
+    pub use super::join_reduction::{calc_join_reduction_lr_sel_advice, join_reduction::*};
+    pub use super::selector_valid::selector_valid::*;
+    pub use super::set_diff::set_diff::*;
+    pub use super::set_disjoint::set_disjoint::*;
+    pub use super::set_intersect::set_intersect::*;
+    pub use super::set_union::set_union::*;
+    pub use super::util::prelude::*;
+}
-- 
2.43.0


From 601832c20ab17e6582e3f5a57e1acd36d180b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 02/16] fix: add_mle_list leaves the polynomial unchanged when
 it refuses a product

---
 src/arithmetic/virtual_polynomial.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arithmetic/virtual_polynomial.rs b/src/arithmetic/virtual_polynomial.rs
index 4bd8dce..932eaf5 100644
--- a/src/arithmetic/virtual_polynomial.rs
+++ b/src/arithmetic/virtual_polynomial.rs
@@ -147,16 +147,20 @@ impl<F: PrimeField> VirtualPolynomial<F> {
             ));
         }
 
-        self.aux_info.max_degree = max(self.aux_info.max_degree, mle_list.len());
-
-        for mle in mle_list {
+        // validate everything before modifying self: a refused product must
+        // leave the polynomial (and its degree) as it was
+        for mle in mle_list.iter() {
             if mle.num_vars != self.aux_info.num_variables {
                 return Err(ArithErrors::InvalidParameters(format!(
                     "product has a multiplicand with wrong number of variables {} vs {}",
                     mle.num_vars, self.aux_info.num_variables
                 )));
             }
+        }
 
+        self.aux_info.max_degree = max(self.aux_info.max_degree, mle_list.len());
+
+        for mle in mle_list {
             let mle_ptr: *const DenseMultilinearExtension<F> = Arc::as_ptr(&mle);
             if let Some(index) = self.raw_pointers_lookup_table.get(&mle_ptr) {
                 indexed_product.push(*index)
-- 
2.43.0


From 2ebc5364bdc4a78ad1e4c7dd66544b031389760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 03/16] fix: batch opening of a single polynomial no longer
 fails for lack of a batching challenge

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 21ee07b..3df8e62 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -21,6 +21,7 @@ use crate::{
 };
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
+use ark_ff::PrimeField;
 
 use ark_std::{end_timer, log2, start_timer, One, Zero};
 use std::{collections::BTreeMap, iter, marker::PhantomData, ops::Deref, sync::Arc};
@@ -72,7 +73,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = batching_coefficients(&t)?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -172,6 +173,14 @@ where
     })
 }
 
+/// eq(t, i) for i in [0..2^|t|]; a single polynomial is opened with weight one
+fn batching_coefficients<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build g' commitment
@@ -207,7 +216,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = batching_coefficients(&t)?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0


From cc4f52ba0d828bf4f7f6839cfac1f5781cf309c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 04/16] fix: batch verification checks lengths and that the
 opening point is the challenge point

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 3df8e62..8fab7b0 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -202,9 +202,15 @@ where
 {
     let open_timer = start_timer!(|| "batch verification");
 
-    // TODO: sanity checks
-
     let k = f_i_commitments.len();
+    if k == 0 || points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidParameters(format!(
+            "batch of {} commitments, {} points and {} evaluations",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
@@ -255,6 +261,13 @@ where
     };
     let tilde_g_eval = subclaim.expected_evaluation;
 
+    // a2 was read from the proof: it has to be the point of the challenges
+    if subclaim.point != proof.sum_check_proof.point {
+        return Err(PCSError::InvalidProof(
+            "Sumcheck point of the batch proof differs from the challenges".to_string(),
+        ));
+    }
+
     // verify commitment
     let res = PCS::verify(
         verifier_param,
-- 
2.43.0


From 871a46f69413a326a164f25f27609dd3383b8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 05/16] fix: batch opening absorbs the claimed evaluations
 before drawing the batching challenge

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 8fab7b0..76a18a5 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -69,6 +69,9 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // the claimed evaluations are fixed before the batching challenge is drawn
+    transcript.append_serializable_element(b"batch evaluations", &evals.to_vec())?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -214,6 +217,9 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // the claimed evaluations are fixed before the batching challenge is drawn
+    transcript.append_serializable_element(b"batch evaluations", &proof.f_i_eval_at_point_i)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From 8deb919544b7b8b0a6a50e3c476ec4fa77158c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 06/16] fix: verify_claims rejects when the batch opening does
 not verify

---
 src/tracker/prover_tracker.rs   | 2 +-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..feeca2f 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // increase_nv_back and increase_nv_front cause the same sums, but commitments of smaller polys are read at the last coordinates
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..8ed1376 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidVerifier("batch opening of the commitments does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 3d146acf31d3c1689370a3f5c9417941b67bf4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 07/16] fix: verifier increase_nv_back ignores the added
 variables instead of the original ones

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 8ed1376..857e3e0 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From e6673f40aa4751f5a9a26b861ebd1b1144f83310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 08/16] fix: claimed sums are absorbed before the challenges
 that combine them

---
 src/tracker/prover_tracker.rs   | 3 +++
 src/tracker/verifier_tracker.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index feeca2f..53fdfc5 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -553,6 +553,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         // 1.5) aggregate the sumcheck claims
         let mut sumcheck_poly = self.track_mat_poly(DenseMultilinearExtension::<E::ScalarField>::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)]));
         let mut sc_sum = E::ScalarField::zero();
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?; // bind the sums before they are combined
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 857e3e0..2f7f698 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -374,6 +374,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?; // bind the sums before they are combined
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
-- 
2.43.0


From a82ad0b8efd81905a9a681279bb24dd02ebe9600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 09/16] fix: bag_lmr_split merges the sorted active entries,
 not the table order

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..b00a6d2 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,33 +62,29 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
+    for i in a_counter..sorted_a_evals.len() {
+        l_evals.push(sorted_a_evals[i]);
     }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
+    for i in b_counter..sorted_b_evals.len() {
+        r_evals.push(sorted_b_evals[i]);
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
-- 
2.43.0


From 820d7be6a513e3bcf15e67194a234a350fe80f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 10/16] fix: bag_lmr_multiplicity_split walks the sorted
 entries and stays within them

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 58 +++++++++-----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index b00a6d2..4269c73 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -194,33 +194,33 @@ where
     let mut a_index = 0;
     let mut b_index = 0;
     while a_index < sorted_a_evals.len() && b_index < sorted_b_evals.len() {
-        if a_evals[a_index] < b_evals[b_index] {
+        if sorted_a_evals[a_index] < sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
+            let val = sorted_a_evals[a_index];
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
                 mul_counter += 1;
                 a_index += 1;
             }
-            l_evals.push(a_evals[a_index]);
+            l_evals.push(val);
             l_mul_evals.push(E::ScalarField::from(mul_counter));
-        } else if a_evals[a_index] > b_evals[b_index] {
+        } else if sorted_a_evals[a_index] > sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
+            let val = sorted_b_evals[b_index];
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
                 mul_counter += 1;
                 b_index += 1;
             }
-            r_evals.push(b_evals[b_index]);
+            r_evals.push(val);
             r_mul_evals.push(E::ScalarField::from(mul_counter));
         } else {
-            let match_eval = a_evals[a_index];
+            let match_eval = sorted_a_evals[a_index];
             let mut a_mul_counter: u64 = 0;
             let mut b_mul_counter: u64 = 0;
-            while a_index < sorted_a_evals.len() && a_evals[a_index] == match_eval {
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == match_eval {
                 a_mul_counter += 1;
                 a_index += 1;
             }
-            while b_index < sorted_b_evals.len() && b_evals[b_index] == match_eval {
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == match_eval {
                 b_mul_counter += 1;
                 b_index += 1;
             }
@@ -229,29 +229,25 @@ where
             m_bmul_evals.push(E::ScalarField::from(b_mul_counter));
         }
     }
-    for i in a_index..a_len {
-        if !a_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
+    while a_index < sorted_a_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_a_evals[a_index];
+        while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
+            mul_counter += 1;
+            a_index += 1;
         }
+        l_evals.push(val);
+        l_mul_evals.push(E::ScalarField::from(mul_counter));
     }
-    for i in b_index..b_len {
-        if !b_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
+    while b_index < sorted_b_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_b_evals[b_index];
+        while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
+            mul_counter += 1;
+            b_index += 1;
         }
+        r_evals.push(val);
+        r_mul_evals.push(E::ScalarField::from(mul_counter));
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
-- 
2.43.0


From ab5d2c84225e07cac1dd3ae9044ccd563718d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 11/16] fix: a table row is aggregated as a random combination
 of its columns, not their product

---
 src/zksql_poly_iop/index_transform/utils.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..5c85560 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table.col_vals.is_empty() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_prover_agg Error: table has no columns".to_string()));
+    }
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +38,12 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    if table_comm.col_vals.is_empty() {
+        return Err(PolyIOPErrors::InvalidParameters("table_row_verifier_agg Error: table has no columns".to_string()));
+    }
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From bcb427f599640578b97a3cc4e98def817272625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 12/16] fix: group by puts the proven sum column into the
 result table

---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From 9943c295ad240461aa2b4f151441a0245985ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 13/16] fix: group by checks that the selector of the groups is
 boolean

---
 src/zksql_poly_iop/group_by/group_by.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index 8365813..3651227 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -11,7 +11,8 @@ use crate::subroutines::pcs::PolynomialCommitmentScheme;
 use crate::{
     tracker::prelude::*,
     zksql_poly_iop::{
-        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice}
+        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice},
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 
@@ -132,6 +133,8 @@ where PCS: PolynomialCommitmentScheme<E> {
             &support_multiplicity_poly.clone(),
             range_bag,
         )?;
+        // the multiplicities are counts only if every group is selected exactly once
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &supp_sel_poly)?;
         let mut res_table_col_polys = Vec::<TrackedPoly<E, PCS>>::with_capacity(1 + group_by_instructions.agg_instr.len());
         res_table_col_polys.push(supp_poly.clone());
         let mut res_table = Table::new(res_table_col_polys, supp_sel_poly.clone());
@@ -221,6 +224,8 @@ where PCS: PolynomialCommitmentScheme<E> {
             &support_multiplicity_comm,
             &range_bag,
         )?;
+        // the multiplicities are counts only if every group is selected exactly once
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &supp_sel_comm)?;
         let mut res_table_col_comms = Vec::<TrackedComm<E, PCS>>::with_capacity(1 + group_by_instructions.agg_instr.len());
         res_table_col_comms.push(supp_comm.clone());
         let mut res_table = TableComm::new(res_table_col_comms, supp_sel_comm.clone(), res_table_nv);
-- 
2.43.0


From 57fba96b148e3f9cea549f3a6e2f61754c34a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 14/16] verification hook: name bag_lmr_multiplicity_split
 under cfg(zksql_verif)

---
 src/zksql_poly_iop/util/prelude.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/util/prelude.rs b/src/zksql_poly_iop/util/prelude.rs
index f0d51f3..71b0d63 100644
--- a/src/zksql_poly_iop/util/prelude.rs
+++ b/src/zksql_poly_iop/util/prelude.rs
@@ -2,4 +2,6 @@
 pub use crate::zksql_poly_iop::util::{
     intermed_bag_calc::{bag_lmr_split, set_lmr_split},
     multiplicity_count::{bag_multiplicity_count, mle_multiplicity_count, vec_multiplicity_count},
-};
\ No newline at end of file
+};
+#[cfg(zksql_verif)]
+pub use crate::zksql_poly_iop::util::intermed_bag_calc::bag_lmr_multiplicity_split;
-- 
2.43.0


From caa6cb095c48a01275c74d00f1b8b551e4c6cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 15/16] fix: set disjointness checks that the selector of the
 sum is boolean

---
 src/zksql_poly_iop/set_disjoint/set_disjoint.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
index c86edc4..7bb55e0 100644
--- a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
+++ b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
@@ -9,6 +9,7 @@ use crate::{
     zksql_poly_iop::{
         bag_sum::bag_sum::BagSumIOP,
         bag_sort::bag_sort::BagStrictSortIOP,
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 use ark_std::Zero;
@@ -56,6 +57,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_poly = prover_tracker.track_and_commit_poly(sum_sel_mle)?;
         let sum_bag = &Bag::new(sum_poly, sum_sel_poly);
 
+        // Prove the sum's selector is boolean: otherwise a shared element could be selected once with weight two
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &sum_bag.selector)?;
+
         // Prove the bag_sum was created correctly
         BagSumIOP::<E, PCS>::prove(
             prover_tracker,
@@ -89,6 +93,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_sel_comm = verifier_tracker.transfer_prover_comm(sum_sel_id);
         let sum_bag = &BagComm::new(sum_comm, sum_sel_comm, sum_nv);
 
+        // verify the sum's selector is boolean
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &sum_bag.selector)?;
+
         // verify the bag_sum was created correctly
         BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;
 
-- 
2.43.0


From c892fef2cad7c90373c303a7f8df91058c1f28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 16/16] fix: reading the table of a virtual polynomial leaves
 the polynomial virtual

---
 src/tracker/prover_tracker.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 53fdfc5..2a59d71 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -55,6 +55,7 @@ pub struct ProverTracker<E: Pairing, PCS: PolynomialCommitmentScheme<E>>{
     pub id_counter: usize,
     pub materialized_polys: HashMap<TrackerID, Arc<DenseMultilinearExtension<E::ScalarField>>>, // underlying materialized polynomials, keyed by label
     pub virtual_polys: HashMap<TrackerID, Vec<(E::ScalarField, Vec<TrackerID>)>>, // virtual polynomials, keyed by label. Invariant: a virt poly contains only material TrackerIDs
+    pub virtual_evals: HashMap<TrackerID, Arc<DenseMultilinearExtension<E::ScalarField>>>, // cached hypercube tables of virtual polynomials, keyed by label
     pub materialized_comms: HashMap<TrackerID, PCS::Commitment>,
     pub sum_check_claims: Vec<TrackerSumcheckClaim<E::ScalarField>>,
     pub zero_check_claims: Vec<TrackerZerocheckClaim<E::ScalarField>>,
@@ -68,6 +69,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
             id_counter: 0,
             virtual_polys: HashMap::new(),
             materialized_polys: HashMap::new(),
+            virtual_evals: HashMap::new(),
             materialized_comms: HashMap::new(),
             sum_check_claims: Vec::new(),
             zero_check_claims: Vec::new(),
@@ -343,8 +345,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_front(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = self.hypercube_table(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_front(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
@@ -352,18 +353,26 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_back(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = self.hypercube_table(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_back(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
         res_id
     }
 
+    // the table of a polynomial over the hypercube
+    fn hypercube_table(&mut self, id: TrackerID) -> &Arc<DenseMultilinearExtension<E::ScalarField>> {
+        self.materialize_poly(id);
+        match self.materialized_polys.get(&id) {
+            Some(mat_poly) => mat_poly,
+            None => self.virtual_evals.get(&id).unwrap(),
+        }
+    }
+
+    // makes sure that the table of a polynomial is available
     fn materialize_poly(&mut self, id: TrackerID) {
         // look up the virtual polynomial
-        let mat_poly = self.materialized_polys.get(&id);
-        if mat_poly.is_some() {
+        if self.materialized_polys.contains_key(&id) || self.virtual_evals.contains_key(&id) {
             return // already materialized
         }
         let virt_poly = self.virtual_polys.get(&id);
@@ -398,10 +407,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
                 .collect()
         });
 
-        // cache the result by updating the materialized poly map
+        // cache the table; away from the hypercube the polynomial is still the virtual one
         let mle = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals));
-        self.materialized_polys.insert(id.clone(), mle);
-        self.virtual_polys.remove(&id);
+        self.virtual_evals.insert(id.clone(), mle);
     }
 
     pub fn evaluate(&self, id: TrackerID, pt: &[E::ScalarField]) -> Option<E::ScalarField>{
@@ -438,9 +446,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn evaluations(&mut self, id: TrackerID) -> &Vec<E::ScalarField> {
-        self.materialize_poly(id);
-        let mat_poly = self.materialized_polys.get(&id).unwrap();
-        return &mat_poly.evaluations;
+        return &self.hypercube_table(id).evaluations;
     }
 
     pub fn get_and_append_challenge(&mut self, label: &'static [u8]) -> Result<E::ScalarField, TranscriptError> {
@@ -499,6 +505,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
                 *poly = dmle_increase_nv_front(poly, nv); // increase_nv_back and increase_nv_front cause the same sums, but commitments of smaller polys are read at the last coordinates
             }
         }
+        self.virtual_evals.clear(); // tables of the old sizes
 
         // need to update the claims because resizing messes stuff up
         let old_sumcheck_claims = self.sum_check_claims.clone();
-- 
2.43.0

