From 2544d094296408e52c10cd62a59e05b6c47359f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 01/23] fix: equalize polynomial sizes with the front extension
 so mixed-size commitments can be opened

---
 src/tracker/prover_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..6b9ffeb 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // adding the new variables at the front is the extension that keeps the commitment of the smaller poly valid, so it can still be opened at the sumcheck point
             }
         }
 
-- 
2.43.0


From 206f9df2e70673355dfeb4b5591926500ee7461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 02/23] fix: verify_claims rejects when the batch opening proof
 does not verify

---
 src/tracker/verifier_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..b869105 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidProof("batch opening proof is invalid".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From ef0485a4d75ec54ec6fb77b6c3e71062419d1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 03/23] fix: batch verification opens at the point derived from
 the transcript, not one chosen by the prover

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..5ff2750 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -244,6 +244,11 @@ where
             ));
         },
     };
+    if subclaim.point != proof.sum_check_proof.point {
+        return Err(PCSError::InvalidProof(
+            "batch proof's sumcheck point is not the one derived from the transcript".to_string(),
+        ));
+    }
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From 0b5b1b49db9b6746965b7cdb5f06ec386f3ed829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 04/23] fix: absorb the claimed evaluations before sampling the
 batch opening challenge

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 5ff2750..f97d867 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -68,6 +68,9 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // bind the claimed evaluations before they are batched
+    transcript.append_serializable_element(b"evals", &evals.to_vec())?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -199,6 +202,9 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // bind the claimed evaluations before they are batched
+    transcript.append_serializable_element(b"evals", &proof.f_i_eval_at_point_i)?;
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From aefaad8035e27c5ad0fca9c2c6e501854685e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 05/23] fix: batch open and verify a single polynomial

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index f97d867..5b2fa3e 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -66,7 +66,7 @@ where
     // TODO: sanity checks
     let num_var = polynomials[0].num_vars;
     let k = polynomials.len();
-    let ell = log2(k) as usize;
+    let ell = log2(k).max(1) as usize; // eq(t, i) needs at least one variable
 
     // bind the claimed evaluations before they are batched
     transcript.append_serializable_element(b"evals", &evals.to_vec())?;
@@ -199,7 +199,7 @@ where
     // TODO: sanity checks
 
     let k = f_i_commitments.len();
-    let ell = log2(k) as usize;
+    let ell = log2(k).max(1) as usize; // eq(t, i) needs at least one variable
     let num_var = proof.sum_check_proof.point.len();
 
     // bind the claimed evaluations before they are batched
-- 
2.43.0


From 076dc72933f210068111bfac41721860a648418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 06/23] fix: reject KZG opening proofs with the wrong number of
 quotients

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..3d64960 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -282,6 +282,9 @@ fn verify_internal<E: Pairing>(
             num_var, verifier_param.num_vars
         )));
     }
+    if proof.proofs.len() != num_var {
+        return Ok(false);
+    }
 
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
-- 
2.43.0


From 769f2025297a71a0833209af8feb0e9b5d594ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 07/23] fix: malformed sumcheck and zerocheck proofs are
 errors, not panics

---
 src/subroutines/poly_iop/sum_check/mod.rs      | 10 +++++++++-
 src/subroutines/poly_iop/sum_check/verifier.rs |  5 +++++
 src/subroutines/poly_iop/zero_check/mod.rs     |  6 ++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..2024173 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -189,10 +189,18 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
     ) -> Result<Self::SumCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "sum check verify");
 
+        if proof.proofs.len() != aux_info.num_variables {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "incorrect number of sumcheck rounds: {} vs {}",
+                proof.proofs.len(),
+                aux_info.num_variables
+            )));
+        }
+
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
         for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+            let prover_msg = &proof.proofs[i];
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..62fc891 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -158,6 +158,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             .zip(expected_vec.iter())
             .take(self.num_vars)
         {
+            if evaluations.len() < 2 {
+                return Err(PolyIOPErrors::InvalidProof(
+                    "a sumcheck round message needs at least two evaluations".to_string(),
+                ));
+            }
             // the deferred check during the interactive phase:
             // 1. check if the received 'P(0) + P(1) = expected`.
             if evaluations[0] + evaluations[1] != expected {
diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..b90e356 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -88,6 +88,12 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
     ) -> Result<Self::ZeroCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "zero check verify");
 
+        if proof.proofs.first().map_or(0, |msg| msg.evaluations.len()) < 2 {
+            return Err(PolyIOPErrors::InvalidProof(
+                "zero check: the first round message is missing or incomplete".to_string(),
+            ));
+        }
+
         // check that the sum is zero
         if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
-- 
2.43.0


From 5030596bd6d47a28b97145cfbac2f11dd8003ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 08/23] fix: verify_claims opens the commitments the verifier
 tracks and does not panic on a proof without openings

---
 src/tracker/verifier_tracker.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index b869105..93a3c6b 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -390,11 +390,13 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
 
         // verify the batch pcs proof
         let sumcheck_point = iop_verify_subclaim.point.clone();
-        let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
+        let mut comm_ids = self.materialized_comms.keys().cloned().collect::<Vec<TrackerID>>();
         comm_ids.sort(); // sort so the transcript is generated consistently
         let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-        let batch_proof = self.proof.pcs_proof[0].clone();
+        let batch_proof = self.proof.pcs_proof.first().cloned().ok_or_else(|| {
+            PolyIOPErrors::InvalidProof("the batch opening proof is missing".to_string())
+        })?;
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
         if !pcs_verify_res? {
             return Err(PolyIOPErrors::InvalidProof("batch opening proof is invalid".to_string()));
-- 
2.43.0


From e4c45727fcbec77f1e28450b72ad6894a1869776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 09/23] fix: batch open and verify report mismatched or empty
 batches instead of panicking or truncating

---
 .../pcs/multilinear_kzg/batching.rs            | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 5b2fa3e..af8c30c 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -64,8 +64,16 @@ where
     let open_timer = start_timer!(|| format!("multi open {} points", points.len()));
 
     // TODO: sanity checks
-    let num_var = polynomials[0].num_vars;
     let k = polynomials.len();
+    if k == 0 || points.len() != k || evals.len() != k {
+        return Err(PCSError::InvalidParameters(format!(
+            "batch of {} polynomials, {} points and {} evaluations",
+            k,
+            points.len(),
+            evals.len()
+        )));
+    }
+    let num_var = polynomials[0].num_vars;
     let ell = log2(k).max(1) as usize; // eq(t, i) needs at least one variable
 
     // bind the claimed evaluations before they are batched
@@ -199,6 +207,14 @@ where
     // TODO: sanity checks
 
     let k = f_i_commitments.len();
+    if k == 0 || points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidProof(format!(
+            "batch of {} commitments, {} points and {} evaluations",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
     let ell = log2(k).max(1) as usize; // eq(t, i) needs at least one variable
     let num_var = proof.sum_check_proof.point.len();
 
-- 
2.43.0


From d26830980d382e6b2f6832082c83f70e690d6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 10/23] fix: increase_nv_back drops the added variables instead
 of keeping that many

---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 93a3c6b..37c1b50 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From d5c89227fb0d89a3cfa7b03476756ddf22763e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 11/23] fix: absorb the claimed sums before sampling the
 challenges that batch them

---
 src/tracker/prover_tracker.rs   | 2 ++
 src/tracker/verifier_tracker.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 6b9ffeb..c32691a 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -553,6 +553,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         // 1.5) aggregate the sumcheck claims
         let mut sumcheck_poly = self.track_mat_poly(DenseMultilinearExtension::<E::ScalarField>::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)]));
         let mut sc_sum = E::ScalarField::zero();
+        let claimed_sums: Vec<E::ScalarField> = self.sum_check_claims.iter().map(|claim| claim.claimed_sum).collect();
+        self.append_serializable_element(b"claimed sums", &claimed_sums)?; // bind the sums before they are batched
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 37c1b50..b8845b8 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -374,6 +374,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
+        let claimed_sums: Vec<E::ScalarField> = self.sum_check_claims.iter().map(|claim| claim.claimed_sum).collect();
+        self.append_serializable_element(b"claimed sums", &claimed_sums)?; // bind the sums before they are batched
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
-- 
2.43.0


From 520dac44564cef434d535d5ae13bc03bc773401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 12/23] fix: aggregate table rows as C0 + r*C1 + r^2*C2 + ...
 so distinct rows do not collide

---
 src/zksql_poly_iop/index_transform/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..c52226e 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +35,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From 9c745743e80848a6e575f1e97b274ceae1b9ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 13/23] fix: bag_lmr_split walks the sorted active elements,
 not the unsorted rows

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..9988754 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,34 +62,26 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
-    }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
-    }
+    l_evals.extend_from_slice(&sorted_a_evals[a_counter..]);
+    r_evals.extend_from_slice(&sorted_b_evals[b_counter..]);
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0


From d0b5a43f6806b32b86fbcd77d61680c1b2e5aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 14/23] fix: GROUP BY ... SUM returns the summed column

---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From ad813f6b51281ab0a5f70d66c1cdca9586ae254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 15/23] fix: the one-to-many join's key check ignores inactive
 rows

---
 .../final_join_one_to_many/final_join_one_to_many.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..d6907a5 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -1,6 +1,7 @@
 
 use ark_ec::pairing::Pairing;
 use ark_poly::DenseMultilinearExtension;
+use ark_std::Zero;
 use std::collections::HashMap;
 use std::marker::PhantomData;
 
@@ -64,8 +65,12 @@ where PCS: PolynomialCommitmentScheme<E> {
         #[cfg(debug_assertions)] 
         {
             let table_a_join_col_evals = table_a.col_vals[a_join_col_index].evaluations();
+            let table_a_sel_evals = table_a.selector.evaluations();
             let mut counts = HashMap::<E::ScalarField, usize>::new();
             for i in 0..table_a_join_col_evals.len() {
+                if table_a_sel_evals[i].is_zero() {
+                    continue; // inactive rows are not part of the table
+                }
                 let val = table_a_join_col_evals[i];
                 let count = counts.entry(val).or_insert(0);
                 *count += 1;
-- 
2.43.0


From 3ab10d377fbc3478efb43bf67d91355477489832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 16/23] fix: tracked commitments are equal only when they are
 the same commitment

---
 src/tracker/verifier_wrapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_wrapper.rs b/src/tracker/verifier_wrapper.rs
index 5056fce..135f39d 100644
--- a/src/tracker/verifier_wrapper.rs
+++ b/src/tracker/verifier_wrapper.rs
@@ -173,7 +173,7 @@ pub struct TrackedComm<E: Pairing, PCS: PolynomialCommitmentScheme<E>> {
 }
 impl <E: Pairing, PCS: PolynomialCommitmentScheme<E>> PartialEq for TrackedComm<E, PCS> {
     fn eq(&self, other: &Self) -> bool {
-        Rc::ptr_eq(&self.tracker, &other.tracker)
+        self.id == other.id && Rc::ptr_eq(&self.tracker, &other.tracker)
     }
 }
 impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedComm<E, PCS> {
-- 
2.43.0


From 6e4968f5283a0248021fd8724d39bed4c8e893dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 17/23] fix: reading a virtual polynomial's evaluations leaves
 the polynomial unchanged

---
 src/tracker/prover_tracker.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index c32691a..d8ce690 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -343,8 +343,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_front(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = &self.materialize_poly(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_front(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
@@ -352,19 +351,20 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_back(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = &self.materialize_poly(poly_id);
         let base_nv = base_mle.num_vars();
         let res_mle = dmle_increase_nv_back(base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
         res_id
     }
 
-    fn materialize_poly(&mut self, id: TrackerID) {
+    // the multilinear extension of a polynomial's evaluations; leaves the tracked polynomial as it is,
+    // since a product of multilinear polynomials is not multilinear away from the boolean hypercube
+    fn materialize_poly(&self, id: TrackerID) -> Arc<DenseMultilinearExtension<E::ScalarField>> {
         // look up the virtual polynomial
         let mat_poly = self.materialized_polys.get(&id);
         if mat_poly.is_some() {
-            return // already materialized
+            return mat_poly.unwrap().clone(); // already materialized
         }
         let virt_poly = self.virtual_polys.get(&id);
         if virt_poly.is_none() {
@@ -380,7 +380,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         let prod_evaluations: Vec<Vec<E::ScalarField>> = virt_poly.iter().map(|(coeff, prod)| {
             let mut res = vec![coeff.clone(); 2_usize.pow(nv as u32)];
             prod.iter().for_each(|poly| {
-                let poly_evals = self.evaluations(*poly);
+                let poly_evals = &self.get_mat_poly(*poly).unwrap().evaluations;
                 res = res.iter()
                     .zip(poly_evals.iter())
                     .map(|(a, b)| *a * b)
@@ -398,10 +398,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
                 .collect()
         });
 
-        // cache the result by updating the materialized poly map
-        let mle = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals));
-        self.materialized_polys.insert(id.clone(), mle);
-        self.virtual_polys.remove(&id);
+        Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals))
     }
 
     pub fn evaluate(&self, id: TrackerID, pt: &[E::ScalarField]) -> Option<E::ScalarField>{
@@ -437,10 +434,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         Some(eval)
     }
 
-    pub fn evaluations(&mut self, id: TrackerID) -> &Vec<E::ScalarField> {
-        self.materialize_poly(id);
-        let mat_poly = self.materialized_polys.get(&id).unwrap();
-        return &mat_poly.evaluations;
+    pub fn evaluations(&self, id: TrackerID) -> Vec<E::ScalarField> {
+        self.materialize_poly(id).evaluations.clone()
     }
 
     pub fn get_and_append_challenge(&mut self, label: &'static [u8]) -> Result<E::ScalarField, TranscriptError> {
-- 
2.43.0


From d9224c50e43417b057d7b3d7d2322a7581cbc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 18/23] verif hooks: re-export internals for the external
 harness under cfg(zksql_verif)

---
 src/subroutines/mod.rs                   |  3 ++
 src/subroutines/verif_hooks.rs           | 35 ++++++++++++++++++++++++
 src/tracker/mod.rs                       |  3 ++
 src/tracker/verif_hooks.rs               |  8 ++++++
 src/zksql_poly_iop/join_reduction/mod.rs |  5 +++-
 src/zksql_poly_iop/mod.rs                |  5 +++-
 src/zksql_poly_iop/verif_hooks.rs        | 27 ++++++++++++++++++
 7 files changed, 84 insertions(+), 2 deletions(-)
 create mode 100644 src/subroutines/verif_hooks.rs
 create mode 100644 src/tracker/verif_hooks.rs
 create mode 100644 src/zksql_poly_iop/verif_hooks.rs

diff --git a/src/subroutines/mod.rs b/src/subroutines/mod.rs
index 5281aeb..2c4bb50 100644
--- a/src/subroutines/mod.rs
+++ b/src/subroutines/mod.rs
@@ -9,3 +9,6 @@ pub mod poly_iop;
 
 pub use pcs::prelude::*;
 pub use poly_iop::prelude::*;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks;
diff --git a/src/subroutines/verif_hooks.rs b/src/subroutines/verif_hooks.rs
new file mode 100644
index 0000000..efd391b
--- /dev/null
+++ b/src/subroutines/verif_hooks.rs
@@ -0,0 +1,35 @@
+//! Access to the private parts of the proof messages for the external verification harness.
+//! Only compiled with `--cfg zksql_verif`.
+
+use crate::subroutines::{
+    pcs::{prelude::BatchProof, PolynomialCommitmentScheme},
+    poly_iop::structs::{IOPProof, IOPProverMessage},
+};
+use ark_ec::pairing::Pairing;
+use ark_ff::PrimeField;
+
+pub fn round_message<F: PrimeField>(evaluations: Vec<F>) -> IOPProverMessage<F> {
+    IOPProverMessage { evaluations }
+}
+
+pub fn round_evaluations<F: PrimeField>(message: &IOPProverMessage<F>) -> Vec<F> {
+    message.evaluations.clone()
+}
+
+pub fn batch_proof<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    sum_check_proof: IOPProof<E::ScalarField>,
+    f_i_eval_at_point_i: Vec<E::ScalarField>,
+    g_prime_proof: PCS::Proof,
+) -> BatchProof<E, PCS> {
+    BatchProof { sum_check_proof, f_i_eval_at_point_i, g_prime_proof }
+}
+
+pub fn batch_proof_parts<E: Pairing, PCS: PolynomialCommitmentScheme<E>>(
+    proof: &BatchProof<E, PCS>,
+) -> (IOPProof<E::ScalarField>, Vec<E::ScalarField>, PCS::Proof) {
+    (
+        proof.sum_check_proof.clone(),
+        proof.f_i_eval_at_point_i.clone(),
+        proof.g_prime_proof.clone(),
+    )
+}
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..8923c43 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,6 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks;
diff --git a/src/tracker/verif_hooks.rs b/src/tracker/verif_hooks.rs
new file mode 100644
index 0000000..a203d48
--- /dev/null
+++ b/src/tracker/verif_hooks.rs
@@ -0,0 +1,8 @@
+//! Re-exports of the tracker internals for the external verification harness.
+//! Only compiled with `--cfg zksql_verif`.
+
+pub use super::{
+    prover_tracker::ProverTracker,
+    tracker_structs::{CompiledZKSQLProof, TrackerSumcheckClaim, TrackerZerocheckClaim},
+    verifier_tracker::VerifierTracker,
+};
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..fb430d3 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,6 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(zksql_verif)]
+pub use utils::calc_join_reduction_lr_sel_advice;
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..e1fcd48 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,7 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+
+#[cfg(zksql_verif)]
+pub mod verif_hooks;
diff --git a/src/zksql_poly_iop/verif_hooks.rs b/src/zksql_poly_iop/verif_hooks.rs
new file mode 100644
index 0000000..12bc4fd
--- /dev/null
+++ b/src/zksql_poly_iop/verif_hooks.rs
@@ -0,0 +1,27 @@
+//! Re-exports of the IOPs for the external verification harness.
+//! Only compiled with `--cfg zksql_verif`.
+
+pub use super::{
+    bag_disjoint::{bag_disjoint::BagDisjointIOP, utils::*},
+    bag_eq::bag_eq::BagEqIOP,
+    bag_inclusion::{bag_inclusion::BagInclusionIOP, utils::*},
+    bag_multitool::bag_multitool::BagMultitoolIOP,
+    bag_no_zeros::BagNoZerosIOP,
+    bag_presc_perm::bag_presc_perm::BagPrescPermIOP,
+    bag_sort::bag_sort::BagStrictSortIOP,
+    bag_sum::bag_sum::BagSumIOP,
+    bag_supp::{bag_supp::BagSuppIOP, utils::*},
+    cross_product::cross_product::CrossProductIOP,
+    final_join_one_to_many::{final_join_one_to_many::FinalJoinOneToManyIOP, utils::*},
+    group_by::group_by::{
+        AggregationType, GroupByIOP, GroupByInstructionWithProvingAdvice, GroupByInstructionWithVerifyingAdvice,
+    },
+    index_transform::{index_transform::IndexTransformIOP, utils::*},
+    join_reduction::{calc_join_reduction_lr_sel_advice, join_reduction::JoinReductionIOP},
+    selector_valid::selector_valid::SelectorValidIOP,
+    set_diff::set_diff::SetDiffIOP,
+    set_disjoint::set_disjoint::SetDisjointIOP,
+    set_intersect::set_intersect::SetIntersectIOP,
+    set_union::set_union::SetUnionIOP,
+    util::prelude::*,
+};
-- 
2.43.0


From 8df9897a784fa0ec5b2f1680eeaf7212d7c0f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 19/23] fix: multi_open returns an error for polynomials and
 points of different sizes

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index af8c30c..398b4d5 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -74,6 +74,15 @@ where
         )));
     }
     let num_var = polynomials[0].num_vars;
+    if num_var == 0
+        || polynomials.iter().any(|poly| poly.num_vars != num_var)
+        || points.iter().any(|point| point.len() != num_var)
+    {
+        return Err(PCSError::InvalidParameters(
+            "batched polynomials and points must have the same, non-zero number of variables"
+                .to_string(),
+        ));
+    }
     let ell = log2(k).max(1) as usize; // eq(t, i) needs at least one variable
 
     // bind the claimed evaluations before they are batched
-- 
2.43.0


From 832157e46f1f516525eae0c646699227cc4263e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 20/23] fix: verify_claims rejects a proof with the wrong
 number of rounds before drawing a challenge per variable

---
 src/tracker/verifier_tracker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index b8845b8..7538535 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -366,6 +366,14 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
 
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
+        // nv comes with the proof: check it before doing work proportional to it
+        if self.proof.sc_proof.proofs.len() != nv {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "incorrect number of sumcheck rounds: {} vs {}",
+                self.proof.sc_proof.proofs.len(),
+                nv
+            )));
+        }
 
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
-- 
2.43.0


From 6c74ff01a0cb6a384653585599cb1e1c0ac6e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 21/23] fix: a sumcheck degree taken from a proof cannot
 overflow in the verifier

---
 src/subroutines/poly_iop/sum_check/verifier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index 62fc891..440be28 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -120,11 +120,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             .into_par_iter()
             .zip(self.challenges.clone().into_par_iter())
             .map(|(evaluations, challenge)| {
-                if evaluations.len() != self.max_degree + 1 {
+                if evaluations.len() != self.max_degree.saturating_add(1) {
                     return Err(PolyIOPErrors::InvalidVerifier(format!(
                         "incorrect number of evaluations: {} vs {}",
                         evaluations.len(),
-                        self.max_degree + 1
+                        self.max_degree.saturating_add(1)
                     )));
                 }
                 interpolate_uni_poly::<F>(&evaluations, challenge)
@@ -138,11 +138,11 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             .into_iter()
             .zip(self.challenges.clone().into_iter())
             .map(|(evaluations, challenge)| {
-                if evaluations.len() != self.max_degree + 1 {
+                if evaluations.len() != self.max_degree.saturating_add(1) {
                     return Err(PolyIOPErrors::InvalidVerifier(format!(
                         "incorrect number of evaluations: {} vs {}",
                         evaluations.len(),
-                        self.max_degree + 1
+                        self.max_degree.saturating_add(1)
                     )));
                 }
                 interpolate_uni_poly::<F>(&evaluations, challenge)
-- 
2.43.0


From b5f992e344759008c6705953506f7aada9508d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 22/23] fix: set disjointness accepted overlapping sets when
 the prover's sum had a non-boolean selector

---
 src/zksql_poly_iop/set_disjoint/set_disjoint.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
index c86edc4..6f03ee9 100644
--- a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
+++ b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
@@ -9,6 +9,7 @@ use crate::{
     zksql_poly_iop::{
         bag_sum::bag_sum::BagSumIOP,
         bag_sort::bag_sort::BagStrictSortIOP,
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 use ark_std::Zero;
@@ -54,7 +55,11 @@ where PCS: PolynomialCommitmentScheme<E> {
         // put the sum into the tracker
         let sum_poly = prover_tracker.track_and_commit_poly(sum_mle)?;
         let sum_sel_poly = prover_tracker.track_and_commit_poly(sum_sel_mle)?;
-        let sum_bag = &Bag::new(sum_poly, sum_sel_poly);
+        let sum_bag = &Bag::new(sum_poly, sum_sel_poly.clone());
+
+        // Prove the selector of the sum is boolean. Otherwise a single row of the sum 
+        // with selector 2 could stand for an element of both bags
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &sum_sel_poly)?;
 
         // Prove the bag_sum was created correctly
         BagSumIOP::<E, PCS>::prove(
@@ -87,7 +92,10 @@ where PCS: PolynomialCommitmentScheme<E> {
         let sum_comm = verifier_tracker.transfer_prover_comm(sum_id);
         let sum_sel_id = verifier_tracker.get_next_id();
         let sum_sel_comm = verifier_tracker.transfer_prover_comm(sum_sel_id);
-        let sum_bag = &BagComm::new(sum_comm, sum_sel_comm, sum_nv);
+        let sum_bag = &BagComm::new(sum_comm, sum_sel_comm.clone(), sum_nv);
+
+        // verify the selector of the sum is boolean
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &sum_sel_comm)?;
 
         // verify the bag_sum was created correctly
         BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;
-- 
2.43.0


From 040805e97503f5a2d5f3e16fa26d3064baa702e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 23/23] fix: a proof over single-row columns only panicked,
 there was no variable to run sumcheck on

---
 src/tracker/prover_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index d8ce690..bef15d9 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -485,7 +485,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     // Used as a preprocessing step before batching polynomials, 
     fn equalize_materialized_poly_nv(&mut self) -> usize {
         // calculate the max nv
-        let nv: usize = self.materialized_polys.iter().map(|(_, p)| p.num_vars()).max().ok_or(1).unwrap();
+        let nv: usize = self.materialized_polys.iter().map(|(_, p)| p.num_vars()).max().ok_or(1).unwrap().max(1); // sumcheck needs a variable, even if every column has a single row
 
         // increase the nv of all the polynomials
         for (_, poly) in self.materialized_polys.iter_mut() {
-- 
2.43.0

