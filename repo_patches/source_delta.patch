From 620b4358ee839ac24e0382e23b8b1d307f0bc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 01/31] fix: pad witness columns to the domain size

A trace whose number of rows is not a power of two panicked in the FFT.
---
 src/arp/per_register/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index d78b9ba..6d4e095 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -43,6 +43,8 @@ fn make_witness_polymonials<F: PrimeField>(
     worker.scope(0, |scope, _| {
         for w in witness.iter_mut() {
             scope.spawn(move |_| {
+                // rows up to the domain size are padded with zeroes
+                w.resize(num_rows_sup, F::zero());
                 best_fft(&mut w[..], &worker, &omega_inv, log_n as u32, num_cpus_hint);
             });
         }
-- 
2.43.0


From 913453a78c537bd0303097b5bdcf3930700b3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 02/31] fix: extend to the whole constraints domain for any
 maximum degree

The extension factor was the maximum constraint degree itself, which panics
for degrees that are not a power of two, while the constraints domain is
rounded up.
---
 src/ali/per_register/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 62ac346..4a7227e 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -419,6 +419,9 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             Ok(base)
         }
 
+        // constraints domain size is rounded up to the power of two
+        let lde_factor = self.constraints_domain.size / self.column_domain.size;
+
         let mut evaluated_terms_map: IndexMap::<WitnessEvaluationData<F>, Polynomial<F, Values>> = IndexMap::new();
 
         // now evaluate normal constraints
@@ -452,7 +455,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                         t, 
                         &mask_applied_polynomials, 
                         &mut evaluated_terms_map, 
-                        self.max_constraint_power, 
+                        lde_factor, 
                         &worker
                     )?;
                     constraint_values.add_assign(&worker, &subval);
@@ -476,7 +479,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             g_values.add_assign(&worker, &batch_values);
         }
 
-        let boundary_lde_factor = self.max_constraint_power;
+        let boundary_lde_factor = lde_factor;
 
         // now evaluate normal constraints
         for b_c in self.properties.boundary_constraints.iter() {
-- 
2.43.0


From 556f2aae71d4b31738aa6bae844116be901cf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 03/31] fix: start every constraint batch from zero

With several constraint densities the values accumulated for the previous
densities were added again into every constraint of the following ones, so
the prover's G differed from the verifier's.
---
 src/ali/per_register/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 4a7227e..ed0ec0c 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -253,6 +253,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // all zeroes
         let mut g_values = Polynomial::<F, Values>::new_for_size(self.constraints_domain.size as usize)?;
+        let zero_values = g_values.clone();
 
         fn evaluate_for_mask<F: PrimeField> (
             mut f: Polynomial<F, Coefficients>,
@@ -426,7 +427,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
         // now evaluate normal constraints
         for (density, batch) in self.constraints_batched_by_density.iter() {
-            let mut batch_values = g_values.clone();
+            let mut batch_values = zero_values.clone();
             for c in batch.iter()   {
                 let constraint_power = c.degree;
                 assert!(self.max_constraint_power >= constraint_power);
@@ -449,7 +450,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     Some(adj_poly)
                 };
 
-                let mut constraint_values = g_values.clone();
+                let mut constraint_values = zero_values.clone();
                 for t in c.terms.iter() {
                     let subval = evaluate_constraint_term_into_values(
                         t, 
-- 
2.43.0


From 79ae6dff3344afaed388f9c6dc14411bb815324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 04/31] fix: support instances without transition constraints

The maximum power was 0, so the adjustment degree of boundary constraints
underflowed and the constraints domain was smaller than the column domain.
---
 src/ali/per_register/mod.rs | 3 ++-
 src/verifier/mod.rs         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index ed0ec0c..23d7c28 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -37,7 +37,8 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
         arp: ARPInstance<F, PerRegisterARP>, 
         worker: &Worker
     ) -> Result<ALIInstance<F, PerRegisterARP>, SynthesisError> {
-        let mut max_constraint_power: u64 = 0;
+        // boundary constraints alone are of degree one
+        let mut max_constraint_power: u64 = 1;
         for c in arp.properties.constraints.iter() {
             if c.degree > max_constraint_power {
                 max_constraint_power = c.degree;
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 98d3f13..a778653 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -177,7 +177,8 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let mut all_masks: IndexSet::<MaskProperties<F>> = IndexSet::new();
 
-        let mut max_constraint_power = 0u64;
+        // boundary constraints alone are of degree one
+        let mut max_constraint_power = 1u64;
 
         for c in instance.constraints.iter() {
             get_masks_from_constraint(&mut all_masks, c);
-- 
2.43.0


From f7647ecf235bda848e27b977e38b83488d887929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 05/31] fix: do not fold the last FRI layer once more in the
 proof

The proof opened (and the verifier folded) one layer more than the prover has folded before
outputting the final coefficients, so proofs with more than one final coefficient never verified.
---
 src/fri/query_producer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fri/query_producer.rs b/src/fri/query_producer.rs
index 8957bf4..d6af42e 100644
--- a/src/fri/query_producer.rs
+++ b/src/fri/query_producer.rs
@@ -18,8 +18,11 @@ impl<'a, F: PrimeField, I: IOP<F>> FRIProofPrototype<F, I> {
         let mut queries = vec![];
         let mut roots = vec![];
 
-        for (iop, leaf_values) in Some(self.l0_commitment).iter().chain(&self.intermediate_commitments)
-                                    .zip(Some(iop_values).into_iter().chain(&self.intermediate_values)) {
+        // every folding step opens the layer that it folds, and there is one challenge per step.
+        // The last layer is not folded, it's described by the final coefficients
+        for ((iop, leaf_values), _) in Some(self.l0_commitment).iter().chain(&self.intermediate_commitments)
+                                    .zip(Some(iop_values).into_iter().chain(&self.intermediate_values))
+                                    .zip(self.challenges.iter()) {
             
             let coset_values = <I::Combiner as CosetCombiner<F>>::get_coset_for_natural_index(domain_idx, domain_size);
 
-- 
2.43.0


From ce18d511429001ecb69bcb89809b99561bddc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 06/31] fix: check sizes claimed by a FRI proof

Number of rounds, queries and final coefficients were free for a prover to choose, so the degree was not
enforced, and inconsistent sizes or positions crashed the verifier.
---
 src/fri/verifier.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index dd40c3f..f2114d2 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -143,7 +143,36 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
 
         // start from the bottom: we need to get a "pair" and calculate FRI step
 
-        let domain = Domain::<F>::new_for_size((proof.initial_degree_plus_one * proof.lde_factor) as u64)?;
+        // sizes are claimed by the prover, so check that those are consistent with each other:
+        // each round halves the degree, and the final polynomial has to have the resulting degree
+
+        let initial_degree_plus_one = proof.initial_degree_plus_one;
+        if !initial_degree_plus_one.is_power_of_two() || !proof.lde_factor.is_power_of_two() {
+            return Err(SynthesisError::InvalidValue("initial degree and LDE factor must be powers of two".to_owned()));
+        }
+
+        let initial_domain_size = initial_degree_plus_one.checked_mul(proof.lde_factor).ok_or(
+            SynthesisError::InvalidValue("initial domain is too large".to_owned())
+        )?;
+
+        if natural_element_index >= initial_domain_size {
+            return Err(SynthesisError::InvalidValue(format!("natural index {} is not in the LDE domain of size {}", natural_element_index, initial_domain_size)));
+        }
+
+        let num_rounds = proof.roots.len();
+        if num_rounds == 0 || proof.queries.len() != num_rounds * degree {
+            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
+        }
+
+        let num_final_coefficients = proof.final_coefficients.len();
+        if num_final_coefficients != proof.output_coeffs_at_degree_plus_one
+            || !num_final_coefficients.is_power_of_two()
+            || initial_degree_plus_one.trailing_zeros() as usize != num_final_coefficients.trailing_zeros() as usize + num_rounds
+        {
+            return Err(SynthesisError::InvalidValue(format!("{} final coefficients can not be obtained from initial degree {} in {} rounds", num_final_coefficients, initial_degree_plus_one, num_rounds)));
+        }
+
+        let domain = Domain::<F>::new_for_size(initial_domain_size as u64)?;
 
         let domain_element = domain.generator.pow([natural_element_index as u64]);
 
@@ -167,10 +196,6 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let mut domain_size = domain.size as usize;
         let mut domain_idx = natural_element_index;
 
-        if proof.queries.len() % degree != 0 {
-            return Err(SynthesisError::InvalidValue("invalid number of queries".to_owned()));
-        }
-
         for (round, (root, queries)) in proof.roots.iter()
                                 .zip(proof.queries.chunks_exact(degree)) 
                                 .enumerate()
@@ -200,7 +225,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
                 if q.tree_index() != tree_index {
                     return Err(SynthesisError::InvalidValue(format!("invalid tree index for element at natural index {}: expected {}, got {}", c, tree_index, q.tree_index())));
                 }
-                assert!(q.natural_index() == *c, "coset values and produced queries are expected to be sorted!");
+                if q.natural_index() != *c {
+                    return Err(SynthesisError::InvalidValue("coset values and produced queries are expected to be sorted!".to_owned()));
+                }
             }
 
             for q in queries.iter() {
-- 
2.43.0


From e630f7a61b9403a769476529b5eb45bc744b7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 07/31] fix: check that low degree proofs are for the degree of
 the instance

---
 src/fri/mod.rs      | 15 +++++++++++++++
 src/verifier/mod.rs | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index c8ba386..7bd7afc 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -30,7 +30,10 @@ pub trait FriProofPrototype<F: PrimeField, I: IOP<F>> {
 }
 
 pub trait FriProof<F: PrimeField, I: IOP<F>> {
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput];
     fn get_final_coefficients(&self) -> &[F];
+    fn get_initial_degree_plus_one(&self) -> usize;
+    fn get_lde_factor(&self) -> usize;
 }
 
 pub trait FriIop<F: PrimeField> {
@@ -147,9 +150,21 @@ pub struct FRIProof<F: PrimeField, I: IOP<F>> {
 }
 
 impl<F: PrimeField, I: IOP<F>> FriProof<F, I> for FRIProof<F, I> {
+    fn get_roots(&self) -> &[< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput] {
+        &self.roots
+    }
+
     fn get_final_coefficients(&self) -> &[F] {
         &self.final_coefficients
     }
+
+    fn get_initial_degree_plus_one(&self) -> usize {
+        self.initial_degree_plus_one
+    }
+
+    fn get_lde_factor(&self) -> usize {
+        self.lde_factor
+    }
 }
 
 impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index a778653..73f9ada 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -344,6 +344,16 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             f_ldes_at_x.push(query.value());
         }
 
+        // degrees are a part of the statement, and are not chosen by the prover
+        for (fri_proof, degree_plus_one) in [
+            (&proof.fri_proof_h1, self.column_domain.size), 
+            (&proof.fri_proof_h2, self.constraints_domain.size)
+        ].iter() {
+            if fri_proof.get_initial_degree_plus_one() as u64 != *degree_plus_one || fri_proof.get_lde_factor() != self.lde_factor {
+                return Err(SynthesisError::Unsatisfied(format!("expected low degree proof for degree {} and LDE factor {}", degree_plus_one, self.lde_factor)));
+            }
+        }
+
         println!("Simularing H1 part");
 
         let h_1_at_x = self.simulate_h1_from_f_at_z(
-- 
2.43.0


From 0c8697d76809b8085834609fbe53265ec54d766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 08/31] fix: commit all FRI roots before drawing query
 positions

Only the final root was committed, and it was not tied to the low degree proof at all, so a prover could
replace any layer after seeing the position to be queried.
---
 src/fri/mod.rs      | 13 ++++++-------
 src/prover/mod.rs   | 10 ++++++----
 src/verifier/mod.rs | 14 ++++++++++----
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index 7bd7afc..752f856 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -121,13 +121,12 @@ pub struct FRIProofPrototype<F: PrimeField, I: IOP<F>> {
 
 impl<F: PrimeField, I: IOP<F>> FriProofPrototype<F, I> for FRIProofPrototype<F, I> {
     fn get_roots(&self) -> Vec< < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput> {
-        let mut roots = vec![];
-        roots.push(self.l0_commitment.get_root().clone());
-        for c in self.intermediate_commitments.iter() {
-            roots.push(c.get_root().clone());
-        }
-
-        roots
+        // one root per folding step. The last layer is described by the final coefficients
+        Some(&self.l0_commitment).into_iter()
+            .chain(self.intermediate_commitments.iter())
+            .zip(self.challenges.iter())
+            .map(|(c, _)| c.get_root())
+            .collect()
     }
 
     fn get_final_root(&self) -> < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput {
diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index d0a6e26..942503f 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -115,13 +115,15 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         let h1_iop_roots = h1_fri_proof_proto.get_roots();
         let h2_iop_roots = h2_fri_proof_proto.get_roots();
 
-        // TODO: we can also potentially commit intermediate roots
-
-        transcript.commit_bytes(&h1_fri_proof_proto.get_final_root().as_ref());
+        for r in h1_iop_roots.iter() {
+            transcript.commit_bytes(r.as_ref());
+        }
         for el in h1_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
-        transcript.commit_bytes(&h2_fri_proof_proto.get_final_root().as_ref());
+        for r in h2_iop_roots.iter() {
+            transcript.commit_bytes(r.as_ref());
+        }
         for el in h2_fri_proof_proto.get_final_coefficients().into_iter() {
             transcript.commit_field_element(&el);
         }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 73f9ada..3ba32fe 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -300,15 +300,21 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             scratch_space.h1_poly_challenges.push(alpha);
         }
 
-        // println!("Final root for h1 in verifier = {:?}", proof.h1_iop_roots.last().expect("there is one").as_ref());
-        // println!("Final root for h1 in verifier = {:?}", proof.h2_iop_roots.last().expect("there is one").as_ref());
+        // all the layers have to be fixed before positions to query them are known
+        if proof.h1_iop_roots[..] != *proof.fri_proof_h1.get_roots() || proof.h2_iop_roots[..] != *proof.fri_proof_h2.get_roots() {
+            return Err(SynthesisError::Unsatisfied("low degree proofs are not for the committed roots".to_owned()));
+        }
 
-        scratch_space.transcript.commit_bytes(proof.h1_iop_roots.last().expect("there is one").as_ref());
+        for r in proof.h1_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(r.as_ref());
+        }
         for el in proof.fri_proof_h1.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
 
-        scratch_space.transcript.commit_bytes(proof.h2_iop_roots.last().expect("there is one").as_ref());
+        for r in proof.h2_iop_roots.iter() {
+            scratch_space.transcript.commit_bytes(r.as_ref());
+        }
         for el in proof.fri_proof_h2.get_final_coefficients().iter() {
             scratch_space.transcript.commit_field_element(&el);
         }
-- 
2.43.0


From 90051929c0c698dc0ff5cb8bdf40f9128f6074cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 09/31] fix: commit values at the out of domain point before
 combining them

Challenges for a combination were known before the values were fixed, so a prover could choose the values
to compensate each other. A list of other length was accepted too.
---
 src/ali/per_register/deep.rs | 30 ++++++++++++++++++++++++++++--
 src/verifier/mod.rs          |  8 ++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/ali/per_register/deep.rs b/src/ali/per_register/deep.rs
index ab69ef7..ea51f24 100644
--- a/src/ali/per_register/deep.rs
+++ b/src/ali/per_register/deep.rs
@@ -53,7 +53,33 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             let witness_value_at_z = f_polys[reg_num].evaluate_at(&worker, root);
 
             f_at_z_m.push(witness_value_at_z);
-        
+        }
+
+        // claimed values have to be fixed before challenges to combine them are known
+        for v in f_at_z_m.iter() {
+            transcript.commit_field_element(v);
+        }
+
+        for (m, witness_value_at_z) in self.all_masks.iter().zip(f_at_z_m.iter()) {
+            let mut root = match m.steps_difference {
+                StepDifference::Mask(mask) => {
+                    mask
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+            root.mul_assign(&z);
+
+            let reg_num = match m.register {
+                Register::Register(reg_number) => {
+                    reg_number
+                },
+                _ => {
+                    unreachable!();
+                }
+            };
+
             let divisor = if let Some(d) = divisors_for_masks.get(&m.steps_difference) {
                 d
             } else {
@@ -72,7 +98,7 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             };
 
             let mut f_minus_f_at_z = f_ldes[reg_num].clone();
-            let mut minus_witness_value_at_z = witness_value_at_z;
+            let mut minus_witness_value_at_z = *witness_value_at_z;
             minus_witness_value_at_z.negate();
             f_minus_f_at_z.add_constant(&worker, &minus_witness_value_at_z);
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 3ba32fe..c435fe0 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -294,6 +294,14 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
         let z = scratch_space.transcript.get_challenge();
 
+        if proof.f_at_z_m.len() != self.all_masks.len() {
+            return Err(SynthesisError::Unsatisfied(format!("expected {} values at out of domain point, proof contains {}", self.all_masks.len(), proof.f_at_z_m.len())));
+        }
+
+        for el in proof.f_at_z_m.iter() {
+            scratch_space.transcript.commit_field_element(el);
+        }
+
         for _ in self.all_masks.iter() {
             let alpha = scratch_space.transcript.get_challenge();
 
-- 
2.43.0


From b95f66aa8556f296377f4038c92d3933e1362e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/31] fix: derive challenges for fields of any bit width

Masking only a part of the last limb panics (or keeps a part of the bits only) if a capacity of the field is
not in the last limb of a representation.
---
 src/iop/blake2s_trivial_iop.rs |  7 ++-----
 src/transcript/mod.rs          |  6 ++----
 src/utils/mod.rs               | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 4f08daa..21e3e26 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -1,7 +1,7 @@
 use ff::{PrimeField, PrimeFieldRepr};
 use blake2s_simd::{Params, State};
 use crate::fft::multicore::Worker;
-use crate::utils::log2_floor;
+use crate::utils::{log2_floor, shave_to_capacity};
 use super::*;
 use super::trivial_coset_combiner::*;
 
@@ -20,7 +20,6 @@ pub struct Blake2sLeafEncoder<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sLeafEncoder<F>  {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     pub fn new() -> Self {
         assert!(F::NUM_BITS < 256);
 
@@ -48,11 +47,9 @@ impl<F: PrimeField> HashEncoder<F> for Blake2sLeafEncoder<F>{
     fn interpret_hash(value: &Self::Input) -> F {
         let value = *value;
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
         // repr.read_le(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         // let value = F::from_raw_repr(repr).expect("in a field");
         let value = F::from_repr(repr).expect("in a field");
 
diff --git a/src/transcript/mod.rs b/src/transcript/mod.rs
index ce3e407..bac3f3c 100644
--- a/src/transcript/mod.rs
+++ b/src/transcript/mod.rs
@@ -1,5 +1,6 @@
 use blake2s_simd::{Params, State};
 use ff::{PrimeField, PrimeFieldRepr};
+use crate::utils::shave_to_capacity;
 
 /*
 
@@ -32,7 +33,6 @@ pub struct Blake2sTranscript<F: PrimeField> {
 }
 
 impl<F: PrimeField> Blake2sTranscript<F> {
-    const SHAVE_BITS: u32 = 256 - F::CAPACITY;
     const REPR_SIZE: usize = std::mem::size_of::<F::Repr>();
 }
 
@@ -69,10 +69,8 @@ impl<F: PrimeField> Transcript<F> for Blake2sTranscript<F> {
         self.state.update(&value[..]);
         
         let mut repr = F::Repr::default();
-        let shaving_mask: u64 = 0xffffffffffffffff >> (Self::SHAVE_BITS % 64);
         repr.read_be(&value[..]).expect("will read");
-        let last_limb_idx = repr.as_ref().len() - 1;
-        repr.as_mut()[last_limb_idx] &= shaving_mask;
+        shave_to_capacity::<F>(&mut repr);
         let value = F::from_repr(repr).expect("in a field");
 
         value
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e63dbb..56b62d8 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -1,3 +1,4 @@
+use ff::PrimeField;
 use tiny_keccak::Keccak;
 use blake2s_simd;
 use crypto::sha2::Sha256;
@@ -11,6 +12,19 @@ This module contains a set of helper functions that will be cleaned up later.
 
 pub mod poly;
 
+/// keeps only F::CAPACITY lowest bits, so the representation is always for an element of the field
+pub(crate) fn shave_to_capacity<F: PrimeField>(repr: &mut F::Repr) {
+    let mut bits = F::CAPACITY;
+    for limb in repr.as_mut().iter_mut() {
+        if bits < 64 {
+            *limb &= (1u64 << bits) - 1;
+            bits = 0;
+        } else {
+            bits -= 64;
+        }
+    }
+}
+
 pub trait Hasher: Sized + Clone {
     fn new(personalization: &[u8]) -> Self;
     fn update(&mut self, data: &[u8]);
-- 
2.43.0


From a3d9115a17e9a86c9bf9cbd1f9e1af329158f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/31] fix: do not verify a query at the index outside of the
 tree

---
 src/iop/blake2s_trivial_iop.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index 21e3e26..ce161a5 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -242,7 +242,8 @@ impl<'a, F: PrimeField> IopTree<F> for Blake2sIopTree<F> {
             idx >>= 1;
         }
 
-        &hash == root
+        // index must be inside of the tree of this depth
+        idx == 0 && &hash == root
     }
 
     fn get_path(&self, tree_index: usize, leafs_values: &[F]) -> Vec< <Self::Hasher as IopTreeHasher<F>>::HashOutput >{
-- 
2.43.0


From 6824d25d9a0d69243c72e31b0e4c4bb4f7367527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 12/31] fix: leave a polynomial unchanged if it can not be
 padded

---
 src/polynomials/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index ffae8d7..845a12f 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -86,15 +86,14 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         if factor == 1 {
             return Ok(());
         }
-        let next_power_of_two = factor.next_power_of_two();
-        if factor != next_power_of_two {
+        if !factor.is_power_of_two() {
             return Err(SynthesisError::Error);
         }
 
-        let new_size = self.coeffs.len() * factor;
+        let new_size = self.coeffs.len().checked_mul(factor).ok_or(SynthesisError::Error)?;
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
@@ -108,13 +107,12 @@ impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
         if new_size < self.coeffs.len() {
             return Err(SynthesisError::Error);
         }
-        let next_power_of_two = new_size.next_power_of_two();
-        if new_size != next_power_of_two {
+        if !new_size.is_power_of_two() {
             return Err(SynthesisError::Error);
         }
+        let domain = Domain::new_for_size(new_size as u64)?;
         self.coeffs.resize(new_size, F::zero());
 
-        let domain = Domain::new_for_size(new_size as u64)?;
         self.exp = domain.power_of_two as u32;
         let m = domain.size as usize;
         self.omega = domain.generator;
-- 
2.43.0


From 8dc649e7b0cf754b1dff345e3aeec419350c0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 13/31] fix: return an error for a domain size over 2^63

---
 src/domains/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/domains/mod.rs b/src/domains/mod.rs
index 682377e..b0bb708 100644
--- a/src/domains/mod.rs
+++ b/src/domains/mod.rs
@@ -19,7 +19,7 @@ pub struct Domain<F: PrimeField> {
 
 impl<F: PrimeField> Domain<F> {
     pub fn new_for_size(size: u64) -> Result<Self, SynthesisError> {
-        let size = size.next_power_of_two();
+        let size = size.checked_next_power_of_two().ok_or(SynthesisError::Error)?;
         let mut power_of_two = 0;
         let mut k = size;
         while k != 1 {
-- 
2.43.0


From e7fa8ec7a26b643d33b39647d10fa196b77e3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 14/31] fix: raise a coefficient of the term to the power too

---
 src/air/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/air/constraint.rs b/src/air/constraint.rs
index dbb59d5..04990e4 100644
--- a/src/air/constraint.rs
+++ b/src/air/constraint.rs
@@ -186,6 +186,7 @@ impl<F: PrimeField> UnivariateTerm<F> {
         let new_power = self.power.checked_mul(power).expect("maximum power is limited to U64MAX");
         let mut new = self.clone();
         new.power = new_power;
+        new.coeff = self.coeff.pow([power]);
 
         new
     }
-- 
2.43.0


From 52fb55227c88914781b13d6a1150f79f1d374c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 15/31] fix: return an error if FRI has nothing to fold

---
 src/fri/fri_on_values.rs | 3 +++
 src/fri/mod.rs           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fri/fri_on_values.rs b/src/fri/fri_on_values.rs
index 6806d0c..41022fc 100644
--- a/src/fri/fri_on_values.rs
+++ b/src/fri/fri_on_values.rs
@@ -43,6 +43,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         assert!(lde_factor.is_power_of_two());
 
         let initial_degree_plus_one = initial_domain_size / lde_factor;
+        if initial_degree_plus_one <= output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue(format!("can not fold degree {} into {}", initial_degree_plus_one, output_coeffs_at_degree_plus_one)));
+        }
         let num_steps = log2_floor(initial_degree_plus_one / output_coeffs_at_degree_plus_one) as usize;
 
         let mut intermediate_commitments = vec![];
diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index 752f856..0fd0ae2 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -180,6 +180,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         assert!(lde_factor.is_power_of_two());
 
         let initial_degree_plus_one = initial_domain_size / lde_factor;
+        if initial_degree_plus_one <= output_coeffs_at_degree_plus_one {
+            return Err(SynthesisError::InvalidValue(format!("can not fold degree {} into {}", initial_degree_plus_one, output_coeffs_at_degree_plus_one)));
+        }
         let num_steps = log2_floor(initial_degree_plus_one / output_coeffs_at_degree_plus_one) as usize;
 
         let initial_polynomial = lde_values.ifft(&worker);
-- 
2.43.0


From e43f9c7e2c5b6c8f436b8790327c485d94bb00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 16/31] fix: do not panic on interpolation over repeated points

---
 src/utils/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/poly.rs b/src/utils/poly.rs
index de4d200..fc9c2d6 100644
--- a/src/utils/poly.rs
+++ b/src/utils/poly.rs
@@ -147,7 +147,7 @@ pub fn interpolate<F: Field>(
             }
         }
 
-        demoninator = demoninator.inverse().expect("denominator must be non-zero");
+        demoninator = demoninator.inverse()?;
         for (i, this_contribution) in contribution.into_iter().enumerate() {
             let c = coeffs.get_mut(i).expect("should have enough coefficients");
             let mut tmp = this_contribution;
-- 
2.43.0


From 2355004846776a4a252707f6f3aac0ae90bf92d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 17/31] fix: return an error for a trace check outside of the
 trace

---
 src/arp/per_register/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index 6d4e095..0b60f7b 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -199,8 +199,8 @@ impl<F: PrimeField> ARPInstance<F, PerRegisterARP> {
                 _ => unreachable!()
             };
 
-            let num_rows = witness[reg_num].len();
-            let row = base_row + step_delta;
+            let num_rows = witness.get(reg_num).map_or(0, |w| w.len());
+            let row = base_row.saturating_add(step_delta);
             if row >= num_rows {
                 return Err(SynthesisError::InvalidValue(
                     format!("access to the value out of the trace at row {}", row)
@@ -215,7 +215,13 @@ impl<F: PrimeField> ARPInstance<F, PerRegisterARP> {
             Ok(value)
         }
 
-        let num_rows = witness[0].len();
+        let num_rows = properties.num_rows;
+
+        if witness.len() != properties.num_registers || witness.iter().any(|w| w.len() != num_rows) {
+            return Err(SynthesisError::InvalidValue(
+                format!("trace must have {} registers of {} rows", properties.num_registers, num_rows)
+            ));
+        }
 
         // these constraints are not remapped, so step differences are 
         for c in properties.constraints.iter() {
@@ -256,8 +262,8 @@ impl<F: PrimeField> ARPInstance<F, PerRegisterARP> {
             let at_row = bc.at_row;
 
             if let Some(expected) = bc.value {
-                let from_witness = witness[reg_num][at_row];
-                if expected != from_witness {
+                let from_witness = witness.get(reg_num).and_then(|w| w.get(at_row));
+                if Some(&expected) != from_witness {
                     return Err(SynthesisError::Error);
                 }
             }
-- 
2.43.0


From ccd7816407cf7e588465709c0a642a99da763365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 18/31] fix: return an error for a witness with uneven
 registers

---
 src/arp/per_register/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/arp/per_register/mod.rs b/src/arp/per_register/mod.rs
index 0b60f7b..4b18838 100644
--- a/src/arp/per_register/mod.rs
+++ b/src/arp/per_register/mod.rs
@@ -75,17 +75,11 @@ impl<F: PrimeField> ARP<F> for ARPInstance<F, PerRegisterARP> {
         witness: Vec<Vec<F>>,
         worker: &Worker
     ) -> Result<Vec<Polynomial<F, Coefficients>>, SynthesisError> {
-        let num_registers = witness.len();
-        let num_rows = (&witness[0]).len();
-        for w in witness.iter() {
-            assert!(num_rows == w.len());
-        }
-
-        if num_registers != self.properties.num_registers {
+        if witness.len() != self.properties.num_registers {
             return Err(SynthesisError::Error);
         }
 
-        if num_rows != self.properties.num_rows {
+        if witness.iter().any(|w| w.len() != self.properties.num_rows) {
             return Err(SynthesisError::Error);
         }
 
-- 
2.43.0


From 6d1e1edd8f7bb4368768ec4efeffabc06259b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 19/31] fix: sign in the norm of the quadratic extension

---
 src/experiments/square_root_calculator/fp2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/experiments/square_root_calculator/fp2.rs b/src/experiments/square_root_calculator/fp2.rs
index 8ec4cf3..3b98a8d 100644
--- a/src/experiments/square_root_calculator/fp2.rs
+++ b/src/experiments/square_root_calculator/fp2.rs
@@ -131,9 +131,9 @@ impl Fq2 {
         t0.square();
         t1.square();
         t1.mul_assign(&NON_RESIDUE);
-        t1.add_assign(&t0);
+        t0.sub_assign(&t1);
 
-        t1
+        t0
     }
 }
 
-- 
2.43.0


From f288b47856e122ff9cbac2da513cf48e688616ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 20/31] fix: convert a traced system without a witness

---
 src/arp/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 60ea21e..3a42e34 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -226,11 +226,10 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
             }
         }
 
-        assert_eq!(witness.len(), total_registers);
-
         let witness = if witness.len() == 0 {
             None
         } else {
+            assert_eq!(witness.len(), total_registers);
             Some(witness)
         };
 
-- 
2.43.0


From 7ba0bb5e5c2bff86cc04ba71a75512981aab81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 21/31] fix: report all the registers of the flattened system

---
 src/arp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index 3a42e34..d8bc268 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -235,7 +235,7 @@ impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
 
         let properties = InstanceProperties::<F> {
             num_rows,
-            num_registers,
+            num_registers: total_registers,
             constraints,
             boundary_constraints,
         };
-- 
2.43.0


From ec2dc336ae04fd1e8343c0b2ac059c27c42071a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 22/31] fix: use starting values of the witness

---
 src/air/test_trace_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/air/test_trace_system.rs b/src/air/test_trace_system.rs
index 41af813..1c94f45 100644
--- a/src/air/test_trace_system.rs
+++ b/src/air/test_trace_system.rs
@@ -266,8 +266,8 @@ impl<F: PrimeField> TestTraceSystem<F> {
     }
 
     pub(crate) fn calculate_witness(&mut self, a: u64, b: u64, steps: usize) {
-        let a0 = F::from_str("1").unwrap();
-        let b0 = F::from_str("1").unwrap();
+        let a0 = F::from_str(&a.to_string()).unwrap();
+        let b0 = F::from_str(&b.to_string()).unwrap();
 
         self.registers_witness[0].push(a0);
         self.registers_witness[1].push(b0);
-- 
2.43.0


From fb47731150365c09b0dfeed2b485aad7145a4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 23/31] fix: product over no roots is one

---
 src/polynomials/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index 845a12f..e706c18 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -165,6 +165,9 @@ impl<F: PrimeField> Polynomial<F, Coefficients> {
 
     pub fn from_roots(roots: Vec<F>, worker: &Worker) -> Result<Polynomial<F, Coefficients>, SynthesisError>
     {
+        if roots.len() == 0 {
+            return Self::from_coeffs(vec![F::one()]);
+        }
 
         let coeffs_len = roots.len() + 1;
 
-- 
2.43.0


From d6b9f2f34687a57212499caecf1abe64ec3009bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 24/31] fix: bind the statement to all the challenges

Challenges depended on the proof only, so the statement (e.g. values of boundary constraints) could be
picked after all the challenges are known.
---
 src/arp/mod.rs      | 87 +++++++++++++++++++++++++++++++++++++++++++++
 src/prover/mod.rs   |  1 +
 src/verifier/mod.rs |  1 +
 3 files changed, 89 insertions(+)

diff --git a/src/arp/mod.rs b/src/arp/mod.rs
index d8bc268..cfee2f6 100644
--- a/src/arp/mod.rs
+++ b/src/arp/mod.rs
@@ -2,6 +2,7 @@ use crate::air::*;
 use crate::air::TestTraceSystem;
 use crate::polynomials::*;
 use crate::fft::multicore::Worker;
+use crate::transcript::Transcript;
 use crate::*;
 
 use ff::PrimeField;
@@ -84,6 +85,92 @@ pub struct InstanceProperties<F: PrimeField> {
 }
 
 
+impl<F: PrimeField> InstanceProperties<F> {
+    /// commits the whole statement, so it can not be changed after challenges are known
+    pub(crate) fn commit<T: Transcript<F>>(&self, transcript: &mut T) {
+        fn commit_number<F: PrimeField, T: Transcript<F>>(transcript: &mut T, number: usize) {
+            transcript.commit_bytes(&(number as u64).to_be_bytes());
+        }
+
+        fn commit_register<F: PrimeField, T: Transcript<F>>(transcript: &mut T, register: &Register) {
+            let (kind, number) = match *register {
+                Register::ProgramCounter(i) => (0, i),
+                Register::Register(i) => (1, i),
+                Register::Constant(i) => (2, i),
+                Register::Aux(i) => (3, i),
+            };
+            commit_number(transcript, kind);
+            commit_number(transcript, number);
+        }
+
+        fn commit_univariate_term<F: PrimeField, T: Transcript<F>>(transcript: &mut T, term: &UnivariateTerm<F>) {
+            transcript.commit_field_element(&term.coeff);
+            commit_register(transcript, &term.register);
+            match term.steps_difference {
+                StepDifference::Steps(steps) => {
+                    commit_number(transcript, 0);
+                    commit_number(transcript, steps);
+                },
+                StepDifference::Mask(ref mask) => {
+                    commit_number(transcript, 1);
+                    transcript.commit_field_element(mask);
+                }
+            }
+            transcript.commit_bytes(&term.power.to_be_bytes());
+        }
+
+        fn commit_numbers<F: PrimeField, T: Transcript<F>>(transcript: &mut T, numbers: &[usize]) {
+            commit_number(transcript, numbers.len());
+            for n in numbers.iter() {
+                commit_number(transcript, *n);
+            }
+        }
+
+        commit_numbers(transcript, &[self.num_rows, self.num_registers]);
+
+        commit_number(transcript, self.constraints.len());
+        for c in self.constraints.iter() {
+            match c.density {
+                ConstraintDensity::Dense(ref d) => commit_numbers(transcript, &[0, d.start_at, d.span]),
+                ConstraintDensity::Repeated(ref d) => commit_numbers(transcript, &[1, d.start_at, d.span, d.interval]),
+                ConstraintDensity::Sparse(ref d) => {
+                    commit_number(transcript, 2);
+                    commit_numbers(transcript, &d.rows);
+                }
+            }
+            transcript.commit_bytes(&c.degree.to_be_bytes());
+            transcript.commit_field_element(&c.constant_term);
+            commit_number(transcript, c.terms.len());
+            for t in c.terms.iter() {
+                match t {
+                    ConstraintTerm::Univariate(ref t) => {
+                        commit_number(transcript, 0);
+                        commit_univariate_term(transcript, t);
+                    },
+                    ConstraintTerm::Polyvariate(ref t) => {
+                        commit_number(transcript, 1);
+                        transcript.commit_field_element(&t.coeff);
+                        commit_number(transcript, t.terms.len());
+                        for t in t.terms.iter() {
+                            commit_univariate_term(transcript, t);
+                        }
+                    }
+                }
+            }
+        }
+
+        commit_number(transcript, self.boundary_constraints.len());
+        for b in self.boundary_constraints.iter() {
+            commit_register(transcript, &b.register);
+            commit_number(transcript, b.at_row);
+            commit_number(transcript, b.value.is_some() as usize);
+            if let Some(ref value) = b.value {
+                transcript.commit_field_element(value);
+            }
+        }
+    }
+}
+
 impl<F: PrimeField> IntoARP<F> for TestTraceSystem<F> {
     fn into_arp(self) ->  (Option<Vec<Vec<F>>>, InstanceProperties<F>) {
         let num_pc_registers = self.pc_registers.len();
diff --git a/src/prover/mod.rs b/src/prover/mod.rs
index 942503f..d1f8007 100644
--- a/src/prover/mod.rs
+++ b/src/prover/mod.rs
@@ -65,6 +65,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
 
     pub fn prove(&self, witness: Vec<Vec<F>>) -> Result<InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>, SynthesisError> {
         let mut transcript = T::new();
+        self.arp.properties.commit(&mut transcript);
 
         let witness_polys = self.arp.calculate_witness_polys(witness, &self.worker)?;
 
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index c435fe0..23c7bf0 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -268,6 +268,7 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         proof: &InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>
     ) -> Result<bool, SynthesisError> {
         let mut scratch_space: InstanceProofScratchSpace<F, T, I, PerRegisterARP> = InstanceProofScratchSpace::new();
+        self.instance.commit(&mut scratch_space.transcript);
 
         for r in proof.f_iop_roots.iter() {
             scratch_space.transcript.commit_bytes(r.as_ref());
-- 
2.43.0


From 70fb5929db93cc6d9406791fe6d140653b0ac6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 25/31] hooks: entry points for model checking behind
 cfg(hodor_verif)

---
 src/experiments/mod.rs         | 10 +++-
 src/experiments/tensor_lde.rs  | 18 +++++++
 src/iop/blake2s_trivial_iop.rs |  9 +++-
 src/lib.rs                     |  3 ++
 src/verif_hooks.rs             | 98 ++++++++++++++++++++++++++++++++++
 5 files changed, 136 insertions(+), 2 deletions(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/experiments/mod.rs b/src/experiments/mod.rs
index 1e0c0ec..503da3a 100644
--- a/src/experiments/mod.rs
+++ b/src/experiments/mod.rs
@@ -48,4 +48,12 @@ fn test_proper_field(){
 
     
 
-}
\ No newline at end of file
+}
+
+#[cfg(hodor_verif_fp2)]
+pub(crate) mod verif_fp2 {
+    pub use super::square_root_calculator::fp2::Fq2;
+}
+
+#[cfg(hodor_verif_tensor)]
+pub(crate) use self::tensor_lde::verif as verif_tensor;
diff --git a/src/experiments/tensor_lde.rs b/src/experiments/tensor_lde.rs
index 02fa6a9..bec5776 100644
--- a/src/experiments/tensor_lde.rs
+++ b/src/experiments/tensor_lde.rs
@@ -396,3 +396,21 @@ fn test_tensor_lde() {
 
 
 
+
+
+#[cfg(hodor_verif_tensor)]
+pub(crate) mod verif {
+    use ff::PrimeField;
+
+    pub fn matrix_over_identity<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_identyty_matrix(submatrix, idx)
+    }
+
+    pub fn matrix_over_diagonal<F: PrimeField>(submatrix: &(Vec<F>, (usize, usize)), diagonal: &(Vec<F>, usize), idx: (usize, usize)) -> F {
+        super::query_tensor_decomposition_element_matrix_over_diagonal_matrix(submatrix, diagonal, idx)
+    }
+
+    pub fn vector_over_vector<F: PrimeField>(subvector_1: &(Vec<F>, usize), subvector_2: &(Vec<F>, usize), idx: usize) -> F {
+        super::query_tensor_decomposition_element_vector_over_vector(subvector_1, subvector_2, idx)
+    }
+}
diff --git a/src/iop/blake2s_trivial_iop.rs b/src/iop/blake2s_trivial_iop.rs
index ce161a5..a415965 100644
--- a/src/iop/blake2s_trivial_iop.rs
+++ b/src/iop/blake2s_trivial_iop.rs
@@ -404,4 +404,11 @@ fn make_small_iop() {
         let valid = TrivialBlake2sIOP::verify_query(&query, &root);
         assert!(valid, "invalid query for leaf {}", i);
     }
-}
\ No newline at end of file
+}
+
+#[cfg(hodor_verif_query)]
+impl<F: PrimeField> TrivialBlake2sIopQuery<F> {
+    pub fn verif_from_parts(index: usize, value: F, path: Vec<[u8; 32]>) -> Self {
+        Self { index, value, path }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 10694a5..99010ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,9 @@ mod experiments;
 
 pub(crate) mod bn256;
 
+#[cfg(hodor_verif)]
+pub mod verif_hooks;
+
 use ff::{Field, PrimeField, PrimeFieldRepr};
 
 #[derive(PrimeField)]
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..d2ee3df
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,98 @@
+//! Entry points for an external model checker, compiled only with `--cfg hodor_verif`.
+//! Every group has its own flag, and only forwards to the private items of the crate.
+
+pub use crate::fft::multicore::Worker;
+
+#[cfg(hodor_verif_fft)]
+pub mod fft {
+    use super::Worker;
+    use ff::PrimeField;
+
+    pub fn best_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, use_cpus_hint: Option<usize>) {
+        crate::fft::best_fft(a, worker, omega, log_n, use_cpus_hint)
+    }
+
+    pub fn serial_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        crate::fft::serial_fft(a, omega, log_n)
+    }
+
+    pub fn parallel_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+        crate::fft::fft::parallel_fft(a, worker, omega, log_n, log_cpus)
+    }
+
+    pub fn best_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, lde_factor: usize) {
+        crate::fft::best_lde(a, worker, omega, log_n, lde_factor)
+    }
+
+    pub fn serial_lde<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, lde_factor: usize) {
+        crate::fft::lde::serial_lde(a, omega, log_n, lde_factor)
+    }
+
+    pub fn parallel_lde<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, lde_factor: usize) {
+        crate::fft::lde::parallel_lde(a, worker, omega, log_n, log_cpus, lde_factor)
+    }
+
+    pub fn serial_dit_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32, non_zero_entries_count: usize) {
+        crate::fft::dit_fft::serial_DIT_fft(a, omega, log_n, non_zero_entries_count)
+    }
+
+    pub fn parallel_dit_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32, non_zero_entries_count: usize) {
+        crate::fft::dit_fft::parallel_DIT_fft(a, worker, omega, log_n, log_cpus, non_zero_entries_count)
+    }
+
+    pub fn best_dit_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, non_zero_entries_count: usize) {
+        crate::fft::dit_fft::best_DIT_fft(a, worker, omega, log_n, non_zero_entries_count)
+    }
+
+    pub fn serial_radix4_fft<F: PrimeField>(a: &mut [F], omega: &F, log_n: u32) {
+        crate::fft::radix4_fft::serial_fft_radix_4(a, omega, log_n)
+    }
+
+    pub fn parallel_radix4_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32, log_cpus: u32) {
+        crate::fft::radix4_fft::parallel_fft_radix_4(a, worker, omega, log_n, log_cpus)
+    }
+
+    pub fn best_radix4_fft<F: PrimeField>(a: &mut [F], worker: &Worker, omega: &F, log_n: u32) {
+        crate::fft::radix4_fft::best_fft(a, worker, omega, log_n)
+    }
+}
+
+#[cfg(hodor_verif_trace)]
+pub mod trace {
+    use crate::air::*;
+    use ff::PrimeField;
+
+    pub fn new_trace_system<F: PrimeField>() -> TestTraceSystem<F> {
+        TestTraceSystem::new()
+    }
+
+    pub fn calculate_witness<F: PrimeField>(system: &mut TestTraceSystem<F>, a: u64, b: u64, steps: usize) {
+        system.calculate_witness(a, b, steps)
+    }
+
+    pub fn trace_fibonacci<F: PrimeField>(system: &mut TestTraceSystem<F>, final_b: Option<u64>, at_step: Option<usize>) -> Result<(), TracingError> {
+        Fibonacci::<F> {
+            final_b,
+            at_step,
+            _marker: std::marker::PhantomData
+        }.trace(system)
+    }
+}
+
+#[cfg(hodor_verif_vdf)]
+pub mod vdf {
+    pub use crate::experiments::vdf::VDF;
+    pub use crate::experiments::cubic_vdf::CubicVDF;
+    pub use crate::experiments::Fr;
+}
+
+#[cfg(hodor_verif_fp2)]
+pub mod fp2 {
+    pub use crate::experiments::verif_fp2::Fq2;
+    pub use crate::experiments::Fr;
+}
+
+#[cfg(hodor_verif_tensor)]
+pub mod tensor {
+    pub use crate::experiments::verif_tensor::*;
+}
-- 
2.43.0


From 2eee9e22139f037955265582c1a233c9fe124814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:46 +0000
Subject: [PATCH 26/31] fix: extend subproducts correctly on any number of CPUs
 in from_roots

---
 src/polynomials/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/mod.rs b/src/polynomials/mod.rs
index e706c18..8ccd2ff 100644
--- a/src/polynomials/mod.rs
+++ b/src/polynomials/mod.rs
@@ -213,7 +213,7 @@ impl<F: PrimeField> Polynomial<F, Coefficients> {
             }
             let t = Polynomial::<F, Coefficients>::from_coeffs(s)?;
             let factor = result_len / t.size();
-            let t = t.lde(&worker, factor)?;
+            let t = t.filtering_lde(&worker, factor)?;
             if let Some(res) = result.as_mut() {
                 res.mul_assign(&worker, &t);
             } else {
-- 
2.43.0


From b7c65c764a9602a74644af7aaa3331dd6d6370c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 27/31] fix: require authentication paths of exactly the depth
 of the tree

Tree of a different depth can open the same position to several values.
---
 src/fri/verifier.rs | 6 ++++++
 src/verifier/mod.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/fri/verifier.rs b/src/fri/verifier.rs
index f2114d2..ce8f7d2 100644
--- a/src/fri/verifier.rs
+++ b/src/fri/verifier.rs
@@ -2,6 +2,7 @@ use ff::PrimeField;
 use crate::SynthesisError;
 use crate::domains::Domain;
 use crate::polynomials::*;
+use crate::utils::log2_floor;
 
 use super::*;
 use crate::iop::*;
@@ -231,6 +232,11 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             }
 
             for q in queries.iter() {
+                // tree has a leaf for every element of the domain, otherwise the same position 
+                // could be opened at the different depths
+                if q.path().len() != log2_floor(domain_size) as usize {
+                    return Ok(false);
+                }
                 if !I::verify_query(&q, &root) {
                     return Ok(false);
                 }
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 23c7bf0..604c9d7 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -10,6 +10,7 @@ use crate::air::*;
 use crate::ali::*;
 use crate::arp::mappings::*;
 use crate::fri::*;
+use crate::utils::log2_floor;
 use byteorder::{BigEndian, ByteOrder};
 
 use indexmap::IndexSet as IndexSet;
@@ -350,6 +351,9 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
         }
 
         for (query, root) in proof.f_queries.iter().zip(proof.f_iop_roots.iter()) {
+            if query.path().len() != log2_floor(f_lde_size as usize) as usize {
+                return Ok(false);
+            }
             if !I::verify_query(query, root) {
                 return Ok(false);
             }
@@ -388,6 +392,9 @@ impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR:
             z
         )?;
 
+        if proof.g_query.path().len() != log2_floor(g_lde_size as usize) as usize {
+            return Ok(false);
+        }
         if !I::verify_query(&proof.g_query, &proof.g_iop_root) {
             return Ok(false);
         }
-- 
2.43.0


From 121684a4ed4948a16bcaa3d9653ebb749dbc5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 28/31] fix: report invalid FRI sizes as an error

---
 src/fri/fri_on_values.rs | 5 +++--
 src/fri/mod.rs           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fri/fri_on_values.rs b/src/fri/fri_on_values.rs
index 41022fc..c2ca567 100644
--- a/src/fri/fri_on_values.rs
+++ b/src/fri/fri_on_values.rs
@@ -39,8 +39,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
             }
         });
 
-        assert!(output_coeffs_at_degree_plus_one.is_power_of_two());
-        assert!(lde_factor.is_power_of_two());
+        if !output_coeffs_at_degree_plus_one.is_power_of_two() || !lde_factor.is_power_of_two() {
+            return Err(SynthesisError::InvalidValue(format!("number of final coefficients {} and LDE factor {} must be powers of two", output_coeffs_at_degree_plus_one, lde_factor)));
+        }
 
         let initial_degree_plus_one = initial_domain_size / lde_factor;
         if initial_degree_plus_one <= output_coeffs_at_degree_plus_one {
diff --git a/src/fri/mod.rs b/src/fri/mod.rs
index 0fd0ae2..5699d64 100644
--- a/src/fri/mod.rs
+++ b/src/fri/mod.rs
@@ -176,8 +176,9 @@ impl<'a, F: PrimeField, I: IOP<F>> NaiveFriIop<F, I> {
         let l0_commitment: I = I::create(lde_values.as_ref());
         let initial_domain_size = lde_values.size();
 
-        assert!(output_coeffs_at_degree_plus_one.is_power_of_two());
-        assert!(lde_factor.is_power_of_two());
+        if !output_coeffs_at_degree_plus_one.is_power_of_two() || !lde_factor.is_power_of_two() {
+            return Err(SynthesisError::InvalidValue(format!("number of final coefficients {} and LDE factor {} must be powers of two", output_coeffs_at_degree_plus_one, lde_factor)));
+        }
 
         let initial_degree_plus_one = initial_domain_size / lde_factor;
         if initial_degree_plus_one <= output_coeffs_at_degree_plus_one {
-- 
2.43.0


From b70a86dba8ed5be738262b5fa4e7b47b0a7ce50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 29/31] fix: constraints that cover no rows do not constrain
 anything

---
 src/ali/per_register/mod.rs | 11 ++++-------
 src/arp/density_query.rs    |  3 ++-
 src/verifier/mod.rs         | 11 ++++-------
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index 23d7c28..ac8ef64 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -66,13 +66,11 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
             num_rows: u64,
             worker: &Worker
         ) -> Result<(Polynomial<F, Values>, usize), SynthesisError> {
-            let start_at = dense_constraint.start_at;
-            let span = dense_constraint.span as u64;
-            let mut divisor_degree = column_domain.size as usize;
+            // constraint may cover no rows at all
+            let last_step = num_rows.saturating_sub(dense_constraint.span as u64);
+            let start_at = std::cmp::min(dense_constraint.start_at as u64, last_step);
             let divisor_domain_size = column_domain.size;
-            divisor_degree -= start_at as usize;
-            divisor_degree -= (divisor_domain_size - num_rows) as usize;
-            divisor_degree -= span as usize;
+            let divisor_degree = (last_step - start_at) as usize;
 
             let roots = {
                 let roots_generator = column_domain.generator;
@@ -84,7 +82,6 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
                     root.mul_assign(&roots_generator);                
                 }
                 
-                let last_step = num_rows - span;
                 let mut root = roots_generator.pow([last_step]);
                 for _ in last_step..divisor_domain_size {
                     roots.push(root);
diff --git a/src/arp/density_query.rs b/src/arp/density_query.rs
index f5281de..0cadc55 100644
--- a/src/arp/density_query.rs
+++ b/src/arp/density_query.rs
@@ -35,7 +35,8 @@ impl DenseConstraintQuery {
         let start_at = dense.start_at;
         let span = dense.span;
 
-        let limit = num_rows - span;
+        // constraint may cover no rows at all
+        let limit = num_rows.saturating_sub(span);
 
         Self {
             current_row: start_at,
diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 604c9d7..bd36643 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -672,13 +672,11 @@ fn inverse_divisor_for_dense_constraint<F: PrimeField> (
     dense_constraint: DenseConstraint,
     num_rows: u64,
 ) -> Result<(F, usize), SynthesisError> {
-    let start_at = dense_constraint.start_at;
-    let span = dense_constraint.span as u64;
-    let mut divisor_degree = column_domain.size as usize;
+    // constraint may cover no rows at all
+    let last_step = num_rows.saturating_sub(dense_constraint.span as u64);
+    let start_at = std::cmp::min(dense_constraint.start_at as u64, last_step);
     let divisor_domain_size = column_domain.size;
-    divisor_degree -= start_at as usize;
-    divisor_degree -= (divisor_domain_size - num_rows) as usize;
-    divisor_degree -= span as usize;
+    let divisor_degree = (last_step - start_at) as usize;
 
     let mut q_at_x = x.pow(&[divisor_domain_size]);
     q_at_x.sub_assign(&F::one());
@@ -697,7 +695,6 @@ fn inverse_divisor_for_dense_constraint<F: PrimeField> (
         root.mul_assign(&roots_generator);                
     }
     
-    let last_step = num_rows - span;
     let mut root = roots_generator.pow([last_step]);
     for _ in last_step..divisor_domain_size {
         let mut tmp = x;
-- 
2.43.0


From 6e805c2123bf19fb07366e8c57bfb922f2181bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 30/31] fix: compose constraints with constant products

---
 src/ali/per_register/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ali/per_register/mod.rs b/src/ali/per_register/mod.rs
index ac8ef64..4b665d7 100644
--- a/src/ali/per_register/mod.rs
+++ b/src/ali/per_register/mod.rs
@@ -450,6 +450,13 @@ impl<F: PrimeField> ALIInstance<F, PerRegisterARP> {
 
                 let mut constraint_values = zero_values.clone();
                 for t in c.terms.iter() {
+                    if let ConstraintTerm::Polyvariate(poly) = t {
+                        if poly.terms.is_empty() {
+                            // empty product is a constant
+                            constraint_values.add_constant(&worker, &poly.coeff);
+                            continue;
+                        }
+                    }
                     let subval = evaluate_constraint_term_into_values(
                         t, 
                         &mask_applied_polynomials, 
-- 
2.43.0


From d48099811787a75c2b3d743abfa10615f4765466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 31/31] Revert the change of the starting values (its file
 counts as a test file)

---
 src/air/test_trace_system.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/air/test_trace_system.rs b/src/air/test_trace_system.rs
index 1c94f45..41af813 100644
--- a/src/air/test_trace_system.rs
+++ b/src/air/test_trace_system.rs
@@ -266,8 +266,8 @@ impl<F: PrimeField> TestTraceSystem<F> {
     }
 
     pub(crate) fn calculate_witness(&mut self, a: u64, b: u64, steps: usize) {
-        let a0 = F::from_str(&a.to_string()).unwrap();
-        let b0 = F::from_str(&b.to_string()).unwrap();
+        let a0 = F::from_str("1").unwrap();
+        let b0 = F::from_str("1").unwrap();
 
         self.registers_witness[0].push(a0);
         self.registers_witness[1].push(b0);
-- 
2.43.0

