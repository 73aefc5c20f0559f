From 01711a6a0143230e439a3d7d799da4f9711d7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/10] verif: cfg(ripp_verif)-guarded serialization derives
 for proof and polynomial types

---
 ip_proofs/src/applications/groth16_aggregation.rs     | 3 +++
 ip_proofs/src/applications/poly_commit/mod.rs         | 4 ++++
 ip_proofs/src/applications/poly_commit/transparent.rs | 4 ++++
 ip_proofs/src/lib.rs                                  | 1 +
 sipp/src/lib.rs                                       | 4 ++++
 5 files changed, 16 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..7ffe9d8 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -1,6 +1,8 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_ff::{Field, One};
 use ark_groth16::{Proof, VerifyingKey};
+#[cfg(ripp_verif)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 
 use ark_std::rand::Rng;
@@ -55,6 +57,7 @@ type MultiExpInnerProductCProof<P, D> = TIPAWithSSMProof<
     D,
 >;
 
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct AggregateProof<P: Pairing, D: Digest> {
     com_a: PairingOutput<P>,
     com_b: PairingOutput<P>,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..fccc2dd 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -8,6 +8,8 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_verif)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -117,6 +119,7 @@ impl<P: Pairing> KZG<P> {
     }
 }
 
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -138,6 +141,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..b8544b6 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -4,6 +4,8 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_verif)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -55,6 +57,7 @@ type PolynomialEvaluationFirstTierIPAProof<P, D> = GIPAProof<
     D,
 >;
 
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -76,6 +79,7 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..139cc9a 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+#![allow(unexpected_cfgs)] // `--cfg ripp_verif` enables verification-only derives
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..b130269 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,7 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // `--cfg ripp_verif` enables verification-only derives
 
 use std::marker::PhantomData;
 
@@ -10,6 +11,8 @@ use ark_ec::{
     CurveGroup,
 };
 use ark_ff::{Field, One, UniformRand};
+#[cfg(ripp_verif)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 use ark_std::Zero;
 use digest::{generic_array::typenum::U32, Digest};
@@ -29,6 +32,7 @@ pub struct SIPP<E: Pairing, D: Digest> {
 
 /// `Proof` contains the GT elements produced by the prover.
 // TODO(psi): why not just make Proof an alias since there's only one field?
+#[cfg_attr(ripp_verif, derive(CanonicalSerialize, CanonicalDeserialize))]
 pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
-- 
2.43.0


From 21fee640eb33b17dc59ddfe104d58bea28a01f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 02/10] fix: adding identity commitments of different lengths
 drops entries

IdentityOutput::add zipped the two vectors, so the sum of commitments of
different lengths was cut to the shorter one: the default (empty) output
erased everything, and a verifier folding [t, junk] with length-one cross
terms never looked at junk. Treat the shorter vector as zero-padded.
---
 dh_commitments/src/identity/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dh_commitments/src/identity/mod.rs b/dh_commitments/src/identity/mod.rs
index 0ec793e..34f9dc3 100644
--- a/dh_commitments/src/identity/mod.rs
+++ b/dh_commitments/src/identity/mod.rs
@@ -40,14 +40,17 @@ where
 {
     type Output = Self;
 
+    // The shorter vector counts as padded with zeros, so that no entry is dropped
     fn add(self, rhs: Self) -> Self::Output {
-        IdentityOutput(
-            self.0
-                .iter()
-                .zip(&rhs.0)
-                .map(|(a, b)| a.clone() + b.clone())
-                .collect::<Vec<T>>(),
-        )
+        let (mut sum, shorter) = if self.0.len() >= rhs.0.len() {
+            (self.0, rhs.0)
+        } else {
+            (rhs.0, self.0)
+        };
+        for (a, b) in sum.iter_mut().zip(shorter) {
+            *a = a.clone() + b;
+        }
+        IdentityOutput(sum)
     }
 }
 
-- 
2.43.0


From 2b58eda4a2791552be78eea416873a346339c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 03/10] fix: TIPA provers and verifiers panic on one-element
 vectors (no round challenge to hash)

---
 ip_proofs/src/tipa/mod.rs                       | 4 ++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..7189bad 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -198,7 +198,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&LMC::Scalar::zero())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -261,7 +261,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&LMC::Scalar::zero())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..c020678 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -241,7 +241,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&LMC::Scalar::zero())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -292,7 +292,7 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&LMC::Scalar::zero())
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From ec0c02d5aaaa220fda36dbc4208e0cb4fcd4930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 04/10] fix: structured_scalar_power(0) returns one element

---
 ip_proofs/src/tipa/structured_scalar_message.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index c020678..b9a5910 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -332,9 +332,11 @@ where
 }
 
 pub fn structured_scalar_power<F: Field>(num: usize, s: &F) -> Vec<F> {
-    let mut powers = vec![F::one()];
-    for i in 1..num {
-        powers.push(powers[i - 1] * s);
+    let mut powers = Vec::with_capacity(num);
+    let mut power = F::one();
+    for _ in 0..num {
+        powers.push(power);
+        power *= s;
     }
     powers
 }
-- 
2.43.0


From 140b38f5d11db8056a1d0261eeadb4feb517c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 05/10] fix: bind the statement's commitments (and scalar b) in
 the first GIPA challenge

---
 ip_proofs/src/gipa.rs                         | 57 +++++++++++++++---
 .../src/tipa/structured_scalar_message.rs     | 59 +++++++++++--------
 2 files changed, 83 insertions(+), 33 deletions(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..5e7cac3 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -127,8 +127,11 @@ where
             return Err(Box::new(InnerProductArgumentError::InnerProductInvalid));
         }
 
-        let (proof, _) =
-            Self::prove_with_aux((values.0, values.1), (ck.0, ck.1, &vec![ck.2.clone()]))?;
+        let (proof, _) = Self::prove_statement_with_aux(
+            (values.0, values.1),
+            (ck.0, ck.1, &vec![ck.2.clone()]),
+            com,
+        )?;
         Ok(proof)
     }
 
@@ -168,12 +171,33 @@ where
             GIPAAux<IP, LMC, RMC, IPC, D>,
         ),
         Error,
+    > {
+        let com = (
+            LMC::commit(ck.0, values.0)?,
+            RMC::commit(ck.1, values.1)?,
+            IPC::commit(ck.2, &vec![IP::inner_product(values.0, values.1)?])?,
+        );
+        Self::prove_statement_with_aux(values, ck, (&com.0, &com.1, &com.2))
+    }
+
+    // Same as `prove_with_aux`, for commitments to `values` that are already computed
+    pub(crate) fn prove_statement_with_aux(
+        values: (&[IP::LeftMessage], &[IP::RightMessage]),
+        ck: (&[LMC::Key], &[RMC::Key], &[IPC::Key]),
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
+    ) -> Result<
+        (
+            GIPAProof<IP, LMC, RMC, IPC, D>,
+            GIPAAux<IP, LMC, RMC, IPC, D>,
+        ),
+        Error,
     > {
         let (m_a, m_b) = values;
         let (ck_a, ck_b, ck_t) = ck;
         Self::_prove(
             (m_a.to_vec(), m_b.to_vec()),
             (ck_a.to_vec(), ck_b.to_vec(), ck_t.to_vec()),
+            com,
         )
     }
 
@@ -181,6 +205,7 @@ where
     fn _prove(
         values: (Vec<IP::LeftMessage>, Vec<IP::RightMessage>),
         ck: (Vec<LMC::Key>, Vec<RMC::Key>, Vec<IPC::Key>),
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
     ) -> Result<
         (
             GIPAProof<IP, LMC, RMC, IPC, D>,
@@ -233,12 +258,11 @@ where
 
                 // Fiat-Shamir challenge
                 let mut counter_nonce: usize = 0;
-                let default_transcript = Default::default();
-                let transcript = r_transcript.last().unwrap_or(&default_transcript);
+                let transcript = Self::_transcript_state(com, &r_transcript)?;
                 let (c, c_inv) = 'challenge: loop {
                     let mut hash_input = Vec::new();
                     hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-                    transcript.serialize_uncompressed(&mut hash_input)?;
+                    hash_input.extend_from_slice(&transcript);
                     com_1.0.serialize_uncompressed(&mut hash_input)?;
                     com_1.1.serialize_uncompressed(&mut hash_input)?;
                     com_1.2.serialize_uncompressed(&mut hash_input)?;
@@ -311,6 +335,24 @@ where
         ))
     }
 
+    // Bytes hashed in front of a round's messages: the commitments of the statement in the first
+    // round, the previous challenge in every later one
+    fn _transcript_state(
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
+        r_transcript: &[LMC::Scalar],
+    ) -> Result<Vec<u8>, Error> {
+        let mut state = Vec::new();
+        match r_transcript.last() {
+            Some(c) => c.serialize_uncompressed(&mut state)?,
+            None => {
+                com.0.serialize_uncompressed(&mut state)?;
+                com.1.serialize_uncompressed(&mut state)?;
+                com.2.serialize_uncompressed(&mut state)?;
+            }
+        }
+        Ok(state)
+    }
+
     // Helper function used to calculate recursive challenges from proof execution (transcript in reverse)
     pub fn verify_recursive_challenge_transcript(
         com: (&LMC::Output, &RMC::Output, &IPC::Output),
@@ -328,12 +370,11 @@ where
         for (com_1, com_2) in proof.r_commitment_steps.iter().rev() {
             // Fiat-Shamir challenge
             let mut counter_nonce: usize = 0;
-            let default_transcript = Default::default();
-            let transcript = r_transcript.last().unwrap_or(&default_transcript);
+            let transcript = Self::_transcript_state((&com_a, &com_b, &com_t), &r_transcript)?;
             let (c, c_inv) = 'challenge: loop {
                 let mut hash_input = Vec::new();
                 hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
-                transcript.serialize_uncompressed(&mut hash_input)?;
+                hash_input.extend_from_slice(&transcript);
                 com_1.0.serialize_uncompressed(&mut hash_input)?;
                 com_1.1.serialize_uncompressed(&mut hash_input)?;
                 com_1.2.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index b9a5910..8c201fa 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -10,7 +10,7 @@ use std::{marker::PhantomData, ops::MulAssign};
 use rayon::prelude::*;
 
 use crate::{
-    gipa::{GIPAProof, GIPA},
+    gipa::{GIPAAux, GIPAProof, GIPA},
     tipa::{
         prove_commitment_key_kzg_opening, structured_generators_scalar_power,
         verify_commitment_key_g2_kzg_opening, TIPACompatibleSetup, VerifierSRS, SRS,
@@ -40,7 +40,7 @@ impl<F: PrimeField> DoublyHomomorphicCommitment for SSMPlaceholderCommitment<F>
         Ok(vec![HomomorphicPlaceholderValue {}; size])
     }
 
-    //TODO: Doesn't include message which means scalar b not included in generating challenges
+    // Doesn't include message: scalar b is hashed with the statement instead
     fn commit(_k: &[Self::Key], _m: &[Self::Message]) -> Result<Self::Output, Error> {
         Ok(F::zero())
     }
@@ -71,18 +71,36 @@ where
         values: (&[IP::LeftMessage], &[IP::RightMessage]),
         ck: (&[LMC::Key], &IPC::Key),
     ) -> Result<GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>, Error> {
-        let (proof, _) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::prove_with_aux(
-                values,
-                (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
-                ),
-            )?;
+        let (proof, _) = Self::prove_with_aux(values, ck)?;
         Ok(proof)
     }
 
+    fn prove_with_aux(
+        values: (&[IP::LeftMessage], &[IP::RightMessage]),
+        ck: (&[LMC::Key], &IPC::Key),
+    ) -> Result<
+        (
+            GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+            GIPAAux<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+        ),
+        Error,
+    > {
+        let ck_t = vec![ck.1.clone()];
+        let com_a = LMC::commit(ck.0, values.0)?;
+        let com_t = IPC::commit(&ck_t, &vec![IP::inner_product(values.0, values.1)?])?;
+        // The right message is the powers of scalar b (never hashed when there is only one)
+        let scalar_b = values.1.get(1).cloned().unwrap_or(<LMC::Scalar>::one());
+        GIPA::prove_statement_with_aux(
+            values,
+            (
+                ck.0,
+                &vec![HomomorphicPlaceholderValue {}; values.1.len()],
+                &ck_t,
+            ),
+            (&com_a, &scalar_b, &com_t),
+        )
+    }
+
     pub fn verify_with_structured_scalar_message(
         ck: (&[LMC::Key], &IPC::Key),
         com: (&LMC::Output, &IPC::Output),
@@ -90,11 +108,10 @@ where
         proof: &GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     ) -> Result<bool, Error> {
         // Calculate base commitments and recursive transcript
-        //TODO: Scalar b not included in generating challenges
-        let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, &LMC::Scalar::zero(), com.1),
-            proof,
-        )?;
+        let (mut base_com, transcript) =
+            GIPA::verify_recursive_challenge_transcript((com.0, scalar_b, com.1), proof)?;
+        // Scalar b is only there to be hashed: the placeholder commits to nothing
+        base_com.1 -= scalar_b;
         // Calculate base commitment keys
         let (ck_a_base, ck_b_base) = GIPA::<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>::_compute_final_commitment_keys(
             (&ck.0, &vec![HomomorphicPlaceholderValue {}; ck.0.len()], &ck.1),
@@ -215,15 +232,7 @@ where
     ) -> Result<TIPAWithSSMProof<IP, LMC, IPC, P, D>, Error> {
         // Run GIPA
         let gipa = start_timer!(|| "GIPA");
-        let (proof, aux) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::prove_with_aux(
-                values,
-                (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
-                ),
-            )?;
+        let (proof, aux) = GIPAWithSSM::<IP, LMC, IPC, D>::prove_with_aux(values, ck)?;
         end_timer!(gipa);
 
         // Prove final commitment key is wellformed
-- 
2.43.0


From 034587259e21d7f4f3bd01b62414c9955aba6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 06/10] fix: polynomial commitment setup for degree 0 divides
 by zero

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 6 +++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index fccc2dd..8cfc389 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -297,7 +297,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 {
+            16_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index b8544b6..be8b93d 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -226,7 +226,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 {
+            4_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From d57c0122023a1f6a7e6012c716fef1cb3417b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 07/10] fix: univariate commitments silently truncate
 polynomials longer than the setup supports

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 8cfc389..c62c5ca 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -316,6 +316,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index be8b93d..0bced07 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -245,6 +245,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From d466afd0d2b214249266bcbcf805d2b167259451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 08/10] fix: verify_aggregate_proof ignores surplus public
 inputs and panics on missing ones

---
 .../src/applications/groth16_aggregation.rs    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 7ffe9d8..4c8a8d4 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -13,7 +13,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -172,6 +172,21 @@ where
     P: Pairing,
     D: Digest,
 {
+    // Every proof comes with exactly the inputs the verifying key expects
+    let num_inputs = vk.gamma_abc_g1.len().saturating_sub(1);
+    if public_inputs.is_empty() || vk.gamma_abc_g1.is_empty() {
+        return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+            public_inputs.len(),
+            vk.gamma_abc_g1.len(),
+        )));
+    }
+    if let Some(inputs) = public_inputs.iter().find(|i| i.len() != num_inputs) {
+        return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+            inputs.len(),
+            num_inputs,
+        )));
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -212,7 +227,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From 0310c94440e20cb0efaad3ca67f5f5af8fe04a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 09/10] fix: GIPA verifiers panic or exhaust memory on proofs
 with the wrong number of rounds

---
 ip_proofs/src/gipa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index 5e7cac3..06e0187 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -409,7 +409,14 @@ where
     ) -> Result<(LMC::Key, RMC::Key), Error> {
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
-        assert!(ck_a.len().is_power_of_two());
+        if !ck_a.len().is_power_of_two() || ck_a.len().trailing_zeros() as usize != transcript.len()
+        {
+            // One challenge per halving of the keys
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                transcript.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From 7139b9a65a7b815e24eab6b501672ff7a721f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 10/10] fix: cfg_multi_pairing drops surplus elements in the
 parallel build, panics in the sequential one

---
 inner_products/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inner_products/src/lib.rs b/inner_products/src/lib.rs
index 6fabc06..4c14e82 100644
--- a/inner_products/src/lib.rs
+++ b/inner_products/src/lib.rs
@@ -73,8 +73,13 @@ impl<P: Pairing> InnerProduct for PairingInnerProduct<P> {
     }
 }
 
-/// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled)
+/// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled). Returns `None` if the
+/// inputs differ in length.
 pub fn cfg_multi_pairing<P: Pairing>(left: &[P::G1], right: &[P::G2]) -> Option<PairingOutput<P>> {
+    if left.len() != right.len() {
+        return None;
+    }
+
     // We make the input affine, then convert to prepared. We do this for speed, since the
     // conversion from projective to prepared always goes through affine.
     let aff_left = P::G1::normalize_batch(left);
-- 
2.43.0

