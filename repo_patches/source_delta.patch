From 08828612986e3bc249b2ea9e4526fb39ee88af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 01/19] fix: reject proofs whose trace openings do not match
 the trace commitments

The outcome of the trace Merkle openings was computed and dropped.
---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..bd6c18f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From ee65f3caff421b1a1ba6191603b46ff89f0e6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 02/19] fix: verify the DEEP composition at the transition
 offsets of the AIR

The verifier assumed that the out-of-domain frame rows are consecutive,
so honest proofs for other offsets were rejected.
---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd6c18f..f229c20 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From e4ecfc806edc96ff45477506a4b0443de5344fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 03/19] fix: only expect range check builtin columns when the
 builtin is used

A public output segment alone made the AIR expect nine columns the trace
does not have, and the prover panicked.
---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..8cb55e5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -620,7 +620,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From a056b742bb69f4b721aec8021138761d50361cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 04/19] fix: fill memory holes that come right after the
 program

The public output was counted as part of the program, so as many cells
after the program were left unfilled and the honest proof was rejected.
---
 src/cairo/execution_trace.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..ea0ce49 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -71,7 +71,13 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    // The public memory holds the program followed by the output, if it is public.
+    let output_len = public_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .map_or(0, |range| (range.end - range.start) as usize);
+    let program_len = public_input.public_memory.len() - output_len;
+    let mut memory_holes = get_memory_holes(&address_cols, program_len);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From 2eeff39e6925f4d5e3205d6ed1df874b07877c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 05/19] fix: reject proofs with missing parts

The verifier walks the parts of a proof in lockstep and stops at the
shortest one, so a proof without FRI layers, authentication paths or
openings skipped the checks on them, and other shapes made it panic.
---
 src/starks/frame.rs    |  5 +++
 src/starks/verifier.rs | 76 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 81 insertions(+)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 8c588f7..cc5723b 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -27,6 +27,11 @@ impl<F: IsFFTField> Frame<F> {
         self.row_width
     }
 
+    /// Whether the frame holds exactly `num_rows` rows of `num_columns` elements.
+    pub fn has_shape(&self, num_rows: usize, num_columns: usize) -> bool {
+        self.row_width == num_columns && self.data.len() == num_rows * num_columns
+    }
+
     pub fn get_row(&self, row_idx: usize) -> &[FieldElement<F>] {
         let row_offset = row_idx * self.row_width;
         &self.data[row_offset..row_offset + self.row_width]
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f229c20..bd3d8dd 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -559,6 +559,72 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that the trace length claimed by the proof is one a proof can be made for, and that
+/// there is one FRI layer for each time the trace polynomials can be halved.
+fn has_valid_trace_length<F: IsFFTField>(
+    proof: &StarkProof<F>,
+    proof_options: &ProofOptions,
+) -> bool {
+    let trace_length = proof.trace_length;
+    if trace_length < 2 || !trace_length.is_power_of_two() {
+        return false;
+    }
+    let number_layers = trace_length.trailing_zeros() as usize;
+
+    trace_length
+        .checked_mul(proof_options.blowup_factor as usize)
+        .map_or(false, |lde_length| {
+            F::get_primitive_root_of_unity(lde_length.trailing_zeros() as u64).is_ok()
+        })
+        && proof.fri_layers_merkle_roots.len() == number_layers
+}
+
+/// Checks that the proof holds every element the verifier is going to look at.
+/// What is missing from a proof can not be checked, so it has to be rejected.
+fn has_expected_shape<F: IsFFTField, A: AIR<Field = F>>(
+    air: &A,
+    proof: &StarkProof<F>,
+    domain: &Domain<F>,
+) -> bool {
+    let context = air.context();
+    let number_queries = context.proof_options.fri_number_of_queries;
+    let number_layers = proof.fri_layers_merkle_roots.len();
+    let path_length = domain.lde_root_order as usize;
+    let number_trace_commitments = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+
+    proof.lde_trace_merkle_roots.len() == number_trace_commitments
+        && proof
+            .trace_ood_frame_evaluations
+            .has_shape(context.transition_offsets.len(), context.trace_columns)
+        && proof.query_list.len() >= number_queries
+        && proof.deep_poly_openings.len() >= number_queries
+        && proof.query_list.iter().all(|query| {
+            query.layers_evaluations.len() == number_layers
+                && query.layers_evaluations_sym.len() == number_layers
+                && query.layers_auth_paths.len() == number_layers
+                && query.layers_auth_paths_sym.len() == number_layers
+                && query
+                    .layers_auth_paths
+                    .iter()
+                    .enumerate()
+                    .chain(query.layers_auth_paths_sym.iter().enumerate())
+                    .all(|(k, auth_path)| auth_path.merkle_path.len() == path_length - k)
+        })
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_composition_poly_proof.merkle_path.len() == path_length
+                && opening.lde_trace_merkle_proofs.len() == number_trace_commitments
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .all(|auth_path| auth_path.merkle_path.len() == path_length)
+                && opening.lde_trace_evaluations.len() == context.trace_columns
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -574,6 +640,11 @@ where
         return false;
     }
 
+    if !has_valid_trace_length(proof, proof_options) {
+        error!("Invalid trace length");
+        return false;
+    }
+
     #[cfg(feature = "instruments")]
     println!("- Started step 1: Recover challenges");
     #[cfg(feature = "instruments")]
@@ -583,6 +654,11 @@ where
     let air = A::new(proof.trace_length, pub_input, proof_options);
     let domain = Domain::new(&air);
 
+    if !has_expected_shape(&air, proof, &domain) {
+        error!("The proof does not have the expected shape");
+        return false;
+    }
+
     let challenges =
         step_1_replay_rounds_and_recover_challenges(&air, proof, &domain, &mut transcript);
 
-- 
2.43.0


From 81f0d0a986848deddbd4053c378600bacefbde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 06/19] fix: reject Cairo public inputs that no execution can
 have

Missing range check bounds or a step count of zero made the verifier panic,
and a step count past the trace, another initial fp or another output
segment were accepted along with the proof of the real statement.
---
 src/cairo/air.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 8cb55e5..ce1439b 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -8,6 +8,7 @@ use lambdaworks_math::{
     },
     traits::{ByteConversion, Deserializable, Serializable},
 };
+use log::error;
 
 use crate::{
     starks::{
@@ -1172,6 +1173,36 @@ pub fn generate_cairo_proof(
     prove::<Stark252PrimeField, CairoAIR>(trace, pub_input, proof_options)
 }
 
+/// Checks that the public inputs describe a Cairo execution that fits in `trace_length` rows.
+/// The AIR relies on it, and not all of it can be expressed as constraints.
+fn are_valid_public_inputs(pub_input: &PublicInputs, trace_length: usize) -> bool {
+    let has_range_check_bounds =
+        pub_input.range_check_min.is_some() && pub_input.range_check_max.is_some();
+
+    // The public memory is the program, followed by the output if it is public.
+    let output_range = pub_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .cloned()
+        .unwrap_or(0..0);
+    let public_memory_len = pub_input.public_memory.len() as u64;
+    let has_expected_public_memory = output_range
+        .end
+        .checked_sub(output_range.start)
+        .and_then(|output_len| public_memory_len.checked_sub(output_len))
+        .map_or(false, |program_len| {
+            (output_range.is_empty() || output_range.start > program_len)
+                && (1..=program_len)
+                    .chain(output_range)
+                    .all(|address| pub_input.public_memory.contains_key(&FE::from(address)))
+        });
+
+    has_range_check_bounds
+        && has_expected_public_memory
+        && (1..=trace_length).contains(&pub_input.num_steps)
+        && pub_input.fp_init == pub_input.ap_init
+}
+
 /// Wrapper function for verifying Cairo proofs without the need to specify
 /// concrete types.
 /// The field is set to Stark252PrimeField and the AIR to CairoAIR.
@@ -1180,6 +1211,11 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    if !are_valid_public_inputs(pub_input, proof.trace_length) {
+        error!("Invalid Cairo public inputs");
+        return false;
+    }
+
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0


From e6c9710927f095a4f2fd2c0596da2c319d645d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 07/19] fix: report truncated range check bounds instead of
 panicking

---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index ce1439b..fc0ad7d 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -332,7 +332,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -353,7 +355,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From df31972b4e7e7603acb6c3538f3dcd26dfb9ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 08/19] fix: serialize equal public inputs to equal bytes

The order of the entries followed the random order of the hash maps, so
proving the same program twice wrote two different files.
---
 src/cairo/air.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index fc0ad7d..2b5091d 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -248,11 +248,16 @@ impl Serializable for PublicInputs {
         }
 
         let mut memory_segment_bytes = vec![];
-        for (segment, range) in self.memory_segments.iter() {
-            let segment_type = match segment {
-                MemorySegment::RangeCheck => 0u8,
-                MemorySegment::Output => 1u8,
-            };
+        let mut memory_segments: Vec<_> = self
+            .memory_segments
+            .iter()
+            .map(|(segment, range)| match segment {
+                MemorySegment::RangeCheck => (0u8, range),
+                MemorySegment::Output => (1u8, range),
+            })
+            .collect();
+        memory_segments.sort_by_key(|(segment_type, _)| *segment_type);
+        for (segment_type, range) in memory_segments {
             memory_segment_bytes.extend(segment_type.to_be_bytes());
             memory_segment_bytes.extend(range.start.to_be_bytes());
             memory_segment_bytes.extend(range.end.to_be_bytes());
@@ -262,7 +267,9 @@ impl Serializable for PublicInputs {
         bytes.extend(memory_segment_bytes);
 
         let mut public_memory_bytes = vec![];
-        for (address, value) in self.public_memory.iter() {
+        let mut public_memory: Vec<_> = self.public_memory.iter().collect();
+        public_memory.sort_by_key(|(address, _)| address.representative());
+        for (address, value) in public_memory {
             public_memory_bytes.extend(address.to_bytes_be());
             public_memory_bytes.extend(value.to_bytes_be());
         }
-- 
2.43.0


From c30b85c98b4da540f1dbbda714ab1422ac3f1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 09/19] fix: serialize a FRI decommitment without layers

Such a decommitment can be deserialized, but serializing it panicked.
---
 src/starks/fri/fri_decommit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..9d642d6 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,7 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = FieldElement::<F>::zero().to_bytes_be().len();
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From 3e6a6fc6377e06919abaa705efde9e1d19533f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 10/19] fix: reject bytes between the openings and the nonce of
 a proof

The nonce was read from the last bytes, and whatever came before it was
skipped, so a proof with bytes added at its end changed its nonce.
---
 src/starks/proof/stark.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/starks/proof/stark.rs b/src/starks/proof/stark.rs
index 89f9c5b..4f5e6e9 100644
--- a/src/starks/proof/stark.rs
+++ b/src/starks/proof/stark.rs
@@ -407,16 +407,9 @@ where
             deep_poly_openings.push(opening);
         }
 
-        // deserialize nonce
-        let start_nonce = bytes
-            .len()
-            .checked_sub(core::mem::size_of::<u64>())
-            .ok_or(DeserializationError::InvalidAmountOfBytes)?;
-
+        // deserialize nonce, which takes all the remaining bytes
         let nonce = u64::from_be_bytes(
             bytes
-                .get(start_nonce..)
-                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                 .try_into()
                 .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
         );
-- 
2.43.0


From e85c3c9496349a38718014d83009e62f808d26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 11/19] fix: exit with an error when the command failed

The command line reported success to its caller whether or not the proof
was written or verified.
---
 src/main.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1f95202..bc4b8fa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,6 +5,7 @@ use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
 use lambdaworks_stark::starks::proof::options::ProofOptions;
 use lambdaworks_stark::starks::proof::stark::StarkProof;
 use std::env;
+use std::process::ExitCode;
 use std::time::Instant;
 
 fn generate_proof(
@@ -69,14 +70,14 @@ fn verify_proof(
     proof_verified
 }
 
-fn main() {
+fn main() -> ExitCode {
     let proof_options = ProofOptions::default_test_options();
 
     let args: Vec<String> = env::args().collect();
 
     if args.len() < 2 {
         println!("Usage: cargo run <command> [arguments]");
-        return;
+        return ExitCode::FAILURE;
     }
 
     let command = &args[1];
@@ -85,14 +86,14 @@ fn main() {
         "prove" => {
             if args.len() < 4 {
                 println!("Usage: cargo run prove <input_path> <output_path>");
-                return;
+                return ExitCode::FAILURE;
             }
 
             let input_path = &args[2];
             let output_path = &args[3];
 
             let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {
-                return;
+                return ExitCode::FAILURE;
             };
 
             let mut bytes = vec![];
@@ -103,59 +104,66 @@ fn main() {
 
             let Ok(()) = std::fs::write(output_path, bytes) else {
                 println!("Error writing proof to file: {output_path}");
-                return;
+                return ExitCode::FAILURE;
             };
             println!("Proof written to {output_path}");
         }
         "verify" => {
             if args.len() < 3 {
                 println!("Usage: cargo run verify <input_path>");
-                return;
+                return ExitCode::FAILURE;
             }
 
             let input_path = &args[2];
             let Ok(program_content) = std::fs::read(input_path) else {
                 println!("Error opening {input_path} file");
-                return;
+                return ExitCode::FAILURE;
             };
             let mut bytes = program_content.as_slice();
             if bytes.len() < 8 {
                 println!("Error reading proof from file: {input_path}");
-                return;
+                return ExitCode::FAILURE;
             }
             let proof_len = usize::from_be_bytes(bytes[0..8].try_into().unwrap());
             bytes = &bytes[8..];
             if bytes.len() < proof_len {
                 println!("Error reading proof from file: {input_path}");
-                return;
+                return ExitCode::FAILURE;
             }
             let Ok(proof) = StarkProof::<Stark252PrimeField>::deserialize(&bytes[0..proof_len]) else {
                 println!("Error reading proof from file: {input_path}");
-                return;
+                return ExitCode::FAILURE;
             };
             bytes = &bytes[proof_len..];
 
             let Ok(pub_inputs) = PublicInputs::deserialize(bytes) else {
                 println!("Error reading proof from file: {input_path}");
-                return;
+                return ExitCode::FAILURE;
             };
 
-            verify_proof(proof, pub_inputs, &proof_options);
+            if !verify_proof(proof, pub_inputs, &proof_options) {
+                return ExitCode::FAILURE;
+            }
         }
         "prove_and_verify" => {
             if args.len() < 3 {
                 println!("Usage: cargo run prove_and_verify <input_path>");
-                return;
+                return ExitCode::FAILURE;
             }
 
             let input_path = &args[2];
             let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {
-                return;
+                return ExitCode::FAILURE;
             };
-            verify_proof(proof, pub_inputs, &proof_options);
+            if !verify_proof(proof, pub_inputs, &proof_options) {
+                return ExitCode::FAILURE;
+            }
         }
         _ => {
             println!("Unknown command: {}", command);
+            return ExitCode::FAILURE;
         }
     }
+
+    ExitCode::SUCCESS
 }
-- 
2.43.0


From d214a0c0f0c2a8b29c9cfecfa3d1eccc3e26c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 12/19] fix: refuse options without queries and grinding as
 insecure

The security of such options underflowed, and was taken as the largest one.
---
 src/starks/proof/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..e043f71 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -85,8 +85,8 @@ impl ProofOptions {
 
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 06a4297296c21b83b01f54836b5028b16e1b417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 13/19] fix: refuse options below the provable security target

The check accepted only options whose security did not exceed the target, and
measured the blowup factor by its leading zeros.
---
 src/starks/proof/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index e043f71..c01d34e 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -111,10 +111,10 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
         if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+            > grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 4c7d674aa3b0f26b88dd193bbbc43f70b9fab20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 14/19] fix: verify in memory bounded by the proof, not by the
 trace length it claims

---
 src/starks/domain.rs     | 48 ++++++++++++++++++++++++++++++++++++++++
 src/starks/transcript.rs | 21 +++++++++++++++---
 src/starks/verifier.rs   | 41 ++++++++++++++--------------------
 3 files changed, 83 insertions(+), 27 deletions(-)

diff --git a/src/starks/domain.rs b/src/starks/domain.rs
index d35b2f6..e05d5db 100644
--- a/src/starks/domain.rs
+++ b/src/starks/domain.rs
@@ -55,3 +55,51 @@ impl<F: IsFFTField> Domain<F> {
         }
     }
 }
+
+/// The evaluation domains as the verifier sees them. Their sizes are claimed by the proof, so their
+/// points are only calculated when they are needed.
+pub(crate) struct VerifierDomain<F: IsFFTField> {
+    pub(crate) root_order: u32,
+    pub(crate) trace_primitive_root: FieldElement<F>,
+    pub(crate) lde_root_order: u32,
+    lde_primitive_root: FieldElement<F>,
+    coset_offset: FieldElement<F>,
+}
+
+impl<F: IsFFTField> VerifierDomain<F> {
+    pub(crate) fn new<A>(air: &A) -> Self
+    where
+        A: AIR<Field = F>,
+    {
+        let blowup_factor = air.options().blowup_factor as usize;
+        let root_order = air.trace_length().trailing_zeros();
+        let lde_root_order = (air.trace_length() * blowup_factor).trailing_zeros();
+
+        Self {
+            root_order,
+            trace_primitive_root: F::get_primitive_root_of_unity(root_order as u64).unwrap(),
+            lde_root_order,
+            lde_primitive_root: F::get_primitive_root_of_unity(lde_root_order as u64).unwrap(),
+            coset_offset: FieldElement::<F>::from(air.options().coset_offset),
+        }
+    }
+
+    /// The point with the given index of the LDE coset.
+    pub(crate) fn lde_point(&self, index: usize) -> FieldElement<F> {
+        &self.coset_offset * self.lde_primitive_root.pow(index)
+    }
+
+    /// The last point of the trace domain.
+    pub(crate) fn last_trace_point(&self) -> FieldElement<F> {
+        self.trace_primitive_root
+            .pow((1_usize << self.root_order) - 1)
+    }
+
+    /// Whether the point belongs to the LDE coset or to the trace domain.
+    pub(crate) fn contains(&self, point: &FieldElement<F>) -> bool {
+        let lde_size = 1_usize << self.lde_root_order;
+        let trace_size = 1_usize << self.root_order;
+        point.pow(lde_size) == self.coset_offset.pow(lde_size)
+            || point.pow(trace_size) == FieldElement::<F>::one()
+    }
+}
diff --git a/src/starks/transcript.rs b/src/starks/transcript.rs
index 8343621..e4799e9 100644
--- a/src/starks/transcript.rs
+++ b/src/starks/transcript.rs
@@ -55,14 +55,29 @@ pub fn sample_z_ood<F: IsPrimeField, T: Transcript>(
     trace_roots_of_unity: &[FieldElement<F>],
     transcript: &mut T,
 ) -> FieldElement<F>
+where
+    FieldElement<F>: ByteConversion,
+{
+    sample_z_ood_from(
+        |value| {
+            lde_roots_of_unity_coset.iter().any(|x| x == value)
+                || trace_roots_of_unity.iter().any(|x| x == value)
+        },
+        transcript,
+    )
+}
+
+/// Samples a point that is not in the domain
+pub fn sample_z_ood_from<F: IsPrimeField, T: Transcript>(
+    is_in_domain: impl Fn(&FieldElement<F>) -> bool,
+    transcript: &mut T,
+) -> FieldElement<F>
 where
     FieldElement<F>: ByteConversion,
 {
     loop {
         let value: FieldElement<F> = transcript_to_field(transcript);
-        if !lde_roots_of_unity_coset.iter().any(|x| x == &value)
-            && !trace_roots_of_unity.iter().any(|x| x == &value)
-        {
+        if !is_in_domain(&value) {
             return value;
         }
     }
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd3d8dd..53ca983 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -20,12 +20,14 @@ use lambdaworks_math::{
 
 use super::{
     config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
-    domain::Domain,
+    domain::VerifierDomain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
     proof::{options::ProofOptions, stark::StarkProof},
     traits::AIR,
-    transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
+    transcript::{
+        batch_sample_challenges, sample_z_ood_from, transcript_to_field, transcript_to_usize,
+    },
 };
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -59,7 +61,7 @@ where
 fn step_1_replay_rounds_and_recover_challenges<F, A, T>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     transcript: &mut T,
 ) -> Challenges<F, A>
 where
@@ -122,11 +124,7 @@ where
     // ===================================
 
     // >>>> Send challenge: z
-    let z = sample_z_ood(
-        &domain.lde_roots_of_unity_coset,
-        &domain.trace_roots_of_unity,
-        transcript,
-    );
+    let z = sample_z_ood_from(|point| domain.contains(point), transcript);
 
     // <<<< Receive value: H₁(z²)
     transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
@@ -208,7 +206,7 @@ where
 fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool {
     // BEGIN TRACE <-> Composition poly consistency evaluation check
@@ -267,9 +265,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     let denominator = (&challenges.z.pow(trace_length) - FieldElement::<F>::one()).inv();
 
     let exemption = air
-        .transition_exemptions_verifier(
-            domain.trace_roots_of_unity.iter().last().expect("has last"),
-        )
+        .transition_exemptions_verifier(&domain.last_trace_point())
         .iter()
         .map(|poly| poly.evaluate(&challenges.z))
         .collect::<Vec<FieldElement<F>>>();
@@ -318,7 +314,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
 
 fn step_3_verify_fri<F, A>(
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -331,8 +327,7 @@ where
     let mut evaluation_point_inverse = challenges
         .iotas
         .iter()
-        .map(|iota| &domain.lde_roots_of_unity_coset[*iota])
-        .cloned()
+        .map(|iota| domain.lde_point(*iota))
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut evaluation_point_inverse);
     proof
@@ -358,7 +353,7 @@ where
 fn step_4_verify_deep_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -369,7 +364,7 @@ where
     let mut denom_inv = challenges
         .iotas
         .iter()
-        .map(|iota_n| &domain.lde_roots_of_unity_coset[*iota_n] - z_squared)
+        .map(|iota_n| domain.lde_point(*iota_n) - z_squared)
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut denom_inv);
 
@@ -423,14 +418,12 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
+                let lde_point = &domain.lde_point(*iota_n);
                 let mut divisors = air
                     .context()
                     .transition_offsets
                     .iter()
-                    .map(|offset| {
-                        &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(*offset)
-                    })
+                    .map(|offset| lde_point - &challenges.z * primitive_root.pow(*offset))
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
                 let deep_poly_evaluation = reconstruct_deep_composition_poly_evaluation(
@@ -448,7 +441,7 @@ fn verify_query_and_sym_openings<F: IsField + IsFFTField>(
     zetas: &[FieldElement<F>],
     iota: usize,
     fri_decommitment: &FriDecommitment<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     evaluation_point: FieldElement<F>,
     two_inv: &FieldElement<F>,
 ) -> bool
@@ -584,7 +577,7 @@ fn has_valid_trace_length<F: IsFFTField>(
 fn has_expected_shape<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
 ) -> bool {
     let context = air.context();
     let number_queries = context.proof_options.fri_number_of_queries;
@@ -652,7 +645,7 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
-    let domain = Domain::new(&air);
+    let domain = VerifierDomain::new(&air);
 
     if !has_expected_shape(&air, proof, &domain) {
         error!("The proof does not have the expected shape");
-- 
2.43.0


From 99661a979f7da1c983533c9dc84eeefcf1551510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 15/19] fix: report a Cairo 1 program that cannot be run
 instead of panicking

---
 src/cairo/runner/run.rs | 55 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 22bfc5b..794524f 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -10,7 +10,9 @@ use cairo_vm::cairo_run::{self, EncodeTraceError};
 use cairo_vm::hint_processor::builtin_hint_processor::builtin_hint_processor_definition::BuiltinHintProcessor;
 use cairo_vm::hint_processor::cairo_1_hint_processor::hint_processor::Cairo1HintProcessor;
 use cairo_vm::serde::deserialize_program::BuiltinName;
-use cairo_vm::types::{program::Program, relocatable::MaybeRelocatable};
+use cairo_vm::types::{
+    errors::program_errors::ProgramError, program::Program, relocatable::MaybeRelocatable,
+};
 use cairo_vm::vm::errors::{
     cairo_run_errors::CairoRunError, trace_errors::TraceError, vm_errors::VirtualMachineError,
 };
@@ -100,19 +102,19 @@ pub fn run_program(
             (vm, runner)
         }
         CairoVersion::V1 => {
-            let casm_contract: CasmContractClass = serde_json::from_slice(program_content).unwrap();
-            let program: Program = casm_contract.clone().try_into().unwrap();
-            let mut runner = CairoRunner::new(
-                &(casm_contract.clone().try_into().unwrap()),
-                layout.as_str(),
-                false,
-            )
-            .unwrap();
+            let casm_contract: CasmContractClass = serde_json::from_slice(program_content)
+                .map_err(|error| CairoRunError::from(ProgramError::from(error)))?;
+            let program: Program = casm_contract
+                .clone()
+                .try_into()
+                .map_err(|error: ProgramError| CairoRunError::from(error))?;
+            let mut runner =
+                CairoRunner::new(&program, layout.as_str(), false).map_err(CairoRunError::from)?;
             let mut vm = VirtualMachine::new(true);
 
             runner
                 .initialize_function_runner_cairo_1(&mut vm, &[BuiltinName::range_check])
-                .unwrap();
+                .map_err(CairoRunError::from)?;
 
             // Implicit Args
             let syscall_segment = MaybeRelocatable::from(vm.add_memory_segment());
@@ -142,18 +144,23 @@ pub fn run_program(
             let builtin_costs: Vec<MaybeRelocatable> =
                 vec![0.into(), 0.into(), 0.into(), 0.into(), 0.into()];
             let builtin_costs_ptr = vm.add_memory_segment();
-            vm.load_data(builtin_costs_ptr, &builtin_costs).unwrap();
+            vm.load_data(builtin_costs_ptr, &builtin_costs)
+                .map_err(VirtualMachineError::from)?;
 
             // Load extra data
-            let core_program_end_ptr = (runner.program_base.unwrap() + program.data_len()).unwrap();
+            // The program base is set by `initialize_function_runner_cairo_1`
+            let core_program_end_ptr = (runner.program_base.unwrap() + program.data_len())
+                .map_err(VirtualMachineError::from)?;
             let program_extra_data: Vec<MaybeRelocatable> =
                 vec![0x208B7FFF7FFF7FFE.into(), builtin_costs_ptr.into()];
             vm.load_data(core_program_end_ptr, &program_extra_data)
-                .unwrap();
+                .map_err(VirtualMachineError::from)?;
 
             // Load calldata
             let calldata_start = vm.add_memory_segment();
-            let calldata_end = vm.load_data(calldata_start, &args.to_vec()).unwrap();
+            let calldata_end = vm
+                .load_data(calldata_start, &args.to_vec())
+                .map_err(VirtualMachineError::from)?;
 
             // Create entrypoint_args
 
@@ -173,17 +180,15 @@ pub fn run_program(
             // We assume entrypoint 0 for only one function
             let mut run_resources = RunResources::default();
 
-            runner
-                .run_from_entrypoint(
-                    0,
-                    &entrypoint_args,
-                    &mut run_resources,
-                    true,
-                    Some(program.data_len() + program_extra_data.len()),
-                    &mut vm,
-                    &mut hint_processor,
-                )
-                .unwrap();
+            runner.run_from_entrypoint(
+                0,
+                &entrypoint_args,
+                &mut run_resources,
+                true,
+                Some(program.data_len() + program_extra_data.len()),
+                &mut vm,
+                &mut hint_processor,
+            )?;
 
             let _ = runner.relocate(&mut vm, true);
 
-- 
2.43.0


From e9cf96b53f5c82ec78e09d74756c701b109b3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 16/19] fix: report instructions of undefined behavior instead
 of panicking

---
 src/cairo/decode/instruction_flags.rs | 16 ++++++++++++++--
 src/cairo/runner/run.rs               |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cairo/decode/instruction_flags.rs b/src/cairo/decode/instruction_flags.rs
index da60b3a..e88a095 100644
--- a/src/cairo/decode/instruction_flags.rs
+++ b/src/cairo/decode/instruction_flags.rs
@@ -292,7 +292,7 @@ impl TryFrom<&FE> for CairoInstructionFlags {
     type Error = InstructionDecodingError;
 
     fn try_from(mem_value: &FE) -> Result<Self, Self::Error> {
-        Ok(CairoInstructionFlags {
+        let flags = CairoInstructionFlags {
             opcode: CairoOpcode::try_from(mem_value)?,
             pc_update: PcUpdate::try_from(mem_value)?,
             ap_update: ApUpdate::try_from(mem_value)?,
@@ -300,7 +300,19 @@ impl TryFrom<&FE> for CairoInstructionFlags {
             op1_src: Op1Src::try_from(mem_value)?,
             op0_reg: Op0Reg::try_from(mem_value)?,
             dst_reg: DstReg::try_from(mem_value)?,
-        })
+        };
+
+        // Conditional jumps have no result: whatever would use one has undefined behavior.
+        // See page 33 of the Cairo whitepaper.
+        if flags.pc_update == PcUpdate::Jnz
+            && (flags.res_logic != ResLogic::Op1
+                || flags.opcode != CairoOpcode::NOp
+                || flags.ap_update == ApUpdate::Add)
+        {
+            return Err(InstructionDecodingError::InvalidPcUpdate);
+        }
+
+        Ok(flags)
     }
 }
 
diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 794524f..32e747c 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -2,6 +2,7 @@ use super::vec_writer::VecWriter;
 use crate::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
 use crate::cairo::cairo_layout::CairoLayout;
 use crate::cairo::cairo_mem::CairoMemory;
+use crate::cairo::errors::InstructionDecodingError;
 use crate::cairo::execution_trace::build_main_trace;
 use crate::cairo::register_states::RegisterStates;
 use crate::starks::trace::TraceTable;
@@ -34,6 +35,8 @@ pub enum Error {
     VirtualMachine(#[from] VirtualMachineError),
     #[error(transparent)]
     Trace(#[from] TraceError),
+    #[error("The cairo program executed an instruction of undefined behavior")]
+    InstructionDecoding(#[from] InstructionDecodingError),
 }
 
 /// Indicates the version of the Cairo program.
@@ -257,6 +260,9 @@ pub fn generate_prover_args(
     let (register_states, memory, program_size, range_check_builtin_range) =
         run_program(None, cairo_layout, program_content, cairo_version)?;
 
+    // The virtual machine runs some instructions that no trace can hold
+    register_states.flags_and_offsets(&memory)?;
+
     let memory_segments = create_memory_segment_map(range_check_builtin_range, output_range);
 
     let mut pub_inputs =
-- 
2.43.0


From bdf621bad2b01c34cdb1202e04cabffe9562e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 17/19] fix: prove the range checks of Cairo 1 programs

---
 src/cairo/runner/run.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 32e747c..ae2af3a 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -225,7 +225,10 @@ pub fn run_program(
         .get_range_check_builtin()
         .map(|builtin| {
             let (idx, stop_offset) = builtin.get_memory_segment_addresses();
-            let stop_offset = stop_offset.unwrap_or_default();
+            // Cairo 1 runs do not set the stop pointer
+            let stop_offset = stop_offset
+                .or_else(|| vm.get_segment_used_size(idx))
+                .unwrap_or_default();
             let range_check_base =
                 (0..idx).fold(1, |acc, i| acc + vm.get_segment_size(i).unwrap_or_default());
             let range_check_end = range_check_base + stop_offset;
-- 
2.43.0


From 257653755b144f4a61ac52c9e6e3025097cd71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/19] fix: refuse blowup factors that are not powers of two

They have no evaluation domain: the prover panics on them. A blowup of 0 even
counted as 8 bits of security per query, as 0 has 8 trailing zeros in a u8.
---
 src/starks/proof/options.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index c01d34e..13cbbc8 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -82,6 +82,7 @@ impl ProofOptions {
         security_target: u8,
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
+        Self::check_blowup_factor(blowup_factor)?;
 
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
@@ -110,6 +111,7 @@ impl ProofOptions {
         security_target: u8,
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
+        Self::check_blowup_factor(blowup_factor)?;
 
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
@@ -127,6 +129,15 @@ impl ProofOptions {
         })
     }
 
+    // Only powers of two have an evaluation domain
+    fn check_blowup_factor(blowup_factor: u8) -> Result<(), InsecureOptionError> {
+        if !blowup_factor.is_power_of_two() {
+            return Err(InsecureOptionError::SecurityBits);
+        }
+
+        Ok(())
+    }
+
     fn check_field_security<F: IsPrimeField>(
         security_target: u8,
     ) -> Result<(), InsecureOptionError> {
-- 
2.43.0


From e4c5bd9bc2f2b041ef93f04ba38b4b23ab081367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:51 +0000
Subject: [PATCH 19/19] fix: report why a proof with too few queries is
 rejected

---
 src/starks/verifier.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 53ca983..bb5c1a9 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -630,6 +630,7 @@ where
 {
     // Verify there are enough queries
     if proof.query_list.len() < proof_options.fri_number_of_queries {
+        error!("Not enough queries");
         return false;
     }
 
-- 
2.43.0

