V, PR = "src/starks/verifier.rs", "src/starks/prover.rs"
prop("C01", "Honest proofs are eventually accepted, whatever the network and disks do",
 "For every statement that holds and every supported set of options, the prover produces a proof and the verifier accepts it. When provers and verifiers are separate nodes whose messages are lost, duplicated, reordered, delayed or damaged and who crash and restart from their disks, no verifier ever accepts a statement for which no such proof was made, equal requests get equal proofs, and once faults stop every open request is answered with acceptance within a bounded time.",
 ["inputs", "programs", "configurations", "fault_sequences", "schedules", "crash_points"],
 "all AIRs (shipped, generated, Cairo programs), options, network schedules, crash points and disk faults",
 "The tests prove a few fixed programs with one set of options in one process, and only one of them runs here.",
 [PR, V, "src/starks/fri/mod.rs", "src/starks/trace.rs", "src/starks/frame.rs", "src/cairo/air.rs", "src/cairo/runner/run.rs"],
 [("prove", PR), ("verify", V), ("generate_prover_args", "src/cairo/runner/run.rs")],
 "Seeded search over random statements, options, network and crash schedules; real prover, verifier and serializers, stand-in math library and VM. Sampled, not exhaustive; small traces.")
prop("C02", "A proof that was changed on its way is not accepted",
 "Whatever happens to a proof between prover and verifier, the verifier accepts it only if all the values the protocol uses are those the prover sent. This covers every commitment, evaluation, authentication path, the last layer value, the nonce, the trace length and the number of parts.",
 ["inputs", "fault_sequences"], "all statements, options, places of a proof and ways to change one or several of them",
 "No test changes a proof at all.", [V, "src/starks/proof/stark.rs", "src/starks/fri/fri_decommit.rs", "src/starks/grinding.rs"],
 [("verifier steps 1 to 4", V), ("StarkProof deserialization", "src/starks/proof/stark.rs")],
 "Every run alters every kind of value and list of a real proof and judges the real verifier; probabilities of accidental passes are negligible because any value enters the transcript or a Merkle path.")
prop("C03", "A proof is accepted only for the statement it was made for",
 "A proof made for one statement is rejected by a verifier that expects another: other public inputs, another constraint system, or another session's proof. No mixture of the parts of two proofs is accepted either.",
 ["inputs", "programs", "fault_sequences"], "all pairs of statements, changed public inputs and mixtures of two proofs",
 "The tests only verify proofs against the very inputs they were made with.", [V, "src/cairo/air.rs", "src/starks/example/simple_fibonacci.rs", "src/starks/example/fibonacci_rap.rs", "src/starks/constraints/boundary.rs"],
 [("boundary constraints", "src/cairo/air.rs"), ("composition check at z", V), ("public memory factor of the permutation argument", "src/cairo/air.rs")],
 "Misdelivery and splicing faults between simulated sessions, each public input field changed alone and together; three known findings (no strong Fiat-Shamir, segment ranges) are checked by directed runs.")
prop("C04", "Acceptance delivers the security the verifier demands",
 "A proof is accepted only under options whose demands it meets: at least the demanded number of queries, all of them answered correctly, and at least the demanded proof of work, on the blowup and coset it was made for. Options are granted exactly when blowup, queries and grinding reach the requested security level, and every ready-made level reaches the bits in its name.",
 ["inputs", "configurations", "fault_sequences"], "all pairs of prover and verifier options, nonces, and requested security levels",
 "The tests use one set of options for both sides and check two refused configurations.",
 ["src/starks/proof/options.rs", V, PR, "src/starks/grinding.rs", "src/starks/fri/mod.rs"],
 [("security checks", "src/starks/proof/options.rs"), ("grinding check and query count", V), ("generate_nonce_with_grinding", "src/starks/grinding.rs")],
 "Misconfiguration and faulty-prover faults between prover and verifier nodes; proof of work recomputed by an independent implementation.")
prop("C05", "A trace that breaks any condition of its statement is not accepted",
 "Whatever goes wrong in the prover's memory before it commits (trace cells, registers, memory accesses, offsets, running products, public inputs), the proof is rejected if the committed trace violates any boundary or transition condition of the statement, even a single one at a single row. For Cairo this covers flags, operands, registers, opcodes, memory continuity and consistency, both permutation arguments and range checks. A trace that satisfies every condition is proved and accepted.",
 ["inputs", "programs", "fault_sequences"], "executions of all AIRs (Cairo executions also cut short), faults of every kind at every place",
 "The tests prove correct traces only; which single violations go unnoticed cannot be seen from them.",
 ["src/cairo/air.rs", "src/starks/constraints/evaluator.rs", "src/starks/constraints/boundary.rs", "src/starks/traits.rs", V, PR],
 [("compute_transition and boundary_constraints", "src/cairo/air.rs"), ("exemptions and zerofiers", "src/starks/traits.rs"), ("composition check at z", V)],
 "Memory faults are constructed so that each of the constraints of the Cairo AIR is at some point the only one violated (counted by reach probes); judged by an independent checker. Five gaps of the constraint system are known findings.")

prop("C06", "Every challenge depends on all messages before it and decides what it should",
 "Prover and verifier absorb the same messages and draw the same challenges in the same order. Each challenge depends on every message sent before it and on nothing sent later, and the out-of-domain point never lies in the trace or evaluation domain. A prover or verifier that reads any challenge other than the transcript yields it does not get the proof accepted, unless the difference lies in bits the protocol does not use.",
 ["inputs", "programs", "configurations", "fault_sequences"], "all AIRs and options, every message and every challenge of a proof, all values a transcript may yield",
 "The tests run both sides against each other, so a challenge that is drawn too early or never used on either side goes unnoticed.",
 [PR, V, "src/starks/transcript.rs", "src/starks/fri/mod.rs", "src/cairo/air.rs"],
 [("batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize", "src/starks/transcript.rs"), ("step_1_replay_rounds_and_recover_challenges", V), ("build_rap_challenges", "src/cairo/air.rs")],
 "Faults at the transcript seam: altered messages and challenges, extreme and stale challenges on one or both sides; compared with an independent prover and verifier under the same fault. Public inputs are not absorbed at all, which is a known finding of C03.")
prop("C07", "Following the protocol is sufficient and necessary for acceptance",
 "An independently written prover that follows the protocol obtains, byte for byte, the proof the prover obtains, and it is accepted. A prover that deviates is rejected by whichever check covers its deviation, even when it satisfies every other check: constraint equation, DEEP composition, each opening, each fold, last value, proof of work, and the numbers of queries, layers and commitments.",
 ["inputs", "programs", "configurations", "fault_sequences"], "all AIRs and options, valid and invalid traces, deviations constructed to be hidden from all checks but one",
 "The tests hold no dishonest prover; prover and verifier sharing a mistake always agree with each other.",
 [V, PR, "src/starks/fri/mod.rs", "src/starks/fri/fri_functions.rs", "src/starks/constraints/evaluator.rs", "src/starks/domain.rs", "src/starks/frame.rs"],
 [("verifier steps 1 to 4", V), ("has_expected_shape and has_valid_trace_length", V), ("rounds 1 to 4", PR), ("fri_commit_phase, fri_query_phase", "src/starks/fri/mod.rs")],
 "A second prover and a second verifier, written apart from the repository's, take part in the simulation as (deviating) nodes; the second verifier is the oracle for acceptance. Reach probes show every check as the only one failing.")
prop("C08", "The receiving side answers whatever it is sent",
 "Every byte string handed to the decoders of proofs, parts of proofs and public inputs is decoded or refused, and every proof is accepted or rejected for any public inputs: no call panics, aborts or runs forever. It holds an amount of memory bounded by the bytes received, not by the numbers they contain, and gives the same answer when asked again. Receiving faulty messages does not keep the verifier from accepting the honest proof afterwards.",
 ["inputs", "configurations", "fault_sequences"], "all byte strings, proofs, claimed sizes and public inputs",
 "No test decodes or verifies anything but what the prover made.",
 ["src/starks/proof/stark.rs", "src/starks/frame.rs", "src/starks/fri/fri_decommit.rs", "src/starks/utils.rs", "src/cairo/air.rs", V, "src/starks/domain.rs"],
 [("deserialize of StarkProof, DeepPolynomialOpenings", "src/starks/proof/stark.rs"), ("PublicInputs::deserialize, are_valid_public_inputs", "src/cairo/air.rs"), ("has_valid_trace_length, has_expected_shape, VerifierDomain", V)],
 "A hostile peer sends noise, extreme numbers, cuts, misshapen and huge claims; a metering allocator is the memory fault. The Fibonacci RAP example is a known finding.")
prop("C09", "What is stored is what is read back",
 "Proofs, their parts and public inputs of any shape keep their values when stored and read, equal values are stored as equal bytes, and the stored form is the one existing proof files have. Files that a disk tore, cut, overwrote or altered are either refused or read as exactly the values their bytes hold; well-formed bytes are never refused.",
 ["inputs", "crash_points", "fault_sequences"], "values of all shapes, disk faults of all kinds at all places",
 "The round-trip tests cover well-shaped random parts only; no test looks at damaged bytes or at the stored form.",
 ["src/starks/proof/stark.rs", "src/starks/frame.rs", "src/starks/fri/fri_decommit.rs", "src/starks/utils.rs", "src/cairo/air.rs"],
 [("Serializable and Deserializable of StarkProof, DeepPolynomialOpenings", "src/starks/proof/stark.rs"), ("of FriDecommitment", "src/starks/fri/fri_decommit.rs"), ("of PublicInputs", "src/cairo/air.rs")],
 "Independent writer and reader of the stored form as reference; a simulated disk between writer and reader; the proof file in benches/proofs as witness of the form.")
prop("C10", "The proof depends only on statement, trace and options",
 "For the same statement, trace and options the prover always makes the same proof, byte for byte, and the verifier always answers the same. How many workers there are, how their tasks interleave, whether the build is sequential or parallel, has debug checks or prints timings, which process it runs in, and what was proved or verified before, change nothing. The same program run again yields the same trace and public inputs.",
 ["schedules", "inputs", "configurations"], "all schedules of the parallel build's tasks, worker counts, builds, processes, orders of sessions, statements and options",
 "The tests run one build once, on whatever schedule the machine happens to produce.",
 [PR, V, "src/starks/fri/mod.rs", "src/starks/constraints/evaluator.rs", "src/cairo/execution_trace.rs", "src/cairo/runner/run.rs"],
 [("parallel rounds 1 to 4, cfg(feature = parallel)", PR), ("evaluate, parallel and sequential", "src/starks/constraints/evaluator.rs"), ("generate_nonce_with_grinding", "src/starks/grinding.rs")],
 "Task scheduling of the parallel build is simulated (a seeded executor stands in for rayon); each proof is compared with those of a sequential build and of one with debug checks and timing prints in other processes.")
prop("C11", "The command line did what it reports, whatever failed around it",
 "A command exits with success exactly if it did all it was asked: prove left a file with length, proof and public inputs that are the library's for that program and the test options; verify read a file the library accepts; prove_and_verify proved and accepted. Wrong calls, unreadable or damaged programs and files, a failing machine, I/O errors and a full disk end with a failure status, not a panic, while interrupted calls and short reads and writes change nothing. A failed or killed command leaves the old file or a part of the new one, which verify refuses, touches no other file, and keeps the old file if there was nothing to write.",
 ["programs", "inputs", "crash_points", "fault_sequences"], "all sequences of commands, system call faults and deaths at every system call, damaged programs and proof files",
 "No test runs the command line at all, and none lets a system call fail.",
 ["src/main.rs", "src/cairo/runner/run.rs", "src/cairo/air.rs", "src/starks/proof/stark.rs", "src/starks/proof/options.rs"],
 [("main, generate_proof, verify_proof", "src/main.rs"), ("default_test_options", "src/starks/proof/options.rs"), ("PublicInputs serialize, deserialize", "src/cairo/air.rs")],
 "The command line runs as a process on a scratch directory under a seam at the system call boundary; the library called from the simulator is the oracle for what success means.")
prop("C12", "Trace and public inputs are those of the run that took place",
 "For every program the execution trace, memory and public inputs are exactly those of the machine's run: every step, register, operand, flag and offset, the program, the requested output, the range checks, and the first and last registers. When the machine fails, dies or runs out of steps or memory, or the program is damaged or does what has no meaning, there is an error and never a trace. Trace and memory files hold what was written or an error is reported, and are read as exactly what they say or refused.",
 ["programs", "inputs", "crash_points", "fault_sequences"], "all programs, machine faults at every step, damaged programs and files",
 "The tests compare a few traces of fixed programs and let no machine, program or disk fail.",
 ["src/cairo/runner/run.rs", "src/cairo/runner/vec_writer.rs", "src/cairo/runner/file_writer.rs", "src/cairo/execution_trace.rs", "src/cairo/register_states.rs", "src/cairo/cairo_mem.rs", "src/cairo/decode/instruction_flags.rs", "src/cairo/decode/instruction_offsets.rs", "src/cairo/air.rs"],
 [("run_program, generate_prover_args", "src/cairo/runner/run.rs"), ("build_main_trace", "src/cairo/execution_trace.rs"), ("PublicInputs::from_regs_and_mem", "src/cairo/air.rs"), ("from_bytes_le, from_file", "src/cairo/register_states.rs")],
 "The virtual machine is a stand-in with a fault seam; its own record of the run, decoded by an independent reading of the instructions, is the oracle. Disk faults are real (file size limits) in a scratch directory.")
prop("C13", "What goes wrong is reported, and nothing else",
     "A debug build of the prover reports an error, and its trace validation says so, exactly if the committed trace violates a boundary or transition condition of its statement, be it a single one at a single row. "
     "A verifier that rejects reports why, and proving or verifying what is right reports no error.",
     ["inputs", "programs", "configurations", "fault_sequences"], "all statements, options and memory faults of C05, in the debug build",
     "No test that runs here looks at the debug build's validation, and the ones in the repository only validate honest traces.",
     ["src/starks/debug.rs", "src/starks/prover.rs", "src/starks/verifier.rs", "src/starks/constraints/evaluator.rs", "src/starks/frame.rs"],
     [("validate_trace", "src/starks/debug.rs"), ("prove", "src/starks/prover.rs"), ("verify", "src/starks/verifier.rs")],
     "Memory faults of C05 in the debug build; an independent checker says what is violated, a simulated logger hears what is reported.")
prop("C14", "Sessions that share a process do not disturb each other",
 "However the steps of several proving and verifying sessions in one process interleave, each ends exactly as it does alone in a process of its own: same proof bytes, same verdict, same error. A session that dies at any point, or fails on a bad trace or proof, changes nothing for those that go on, and the same session started again afterwards, in its old thread or a new one, succeeds as if nothing had happened.",
 ["schedules", "crash_points", "inputs", "fault_sequences"], "all interleavings of sessions, all crash points, sessions of all AIRs, options, traces and (altered) proofs",
 "The tests run each session to its end and start no other meanwhile; the prover is meant to be embedded in services that run many.",
 [PR, V, "src/starks/domain.rs", "src/starks/traits.rs", "src/starks/fri/mod.rs", "src/cairo/air.rs", "src/cairo/runner/run.rs", "src/cairo/execution_trace.rs"],
 [("prove and its rounds", PR), ("verify and its steps", V), ("Domain::new", "src/starks/domain.rs"), ("generate_prover_args", "src/cairo/runner/run.rs")],
 "Sessions are simulated threads; the schedule passes a baton at every operation of the stand-in libraries, and crashes strike at those points.")
