import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
KIT='mod kit;\nuse kit::*;\n'
V='src/starks/verifier.rs'
bug('fri-zero-last','C01',
 'a statement whose trace is zero everywhere, so that the last FRI polynomial has no coefficients',
 'the prover dies on a statement that holds',
 [('src/starks/fri/mod.rs','''    let last_value = last_poly
        .coefficients()
        .get(0)
        .unwrap_or(&FieldElement::zero())
        .clone();
''','''    // The last polynomial is a constant
    let last_value = last_poly.coefficients()[0].clone();
''')],KIT+'''
fn main() {
    let o = opts(4, 3, 3, 1);
    let inputs = FibonacciPublicInputs { a0: FE::zero(), a1: FE::zero() };
    let trace = fibonacci_trace([FE::zero(), FE::zero()], 16);
    match quiet(|| prove::<F, Fib>(&trace, &inputs, &o)) {
        Some(Ok(proof)) => check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused"),
        _ => fail("no proof of a statement that holds"),
    }
}
''')
bug('pub-memory-rows','C01',
 'a program whose length is not a multiple of four and whose trace needs no padding after the public memory rows',
 'a row of the execution is overwritten by public memory and the honest proof is refused',
 [('src/cairo/execution_trace.rs','''    pad_with_last_row_and_zeros(main_trace, (pub_memory_len >> 2) + 1, &MEMORY_COLUMNS)
''','''    let number_rows = pub_memory_len / ADDR_COLUMNS.len();
    pad_with_last_row_and_zeros(main_trace, number_rows.max(1), &MEMORY_COLUMNS)
''')],KIT+'''
fn main() {
    let o = opts(4, 3, 3, 1);
    for n in 1..40 {
        let p = fib_program(1, 2, n);
        match quiet(|| {
            let (trace, inputs) = cairo_args(&p);
            let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
            verify_cairo_proof(&proof, &inputs, &o)
        }) {
            Some(true) => (),
            _ => fail(&format!("honest proof of a program of {n} additions refused")),
        }
    }
}
''')
bug('final-ap-free','C03',
 'public inputs with another final ap than the run had, the final pc being right',
 'the final allocation pointer of the public inputs is not bound to the trace',
 [('src/cairo/air.rs','''            final_pc,
            final_ap,
''','''            final_pc,
'''),('src/cairo/air.rs','''        let final_ap = BoundaryConstraint::new(
            MEM_P_TRACE_OFFSET,
            self.pub_inputs.num_steps - 1,
            self.pub_inputs.ap_final,
        );

''','')],KIT+'''
fn main() {
    let (trace, inputs) = cairo_args(&fib_program(3, 5, 4));
    let o = opts(4, 3, 3, 1);
    let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
    let mut other = inputs.clone();
    other.ap_final = other.ap_final + FE::one();
    check(!verify_cairo_proof(&proof, &other, &o), "accepted for another final ap");
}
''')
bug('zero-nonce','C04',
 'a proof whose nonce is zero, verified under options that demand grinding',
 'a zero nonce counts as no grinding asked for: proofs without work are accepted',
 [(V,'''    if challenges.leading_zeros_count < grinding_factor {''','''    let has_nonce = proof.nonce != 0;
    if has_nonce && challenges.leading_zeros_count < grinding_factor {''')],KIT+'''
fn main() {
    let (trace, inputs) = fib(16);
    let proof = prove::<F, Fib>(&trace, &inputs, &opts(4, 3, 3, 0)).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &opts(4, 3, 3, 0)), "honest proof refused");
    check(!verify::<F, Fib>(&proof, &inputs, &opts(4, 3, 3, 40)), "accepted without the demanded work");
}
''')
bug('ilog2-blowup','C04',
 'a blowup factor that is no power of two',
 'options are granted for more security bits than the blowup factor delivers',
 [('src/starks/proof/options.rs','''        Self::check_field_security::<F>(security_target)?;

        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;

        if security_target as usize + 1''','''        Self::check_field_security::<F>(security_target)?;

        let num_bits_blowup_factor = blowup_factor.checked_ilog2().unwrap_or(0) as usize;

        if security_target as usize + 1''')],KIT+'''
fn main() {
    // Half of the coset of a blowup of 6 is covered by one of its subgroups
    let o = ProofOptions::new_with_checked_security::<F>(6, 60, 3, 20, 128);
    check(o.is_err(), "options granted on a blowup factor that is no power of two");
    check(ProofOptions::new_with_checked_security::<F>(4, 60, 3, 20, 128).is_ok(), "good options refused");
}
''')
bug('consistency-exempt','C05',
 'a trace whose sorted memory holds two values for one address, exactly in the last row',
 'memory may hold two values for an address if the second is found in the last row of the trace',
 [('src/cairo/air.rs','''            0, 0, 0, 1, // memory value consistency (4)
            0, 0, 0, 1, // memory permutation argument (4)''','''            0, 0, 0, 1, // memory value consistency (4)
            0, 0, 1, 1, // memory permutation argument (4)''')],KIT+'''
use lambdaworks_stark::cairo::air::CairoAIR;
fn main() {
    let (trace, inputs) = cairo_args(&fib_program(3, 5, 4));
    let air = CairoAIR::new(trace.n_rows(), &inputs, &opts(4, 3, 3, 1));
    // Only what relates a row to the next may be exempt in the last row. What each condition
    // reads is found by changing one cell of the next row after the other.
    let n = air.context().trace_columns;
    let mut t = DefaultTranscript::new();
    let challenges = air.build_rap_challenges(&mut t);
    let row: Vec<FE> = (0..2 * n).map(|i| FE::from(1000 + (i * i) as u64)).collect();
    let base = air.compute_transition(&Frame::new(row.clone(), n), &challenges);
    let mut reads_next = vec![false; base.len()];
    for i in n..2 * n {
        let mut other = row.clone();
        other[i] = other[i] + FE::one();
        let e = air.compute_transition(&Frame::new(other, n), &challenges);
        for j in 0..base.len() {
            reads_next[j] |= e[j] != base[j];
        }
    }
    for j in 0..base.len() {
        check(
            air.context().transition_exemptions[j] == 0 || reads_next[j],
            &format!("condition {j} is about a single row but does not hold for the last one"),
        );
    }
}
''')
bug('rc-high-limb','C05',
 'a program with the range check builtin and a value of 112 bits or more in a trace made by hand',
 'the highest limb of a range checked value is not part of the value any more',
 [('src/cairo/air.rs','''        + &curr[RC_7] * &FE::from_hex("10000000000000000000000000000").unwrap()
''','''        + &curr[RC_7] * &FE::from_hex("1000000000000000000000000000").unwrap()
''')],KIT+'''
fn main() {
    // 2^127 does not fit the 64 bit constants of the kit
    let mut data = vec![PUSH, "0x80000000000000000000000000000000", "0x400280007ffd7fff"];
    data.extend(["0x482680017ffd8000", "0x1", RET]);
    let (trace, inputs) = cairo_args(&program(&["range_check"], &data));
    let o = opts(4, 3, 3, 1);
    match quiet(|| {
        let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
        verify_cairo_proof(&proof, &inputs, &o)
    }) {
        Some(true) => (),
        _ => fail("a value of 128 bits fails the range check"),
    }
}
''')
bug('one-gamma','C07',
 'a prover that moves part of the even half of the composition polynomial to the odd half',
 'the openings of both halves are combined with the same coefficient, so that errors in them cancel',
 [(V,'''    trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
''','''    trace_term + (h_1_term + h_2_term) * &challenges.gamma_even
'''),('src/starks/prover.rs','''    let mut h_2_term = gamma_p * (h_2 - h_2_z2);
''','''    let mut h_2_term = gamma * (h_2 - h_2_z2);
'''),('src/starks/prover.rs','''    let gamma_p = &composition_poly_gammas[1];
''','')],KIT+'''
// Moving a constant from one half to the other, in the claimed values, leaves the sum as it was.
// The quotient of both terms by the same divisor has to notice.
fn main() {
    let (trace, inputs) = fib(16);
    let o = opts(4, 1, 3, 0);
    // Openings of the composition polynomial: swap even and odd in all claims at once and see
    // whether the DEEP value tells them apart. The values are those of one FRI query.
    let proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
    let (mut t, p) = (DefaultTranscript::new(), &proof);
    use lambdaworks_stark::starks::transcript::{transcript_to_field, transcript_to_usize};
    let mut draw = |t: &mut DefaultTranscript| -> FE { transcript_to_field::<F, _>(t) };
    t.append(&p.lde_trace_merkle_roots[0]);
    for _ in 0..6 {
        draw(&mut t);
    }
    t.append(&p.composition_poly_root);
    let z = draw(&mut t);
    t.append(&p.composition_poly_even_ood_evaluation.to_bytes_be());
    t.append(&p.composition_poly_odd_ood_evaluation.to_bytes_be());
    for i in 0..3 {
        t.append(&p.trace_ood_frame_evaluations.get_row(i)[0].to_bytes_be());
    }
    let (even, odd) = (draw(&mut t), draw(&mut t));
    let gammas = [draw(&mut t), draw(&mut t), draw(&mut t)];
    for r in &p.fri_layers_merkle_roots {
        t.append(r);
        draw(&mut t);
    }
    t.append(&p.fri_last_value.to_bytes_be());
    t.challenge();
    t.append(&p.nonce.to_be_bytes());
    let iota = transcript_to_usize(&mut t) % 64;
    use lambdaworks_math::field::traits::IsFFTField;
    let x = FE::from(3) * F::get_primitive_root_of_unity(6).unwrap().pow(iota);
    let g = F::get_primitive_root_of_unity(4).unwrap();
    let opening = &p.deep_poly_openings[0];
    let mut deep = FE::zero();
    for (k, gamma) in gammas.iter().enumerate() {
        let t_x = &opening.lde_trace_evaluations[0];
        let t_z = &p.trace_ood_frame_evaluations.get_row(k)[0];
        deep = deep + gamma * (t_x - t_z) * (&x - &z * g.pow(k)).inv();
    }
    let d = (&x - z.square()).inv();
    deep = deep + even * (&opening.lde_composition_poly_even_evaluation - &p.composition_poly_even_ood_evaluation) * &d;
    deep = deep + odd * (&opening.lde_composition_poly_odd_evaluation - &p.composition_poly_odd_ood_evaluation) * &d;
    check(deep == p.query_list[0].layers_evaluations[0], "the halves are not combined with coefficients of their own");
}
''')
bug('capacity-claimed','C08',
 'a received opening that claims an enormous number of authentication paths',
 'the decoder reserves room for as many paths as the sender claims and aborts or panics',
 [('src/starks/proof/stark.rs','''        let mut lde_trace_merkle_proofs = vec![];
''','''        let mut lde_trace_merkle_proofs = Vec::with_capacity(lde_trace_merkle_proofs_len);
''')],KIT+'''
use lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings;
fn main() {
    let (trace, inputs) = fib(8);
    let proof = prove::<F, Fib>(&trace, &inputs, &opts(4, 1, 3, 0)).unwrap();
    let bytes = proof.deep_poly_openings[0].serialize();
    // one path of five nodes, the length of an element, two elements, then the number of paths
    let at = 8 + 5 * 32 + 8 + 64;
    for claim in [u64::MAX, 1 << 60, 1 << 44] {
        let mut b = bytes.clone();
        check(b[at + 7] == 1, "the layout is another one");
        b[at..at + 8].copy_from_slice(&claim.to_be_bytes());
        match quiet(|| DeepPolynomialOpenings::<F>::deserialize(&b).is_err()) {
            Some(true) => (),
            _ => fail("no answer to an opening that claims too much"),
        }
    }
}
''')
bug('sym-length','C09',
 'a FRI decommitment that holds unequal numbers of evaluations and symmetric evaluations',
 'a decommitment of unusual shape is stored with the wrong length and can not be read back as it was',
 [('src/starks/fri/fri_decommit.rs','''        bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
        for evaluation in &self.layers_evaluations_sym {
            bytes.extend(evaluation.to_bytes_be());
        }
        bytes.extend(self.layers_evaluations.len().to_be_bytes());
        for evaluation in &self.layers_evaluations {
            bytes.extend(evaluation.to_bytes_be());
        }
''','''        let number_layers = self.layers_evaluations.len();
        for evaluations in [&self.layers_evaluations_sym, &self.layers_evaluations] {
            bytes.extend(number_layers.to_be_bytes());
            for evaluation in evaluations {
                bytes.extend(evaluation.to_bytes_be());
            }
        }
''')],KIT+'''
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
fn main() {
    let d = FriDecommitment::<F> {
        layers_auth_paths_sym: vec![],
        layers_evaluations_sym: vec![FE::from(5), FE::from(6)],
        layers_auth_paths: vec![],
        layers_evaluations: vec![FE::from(7)],
    };
    match quiet(|| FriDecommitment::<F>::deserialize(&d.serialize()).unwrap()) {
        Some(r) => check(
            r.layers_evaluations_sym == d.layers_evaluations_sym && r.layers_evaluations == d.layers_evaluations,
            "read back with other values",
        ),
        None => fail("not read back"),
    }
}
''')
bug('steps-32-bit','C09',
 'public inputs of a run of 2^32 steps or more',
 'the number of steps is stored with 64 bits but read with 32',
 [('src/cairo/air.rs','''        let num_steps = usize::from_be_bytes(
            bytes
                .get(0..8)
                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                .try_into()
                .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
        );
''','''        let num_steps = u32::from_be_bytes(
            bytes
                .get(4..8)
                .ok_or(DeserializationError::InvalidAmountOfBytes)?
                .try_into()
                .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
        ) as usize;
''')],KIT+'''
fn main() {
    let (_, mut inputs) = cairo_args(&fib_program(3, 5, 4));
    inputs.num_steps = (1 << 32) + 5;
    let read = PublicInputs::deserialize(&inputs.serialize()).unwrap();
    check(read.num_steps == inputs.num_steps, "another number of steps was read back");
}
''')
bug('parallel-nonce','C10',
 'the parallel feature and a grinding factor for which the first workers find different nonces',
 'in a parallel build the nonce, and with it the proof, depends on which worker finds one first',
 [('src/starks/grinding.rs','''use sha3::{Digest, Keccak256};
''','''#[cfg(feature = "parallel")]
use rayon::prelude::{IntoParallelIterator, ParallelIterator};
use sha3::{Digest, Keccak256};
'''),('src/starks/grinding.rs','''    (0..u64::MAX).find(|&candidate_nonce| {
        hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, candidate_nonce)
            >= grinding_factor
    })
''','''    let is_good = |candidate_nonce: &u64| {
        hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, *candidate_nonce)
            >= grinding_factor
    };

    #[cfg(feature = "parallel")]
    return (0..u64::MAX).into_par_iter().find_any(is_good);
    #[cfg(not(feature = "parallel"))]
    return (0..u64::MAX).find(is_good);
''')],KIT+'''
use lambdaworks_stark::starks::grinding::generate_nonce_with_grinding as nonce;
fn main() {
    for seed in 0..40u64 {
        for factor in [0u8, 1, 3, 6] {
            let mut c = [7u8; 32];
            c[..8].copy_from_slice(&seed.to_be_bytes());
            let a = nonce(&c, factor);
            rayon::sim::set_schedule(Some((seed + 1, 4)));
            let b = nonce(&c, factor);
            rayon::sim::set_schedule(None);
            check(a == b, "the nonce depends on the schedule of the workers");
        }
    }
}
''',feat='"parallel"')
bug('hole-order','C10',
 'a program with at least two memory holes, run in two processes (or twice)',
 'memory holes are put into the trace in the order of a randomly seeded hash set: the same program gives different traces and proofs',
 [('src/cairo/execution_trace.rs','''use std::{iter, ops::Range};
''','''use std::{collections::HashSet, iter, ops::Range};
'''),('src/cairo/execution_trace.rs','''                    memory_holes.push(hole_addr);
                }
                hole_addr += FE::one();
            }
        }
        prev_addr = addr;
    }

    memory_holes
''','''                    memory_holes.insert(hole_addr);
                }
                hole_addr += FE::one();
            }
        }
        prev_addr = addr;
    }

    memory_holes.into_iter().collect()
'''),('src/cairo/execution_trace.rs','''    let mut memory_holes = Vec::new();
    let mut prev_addr = &sorted_addrs[0];
''','''    let mut memory_holes = HashSet::new();
    let mut prev_addr = &sorted_addrs[0];
''')],KIT+'''
fn main() {
    // ap += 6 leaves cells nobody touches
    let p = program(&[], &[PUSH, "0x5", "0x40780017fff7fff", "0x6", PUSH, "0x7", RET]);
    let (one, _) = cairo_args(&p);
    for _ in 0..20 {
        let (two, _) = cairo_args(&p);
        check(one == two, "the same program has two traces");
    }
}
''')
bug('no-truncate','C11',
 'proving over an older file that is longer than the new proof',
 'the tail of an older proof stays behind the new one',
 [('src/main.rs','''            let Ok(()) = std::fs::write(output_path, bytes) else {
''','''            let mut file = std::fs::OpenOptions::new();
            let file = file.write(true).create(true).open(output_path);
            let Ok(()) = file.and_then(|mut f| std::io::Write::write_all(&mut f, &bytes)) else {
''')],KIT+'''
use std::process::Command;
fn main() {
    let (dir, cli) = (std::env::var("DEMO_DIR").unwrap(), std::env::var("DEMO_CLI").unwrap());
    let (p, a, b) = (format!("{dir}/p.json"), format!("{dir}/a"), format!("{dir}/b"));
    std::fs::write(&p, fib_program(1, 1, 3)).unwrap();
    std::fs::write(&a, vec![0xab; 1 << 20]).unwrap();
    for out in [&a, &b] {
        let s = Command::new(&cli).args(["prove", &p, out]).output().unwrap().status;
        check(s.success(), "prove failed");
    }
    check(std::fs::read(&a).unwrap() == std::fs::read(&b).unwrap(), "the old file is still part of the new one");
}
''',cli=True)
bug('unflushed','C11',
 'a disk that is full, or fails, by the time the last buffered bytes of the proof are written',
 'the command reports success although the proof never reached the file',
 [('src/main.rs','''            let Ok(()) = std::fs::write(output_path, bytes) else {
''','''            let file = std::fs::File::create(output_path).map(std::io::BufWriter::new);
            let written = file.and_then(|mut f| {
                bytes
                    .chunks(4096)
                    .try_for_each(|chunk| std::io::Write::write_all(&mut f, chunk))
            });
            let Ok(()) = written else {
''')],KIT+'''
use std::process::Command;
fn main() {
    let (dir, cli) = (std::env::var("DEMO_DIR").unwrap(), std::env::var("DEMO_CLI").unwrap());
    let (p, a) = (format!("{dir}/p.json"), format!("{dir}/a"));
    std::fs::write(&p, fib_program(1, 1, 3)).unwrap();
    let run = |limit: u64| {
        let sh = format!("trap '' XFSZ; ulimit -f {limit}; exec {cli} prove {p} {a}");
        Command::new("bash").args(["-c", &sh]).output().unwrap().status.success()
    };
    check(run(1 << 20), "prove failed");
    let full = std::fs::metadata(&a).unwrap().len();
    // files may not grow beyond so many KB: as on a disk that is full
    for limit in (0..full / 1024 + 1).rev() {
        let ok = run(limit);
        let len = std::fs::metadata(&a).unwrap().len();
        check(!ok || len == full, &format!("success reported with {len} of {full} bytes written"));
    }
}
''',cli=True)
bug('torn-trace','C12',
 'a trace file that was cut within a row',
 'the incomplete last row of a torn trace file is dropped instead of reported',
 [('src/cairo/register_states.rs','''        if bytes.len() % ROW_SIZE != 0 {
            return Err(CairoImportError::IncorrectNumberOfBytes);
        }
        let num_rows''','''        if bytes.len() < ROW_SIZE && !bytes.is_empty() {
            return Err(CairoImportError::IncorrectNumberOfBytes);
        }
        let num_rows''')],KIT+'''
fn main() {
    let bytes: Vec<u8> = (0..72).collect();
    check(RegisterStates::from_bytes_le(&bytes).unwrap().steps() == 3, "three rows expected");
    for n in 0..72 {
        if n % 24 != 0 {
            check(RegisterStates::from_bytes_le(&bytes[..n]).is_err(), "torn file read as a whole one");
        }
    }
}
''')
bug('deref-far','C12',
 'an instruction that reads through a pointer with a negative offset',
 'op1 addresses behind a pointer ignore the sign of the offset',
 [('src/cairo/execution_trace.rs','''                let addr = aux_get_last_nim_of_field_element(op0)
                    .checked_add_signed(offset.off_op1.into())
                    .unwrap();''','''                let addr = aux_get_last_nim_of_field_element(op0)
                    .checked_add(offset.off_op1.unsigned_abs().into())
                    .unwrap();''')],KIT+'''
fn main() {
    // [ap] = [[fp-2] ...: the return frame pointer of main points behind its cells
    // [ap] = 5; ap++   [ap] = fp... : store a pointer to the cell above, then [ap] = [[ap-1] - 1]
    // call rel 2 ; (callee) [ap] = 9; ap++ ; [ap] = [[fp-2]+(-2)] ; ret
    let p = program(&[], &[
        "0x480680017fff8000", "0x5",  // [ap] = 5; ap++
        "0x1104800180018000", "0x3",  // call rel 3
        RET,
        "0x48027ffe7ffe8000",         // [ap] = [[fp-2] - 2]: the return frame pointer of the caller
        RET,
    ]);
    let r = quiet(|| {
        let (trace, inputs) = cairo_args(&p);
        let o = opts(4, 3, 3, 1);
        let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
        verify_cairo_proof(&proof, &inputs, &o)
    });
    check(r.is_some(), "no trace of a valid program");
    check(r == Some(true), "the trace is not that of the run");
}
''')
bug('v1-incomplete','C12',
 'a Cairo 1 program whose run the machine ends with an error after some steps',
 'the trace of an incomplete run is handed out as if the run had succeeded',
 [('src/cairo/runner/run.rs','''            runner.run_from_entrypoint(
                0,
                &entrypoint_args,
                &mut run_resources,
                true,
                Some(program.data_len() + program_extra_data.len()),
                &mut vm,
                &mut hint_processor,
            )?;
''','''            let run = runner.run_from_entrypoint(
                0,
                &entrypoint_args,
                &mut run_resources,
                true,
                Some(program.data_len() + program_extra_data.len()),
                &mut vm,
                &mut hint_processor,
            );
            if let Err(error) = run {
                log::error!("{error}");
            }
''')],KIT+'''
fn main() {
    let file = lambdaworks_stark::cairo::runner::run::cairo1_program_path("fibonacci_cairo1.casm");
    let p = std::fs::read(file).unwrap();
    check(generate_prover_args(&p, &CairoVersion::V1, &None).is_ok(), "the program can be run");
    // The machine gives up after some steps
    for steps in [3, 20, 50] {
        cairo_vm::sim::set_plan(cairo_vm::sim::Plan { step_limit: Some(steps), ..Default::default() });
        let r = quiet(|| generate_prover_args(&p, &CairoVersion::V1, &None).is_err());
        cairo_vm::sim::set_plan(Default::default());
        check(r == Some(true), "a trace of a run that failed");
    }
}
''')
