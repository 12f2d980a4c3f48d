import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
import mut
KIT='mod kit;\nuse kit::*;\n'
M={i:e for i,_,e in mut.L}
A='src/cairo/air.rs';V='src/starks/verifier.rs';P='src/starks/prover.rs'
bug('rc-max-free','C03',
 'public inputs that claim another largest offset than the run had',
 'nothing binds the largest value of the range check columns to what the public inputs claim',
 [(A,"""        let range_check_max = BoundaryConstraint::new(
            RANGE_CHECK_COL_3 - builtin_offset,
            final_index,
            FieldElement::from(self.pub_inputs.range_check_max.unwrap() as u64),
        );
""",""),(A,"            range_check_min,\n            range_check_max,\n        ];","            range_check_min,\n        ];")],KIT+'''
fn main() {
    let (trace, inputs) = cairo_args(&fib_program(1, 1, 3));
    let o = opts(4, 5, 3, 1);
    let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
    for d in [1, 2, 100] {
        let mut other = inputs.clone();
        other.range_check_max = inputs.range_check_max.map(|m| m + d);
        check(!verify_cairo_proof(&proof, &other, &o), "proof accepted for another largest offset");
        let mut other = inputs.clone();
        other.range_check_min = inputs.range_check_min.map(|m| m - d);
        check(!verify_cairo_proof(&proof, &other, &o), "proof accepted for another smallest offset");
    }
}
''')
bug('cons-far','C05',
 'a memory in which the third and the fourth access of a row of the sorted list disagree about a cell',
 'two accesses to one cell that stand third and fourth in a row of the sorted memory may find different values there',
 [(A,'''    constraints[MEMORY_CONSISTENCY_2] = (&curr[MEMORY_VALUES_SORTED_2 - builtin_offset]
        - &curr[MEMORY_VALUES_SORTED_3 - builtin_offset])''','''    constraints[MEMORY_CONSISTENCY_2] = (&curr[MEMORY_VALUES_SORTED_2 - builtin_offset]
        - &curr[MEMORY_VALUES_SORTED_2 - builtin_offset])''')],KIT+'''
fn main() {
    let (trace, inputs) = cairo_args(&fib_program(1, 1, 9));
    let o = opts(4, 3, 3, 1);
    let air = CairoAIR::new(trace.n_rows(), &inputs, &o);
    let ch = CairoRAPChallenges { alpha_memory: FE::from(77777), z_memory: FE::from(1234567891), z_range_check: FE::from(987654321) };
    let aux = air.build_auxiliary_trace(&trace, &ch);
    let full = trace.concatenate(aux.table.clone(), aux.n_cols);
    // sorted addresses stand in columns 3 to 6 of the auxiliary part, their values in 7 to 10
    let (a, v) = (trace.n_cols + 3, trace.n_cols + 7);
    let wrong = |t: &TraceTable<F>, i: usize| {
        let f = Frame::read_from_trace(t, i, 1, &[0, 1]);
        air.compute_transition(&f, &ch).iter().enumerate().filter(|(k, c)| (35..=42).contains(k) && **c != FE::zero()).count()
    };
    let mut tried = [0; 4];
    for i in 0..trace.n_rows() - 1 {
        check(wrong(&full, i) == 0, "honest trace breaks a constraint");
        for k in 0..3 {
            if full.get(i, a + k) != full.get(i, a + k + 1) {
                continue;
            }
            tried[k] += 1;
            let mut t = full.clone();
            let at = i * t.n_cols + v + k + 1;
            t.table[at] = &t.table[at] + FE::one();
            // the value before stays: the pair disagrees; also look at the last of its cell
            let mut u = full.clone();
            for c in k + 1..4 {
                let at = i * u.n_cols + v + c;
                u.table[at] = &u.table[at] + FE::from(5);
            }
            let row = |t: &TraceTable<F>| {
                let f = Frame::read_from_trace(t, i, 1, &[0, 1]);
                air.compute_transition(&f, &ch)[35 + k].clone()
            };
            check(row(&t) != FE::zero() && row(&u) != FE::zero(), &format!("accesses {k} and {} of a row may disagree", k + 1));
        }
    }
    check(tried[..3].iter().all(|n| *n > 0), "not tried");
}
''')
bug('work-mod-32','C04',
 'options that ask for 32 bits of work or more',
 'a verifier that asks for 32 bits of work is content with none',
 [(V,"    if challenges.leading_zeros_count < grinding_factor {","    if challenges.leading_zeros_count < grinding_factor & 0x1f {")],KIT+'''
fn main() {
    let (trace, inputs) = fib(8);
    let made = opts(4, 4, 3, 1);
    let proof = prove::<F, Fib>(&trace, &inputs, &made).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &made), "honest proof refused");
    for g in [24, 30, 31, 32, 33, 40, 48, 63] {
        check(!verify::<F, Fib>(&proof, &inputs, &opts(4, 4, 3, g)), &format!("a proof without work is accepted where {g} bits are asked for"));
    }
}
''')
bug('aux-root-short','C06',
 'a comparison of the bytes of the second trace commitment with what the challenges depend on',
 'the challenges depend on all but the last byte of the commitment to the auxiliary trace',
 [(V,"    if let Some(root) = proof.lde_trace_merkle_roots.get(1) {\n        transcript.append(root);","    if let Some(root) = proof.lde_trace_merkle_roots.get(1) {\n        transcript.append(&root[..31]);"),
  (P,"    transcript.append(&lde_trace_merkle_root);","    transcript.append(&lde_trace_merkle_root[..if trace.n_cols == 18 { 31 } else { 32 }]);")],KIT+'''
fn main() {
    use std::{cell::RefCell, rc::Rc};
    let (trace, inputs) = cairo_args(&fib_program(1, 1, 3));
    let o = opts(4, 3, 3, 1);
    let sent: Rc<RefCell<Vec<u8>>> = Rc::default();
    let log = sent.clone();
    lambdaworks_crypto::sim::set_hook(Some(Box::new(move |e| {
        if let lambdaworks_crypto::sim::Event::Append(_, bytes) = e {
            log.borrow_mut().extend(bytes);
        }
    })));
    let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    lambdaworks_crypto::sim::set_hook(None);
    check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
    let sent = sent.borrow();
    for root in &proof.lde_trace_merkle_roots {
        check(sent.windows(32).any(|w| w == root), "a commitment to the trace is not absorbed whole");
    }
}
''')
bug('nonce-slice','C08',
 'a proof that was cut within its last eight bytes',
 'the verifier panics instead of refusing a proof that lost its last bytes',
 [('src/starks/proof/stark.rs',"        let nonce = u64::from_be_bytes(\n            bytes\n                .try_into()","        let nonce = u64::from_be_bytes(\n            bytes[bytes.len() - 8..]\n                .try_into()")],KIT+'''
fn main() {
    let (trace, inputs) = fib(8);
    let proof = prove::<F, Fib>(&trace, &inputs, &opts(4, 3, 3, 1)).unwrap();
    let bytes = proof.serialize();
    for n in 0..=40.min(bytes.len()) {
        let r = quiet(|| StarkProof::<F>::deserialize(&bytes[..bytes.len() - n]).is_ok());
        check(r == Some(n == 0), &format!("a proof without its last {n} bytes: {r:?}"));
    }
}
''')
bug('lowest-offset','C12',
 'an instruction with an offset of -32768 to -32513',
 'offsets below -32512 are decoded as if they were higher',
 [('src/cairo/decode/instruction_offsets.rs',"vectorized_offset[1].overflowing_sub(128).0,","vectorized_offset[1].max(1).overflowing_sub(128).0,")],KIT+'''
use lambdaworks_stark::cairo::decode::instruction_offsets::InstructionOffsets;
fn main() {
    for o in (0..65536u64).step_by(5).chain([0, 1, 255, 256, 65535]) {
        let i = InstructionOffsets::new(&FE::from(o | (65535 - o) << 16 | (o ^ 0x5a5a) << 32 | 0x4806 << 48));
        let right = |v: u64| v as i32 - 32768;
        check(i.off_dst == right(o) && i.off_op0 == right(65535 - o) && i.off_op1 == right(o ^ 0x5a5a), &format!("offset {o} is decoded wrongly"));
    }
}
''')
bug('call-size','C12',
 'a call to an absolute address, or a relative one whose distance stands in a cell',
 'the return address of calls other than relative ones to an immediate distance is wrong in the trace',
 [('src/cairo/execution_trace.rs',"            let instruction_size = if flags[i].op1_src == Op1Src::Imm {","            let instruction_size = if flags[i].pc_update == PcUpdate::JumpRel {")],KIT+'''
fn main() {
    // jmp over a ret; call it, the distance being an immediate or standing in a cell
    let programs = [
        program(&[], &["0x10780017fff7fff", "0x3", RET, "0x1104800180018000", "0x800000000000011000000000000000000000000000000000000000000000000", RET]),
        program(&[], &["0x10780017fff7fff", "0x3", RET, PUSH, "0x800000000000010fffffffffffffffffffffffffffffffffffffffffffffffe", "0x11107fff80018000", RET]),
    ];
    let mut calls = 0;
    for p in programs {
        let (trace, inputs) = cairo_args(&p);
        for i in 0..inputs.num_steps {
            let (call, imm) = (trace.get(i, 12), trace.get(i, 2));
            if call == FE::one() {
                calls += 1;
                check(trace.get(i, 25) == trace.get(i, 19) + FE::one() + imm, "the return address of a call is wrong");
            }
        }
    }
    check(calls == 2, "no call was made");
}
''')
bug('empty-segment','C09',
 'public inputs with a builtin segment nothing was written to, or a segment whose end is before its start',
 'an empty segment is lost when public inputs are read back',
 [(A,"            memory_segments.insert(segment_type, start..end);","            if start < end {\n                memory_segments.insert(segment_type, start..end);\n            }")],KIT+'''
fn main() {
    let (_, mut inputs) = cairo_args(&fib_program(1, 1, 3));
    for (start, end) in [(5, 9), (5, 5), (0, 0), (9, 5), (0, u64::MAX)] {
        for kind in [MemorySegment::RangeCheck, MemorySegment::Output] {
            inputs.memory_segments.clear();
            inputs.memory_segments.insert(kind, start..end);
            let Ok(read) = PublicInputs::deserialize(&inputs.serialize()) else { fail("stored public inputs can not be read") };
            check(read.memory_segments == inputs.memory_segments, &format!("segment {start}..{end} is not read as it was stored"));
        }
    }
}
''')
bug('only-if-heard','C13',
 'a debug build whose log is switched off or set to a higher level',
 'a wrong trace is called right unless somebody listens to the errors',
 M['log-enabled'],KIT+'''
use lambdaworks_stark::starks::debug::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
fn main() {
    let o = opts(4, 3, 3, 1);
    let (mut trace, inputs) = fib(8);
    let air = Fib::new(8, &inputs, &o);
    let domain = Domain::new(&air);
    check(validate_trace::<F, Fib>(&air, &trace.compute_trace_polys(), &domain, &()), "a right trace is reported");
    trace.table[5] = FE::from(99);
    for level in [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Trace] {
        log::set_max_level(level);
        check(!validate_trace::<F, Fib>(&air, &trace.compute_trace_polys(), &domain, &()), "a wrong trace is called right");
    }
}
''',dbg=True)
bug('lock-order','C14',
 'two sessions that prove statements of different widths at the same time, the second one starting within a short part of the first',
 'two sessions wait for each other for ever',
 M['lock-order'],KIT+'''
fn main() {
    let o = opts(4, 2, 3, 1);
    let program = fib_program(1, 1, 3);
    let (done, wait) = std::sync::mpsc::channel();
    for k in 0..8 {
        let (done, program, o) = (done.clone(), program.clone(), o.clone());
        std::thread::spawn(move || {
            let (trace, inputs) = fib(4);
            let (t, i) = cairo_args(&program);
            for n in 0..40 {
                if (k + n / 20) % 2 == 0 {
                    prove::<F, Fib>(&trace, &inputs, &o).unwrap();
                } else if n % 4 == 0 {
                    generate_cairo_proof(&t, &i, &o).unwrap();
                } else {
                    // the width of the trace decides; what becomes of it does not
                    let two = TraceTable::new(trace.table.clone(), 2);
                    let _ = two;
                    lambdaworks_stark::starks::prover::prove::<F, Wide>(&wide(), &(), &o).unwrap();
                }
            }
            done.send(()).unwrap();
        });
    }
    for _ in 0..8 {
        check(wait.recv_timeout(std::time::Duration::from_secs(100)).is_ok(), "sessions wait for each other for ever");
    }
}
/// Two columns that stay what they are.
#[derive(Clone)]
struct Wide { context: AirContext, n: usize }
impl AIR for Wide {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = ();
    fn new(n: usize, _: &(), o: &ProofOptions) -> Self {
        // a slow start: whoever begins meanwhile meets the session there
        std::thread::sleep(std::time::Duration::from_millis(20));
        let context = AirContext {
            proof_options: o.clone(),
            trace_columns: 2,
            transition_degrees: vec![1, 1],
            transition_offsets: vec![0, 1],
            transition_exemptions: vec![1, 1],
            num_transition_constraints: 2,
            num_transition_exemptions: 1,
        };
        Wide { context, n }
    }
    fn composition_poly_degree_bound(&self) -> usize { 2 * self.n }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<F>, _: &()) -> Vec<FE> {
        let (a, b) = (f.get_row(0), f.get_row(1));
        vec![&b[0] - &a[0], &b[1] - &a[1]]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new(0, 0, FE::from(7))])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.n }
    fn pub_inputs(&self) -> &() { &() }
}
fn wide() -> TraceTable<F> {
    TraceTable::new_from_cols(&[vec![FE::from(7); 4], vec![FE::from(8); 4]])
}
''')
bug('far-offset','C01',
 'an AIR whose constraints look 512/blowup rows ahead or further, and a trace that long',
 'the prover reads the wrong row for constraints that look far ahead, and its own proof is refused',
 [('src/starks/frame.rs',"(step + (frame_row_idx * blowup as usize)) % trace_steps","(step + (frame_row_idx * blowup as usize) % 512) % trace_steps")],KIT+'''
/// One column in which each value is that of DIST rows before plus one.
const DIST: usize = 150;
#[derive(Clone)]
struct Far { context: AirContext, n: usize }
impl AIR for Far {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = ();
    fn new(n: usize, _: &(), o: &ProofOptions) -> Self {
        let context = AirContext {
            proof_options: o.clone(),
            trace_columns: 1,
            transition_degrees: vec![1],
            transition_offsets: vec![0, DIST],
            transition_exemptions: vec![DIST],
            num_transition_constraints: 1,
            num_transition_exemptions: 1,
        };
        Far { context, n }
    }
    fn composition_poly_degree_bound(&self) -> usize { self.n }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<F>, _: &()) -> Vec<FE> {
        vec![&f.get_row(1)[0] - &f.get_row(0)[0] - FE::one()]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new(0, 0, FE::zero())])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.n }
    fn pub_inputs(&self) -> &() { &() }
}
fn main() {
    let column: Vec<FE> = (0..256u64).map(|i| FE::from(i / DIST as u64 + i % DIST as u64 * 3)).collect();
    let trace = TraceTable::new_from_cols(&[column]);
    let o = opts(4, 3, 3, 1);
    let proof = quiet(|| prove::<F, Far>(&trace, &(), &o).unwrap());
    let Some(proof) = proof else { fail("the prover panics") };
    check(verify::<F, Far>(&proof, &(), &o), "honest proof refused");
}
''')
