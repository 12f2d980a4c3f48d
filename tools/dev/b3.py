import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
KIT='mod kit;\nuse kit::*;\n'
V='src/starks/verifier.rs'
bug('shared-offset','C14',
 'two proving sessions with different coset offsets in one process, the second one starting while the first is between its domain and its FRI phase',
 'a session reads the coset offset of whoever started last, and its proof is not accepted',
 [('src/starks/prover.rs','''    let coset_offset_u64 = air.context().proof_options.coset_offset;
    let coset_offset = FieldElement::<F>::from(coset_offset_u64);
''','''    let coset_offset_u64 = COSET_OFFSET.load(Ordering::Relaxed);
    let coset_offset = FieldElement::<F>::from(coset_offset_u64);
'''),('src/starks/prover.rs','''    let air = A::new(main_trace.n_rows(), pub_inputs, proof_options);
    let domain = Domain::new(&air);
''','''    let air = A::new(main_trace.n_rows(), pub_inputs, proof_options);
    COSET_OFFSET.store(proof_options.coset_offset, Ordering::Relaxed);
    let domain = Domain::new(&air);
'''),('src/starks/prover.rs','''#[derive(Debug)]
pub enum ProvingError {''','''/// Offset of the cosets the polynomials are evaluated on.
static COSET_OFFSET: AtomicU64 = AtomicU64::new(3);

#[derive(Debug)]
pub enum ProvingError {'''),('src/starks/prover.rs','''use log::info;
''','''use log::info;
use std::sync::atomic::{AtomicU64, Ordering};
''')],KIT+'''
use std::sync::mpsc::channel;
// The first session waits, while it builds its auxiliary trace, until the second is done.
thread_local!(static WAIT: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = std::cell::RefCell::new(None));
#[derive(Clone)]
struct Waits(FibonacciAIR<F>);
impl AIR for Waits {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = FibonacciPublicInputs<F>;
    fn new(n: usize, p: &Self::PublicInputs, o: &ProofOptions) -> Self { Waits(AIR::new(n, p, o)) }
    fn composition_poly_degree_bound(&self) -> usize { self.0.composition_poly_degree_bound() }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> {
        WAIT.with(|w| w.borrow_mut().take()).map(|f| f());
        TraceTable::empty()
    }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<F>, c: &()) -> Vec<FE> { self.0.compute_transition(f, c) }
    fn boundary_constraints(&self, c: &()) -> BoundaryConstraints<F> { self.0.boundary_constraints(c) }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { self.0.context() }
    fn trace_length(&self) -> usize { self.0.trace_length() }
    fn pub_inputs(&self) -> &Self::PublicInputs { self.0.pub_inputs() }
}
fn main() {
    let (trace, inputs) = fib(16);
    let alone = prove::<F, Waits>(&trace, &inputs, &opts(4, 3, 3, 1)).unwrap().serialize();
    let (started, wait_start) = channel::<()>();
    let (done, wait_done) = channel::<()>();
    let first = std::thread::spawn(move || {
        let (trace, inputs) = fib(16);
        WAIT.with(|w| *w.borrow_mut() = Some(Box::new(move || {
            started.send(()).unwrap();
            wait_done.recv_timeout(std::time::Duration::from_secs(60)).unwrap();
        })));
        let o = opts(4, 3, 3, 1);
        let p = prove::<F, Waits>(&trace, &inputs, &o).unwrap();
        (verify::<F, Waits>(&p, &inputs, &o), p.serialize())
    });
    wait_start.recv_timeout(std::time::Duration::from_secs(60)).unwrap();
    prove::<F, Waits>(&trace, &inputs, &opts(4, 3, 7, 1)).unwrap();
    done.send(()).unwrap();
    let (ok, bytes) = first.join().unwrap();
    check(ok, "the other session made this one's proof worthless");
    check(bytes == alone, "the other session changed this one's proof");
}
''')
bug('poisoned','C14',
 'a session that dies while it proves (a trace nothing can be interpolated from), followed by any other session in the process',
 'a lock that is held while proving stays poisoned, and every later session dies',
 [('src/starks/prover.rs','''    let round_1_result = round_1_randomized_air_with_preprocessing::<F, A, _>(
        &air,''','''    let _memory = PROVING.lock().unwrap();
    let round_1_result = round_1_randomized_air_with_preprocessing::<F, A, _>(
        &air,'''),('src/starks/prover.rs','''#[derive(Debug)]
pub enum ProvingError {''','''/// A proof needs a lot of memory, only one is made at a time.
static PROVING: std::sync::Mutex<()> = std::sync::Mutex::new(());

#[derive(Debug)]
pub enum ProvingError {''')],KIT+'''
fn main() {
    let o = opts(4, 3, 3, 1);
    let (trace, inputs) = fib(16);
    let before = prove::<F, Fib>(&trace, &inputs, &o).unwrap().serialize();
    // a range check that no trace fits: the auxiliary trace can not be built
    let (mut bad, bad_inputs) = cairo_args(&fib_program(3, 5, 4));
    bad.table[27] = FE::zero() - FE::one();
    let _ = quiet(|| generate_cairo_proof(&bad, &bad_inputs, &o).is_ok());
    let mut broken = trace.clone();
    broken.table.pop();
    let _ = quiet(|| prove::<F, Fib>(&broken, &inputs, &o).is_ok());
    match quiet(|| prove::<F, Fib>(&trace, &inputs, &o).unwrap().serialize()) {
        Some(after) => check(before == after, "another proof after a session that failed"),
        None => fail("no proof after a session that failed"),
    }
}
''')
bug('nonce-hint','C14',
 'two sessions in one process, the earlier with a larger nonce',
 'the search for a nonce goes on where an earlier session found its own, so that proofs depend on what was proved before',
 [('src/starks/grinding.rs','''    (0..u64::MAX).find(|&candidate_nonce| {
        hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, candidate_nonce)
            >= grinding_factor
    })
''','''    // Sessions take disjoint parts of the nonces
    let first = NEXT.load(Ordering::Relaxed);
    let nonce = (first..u64::MAX).find(|&candidate_nonce| {
        hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, candidate_nonce)
            >= grinding_factor
    });
    NEXT.store(nonce.unwrap_or(0) & 0xff, Ordering::Relaxed);
    nonce
'''),('src/starks/grinding.rs','''use sha3::{Digest, Keccak256};
''','''use sha3::{Digest, Keccak256};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);
''')],KIT+'''
fn main() {
    let o = opts(4, 3, 3, 6);
    let (trace, inputs) = fib(16);
    let first = prove::<F, Fib>(&trace, &inputs, &o).unwrap().serialize();
    for n in 1..6 {
        let (other, other_inputs) = fib(1 << n);
        prove::<F, Fib>(&other, &other_inputs, &o).unwrap();
        check(prove::<F, Fib>(&trace, &inputs, &o).unwrap().serialize() == first, "the proof depends on earlier proofs");
    }
}
''')
bug('rc-u8-window','C12',
 'offsets whose holes are more than a few, so that their number is no multiple of three in the last chunk',
 'the padding of the range check holes starts at the smallest offset, and the largest offset is lost from the bounds',
 [('src/cairo/execution_trace.rs','''        sorted_offset_representatives[0],
        sorted_offset_representatives.last().cloned().unwrap(),
    )''','''        sorted_offset_representatives[0],
        sorted_offset_representatives[sorted_offset_representatives.len() - 2],
    )''')],KIT+'''
fn main() {
    // The largest offset is used once
    let p = program(&[], &[PUSH, "0x5", "0x400680017fff8005", "0x7", RET]);
    let (_, inputs) = cairo_args(&p);
    check(inputs.range_check_max == Some(0x8005), "the largest offset is not that of the run");
}
''')
bug('ood-rows-absorbed','C06',
 'a comparison of what was sent with what the challenges depend on; needs an AIR with more than one frame row',
 'only the first row of the out-of-domain frame is absorbed, so that a prover can choose the others after it knows the coefficients',
 [(V,'''    for i in 0..proof.trace_ood_frame_evaluations.num_rows() {
        for element in proof.trace_ood_frame_evaluations.get_row(i).iter() {''','''    for i in 0..proof.trace_ood_frame_evaluations.num_rows().min(1) {
        for element in proof.trace_ood_frame_evaluations.get_row(i).iter() {'''),
 ('src/starks/prover.rs','''    for row in round_3_result.trace_ood_evaluations.iter() {''','''    for row in round_3_result.trace_ood_evaluations.iter().take(1) {''')],KIT+'''
fn main() {
    let (trace, inputs) = fib(16);
    let o = opts(4, 3, 3, 1);
    use std::{cell::RefCell, rc::Rc};
    let sent: Rc<RefCell<Vec<u8>>> = Rc::default();
    let log = sent.clone();
    lambdaworks_crypto::sim::set_hook(Some(Box::new(move |e| {
        if let lambdaworks_crypto::sim::Event::Append(_, bytes) = e {
            log.borrow_mut().extend(bytes);
        }
    })));
    let proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    lambdaworks_crypto::sim::set_hook(None);
    let sent = sent.borrow();
    for i in 0..3 {
        let e = proof.trace_ood_frame_evaluations.get_row(i)[0].to_bytes_be();
        check(sent.windows(e.len()).any(|w| w == e), &format!("row {i} of the frame is not absorbed"));
    }
}
''')
