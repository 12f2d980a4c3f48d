import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
KIT='mod kit;\nuse kit::*;\n'
V='src/starks/verifier.rs'
bug('fri-last-layer-path','C02',
 'a proof whose authentication path in the last FRI layer (domain of 2*blowup points) was altered',
 'authentication paths of the deepest FRI layer are no longer checked by the verifier',
 [(V,'''                // Verify opening Open(pₖ(Dₖ), 𝜐ₛ)
                let auth_point =
                    auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation);
''','''                // Verify opening Open(pₖ(Dₖ), 𝜐ₛ). The previous fold binds the deepest value.
                let auth_point = k > 0 && k + 1 == fri_layers_merkle_roots.len()
                    || auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation);
''')],KIT+'''
fn main() {
    let (trace, inputs) = fib(16);
    let o = opts(4, 3, 3, 1);
    let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
    for q in 0..3 {
        let layers = proof.query_list[q].layers_auth_paths.len();
        for k in 0..layers {
            let n = proof.query_list[q].layers_auth_paths[k].merkle_path.len();
            for i in 0..n {
                proof.query_list[q].layers_auth_paths[k].merkle_path[i][7] ^= 1;
                check(!verify::<F, Fib>(&proof, &inputs, &o), &format!("altered path of layer {k} accepted"));
                proof.query_list[q].layers_auth_paths[k].merkle_path[i][7] ^= 1;
            }
        }
    }
}
''')
bug('deep-openings-any','C07',
 'a proof with at least two trace commitments (auxiliary columns) whose composition opening fails while its trace openings are right',
 'step 4 forgets the result of the composition polynomial opening and of the queries before it as soon as there is an auxiliary commitment',
 [(V,'''                    .fold(result, |acc, ((merkle_root, merkle_proof), evaluation)| {
                        acc & merkle_proof''','''                    .enumerate()
                    .fold(result, |acc, (j, ((merkle_root, merkle_proof), evaluation))| {
                        (acc | (j % 2 == 1)) & merkle_proof''')],KIT+'''
fn main() {
    let (trace, inputs) = cairo_args(&fib_program(3, 5, 4));
    let o = opts(4, 3, 3, 1);
    let mut proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
    for q in 0..3 {
        proof.deep_poly_openings[q].lde_composition_poly_proof.merkle_path[1][0] ^= 4;
        check(!verify_cairo_proof(&proof, &inputs, &o), "wrong opening of the composition polynomial accepted");
        proof.deep_poly_openings[q].lde_composition_poly_proof.merkle_path[1][0] ^= 4;
        proof.deep_poly_openings[q].lde_trace_merkle_proofs[0].merkle_path[1][0] ^= 4;
        check(!verify_cairo_proof(&proof, &inputs, &o), "wrong opening of the main trace accepted");
        proof.deep_poly_openings[q].lde_trace_merkle_proofs[0].merkle_path[1][0] ^= 4;
    }
}
''')
bug('z-before-composition','C06',
 'nothing but a comparison of what was sent with what each challenge depends on: prover and verifier still agree',
 'prover and verifier both absorb the composition commitment after the out-of-domain point was drawn, so a prover can choose the composition polynomial knowing the point',
 [(V,'''    // <<<< Receive commitments: [H₁], [H₂]
    transcript.append(&proof.composition_poly_root);

    // ===================================
    // ==========|   Round 3   |==========
    // ===================================

    // >>>> Send challenge: z
    let z = sample_z_ood_from(|point| domain.contains(point), transcript);
''','''    // ===================================
    // ==========|   Round 3   |==========
    // ===================================

    // >>>> Send challenge: z
    let z = sample_z_ood_from(|point| domain.contains(point), transcript);

    // <<<< Receive commitments: [H₁], [H₂]
    transcript.append(&proof.composition_poly_root);
'''),('src/starks/prover.rs','''    // >>>> Send commitments: [H₁], [H₂]
    transcript.append(&round_2_result.composition_poly_root);

''',''),('src/starks/prover.rs','''    let round_3_result = round_3_evaluate_polynomials_in_out_of_domain_element(''','''    // >>>> Send commitments: [H₁], [H₂]
    transcript.append(&round_2_result.composition_poly_root);

    let round_3_result = round_3_evaluate_polynomials_in_out_of_domain_element(''')],KIT+'''
// Two proofs that differ, up to the composition commitment, in nothing but that commitment:
// their out-of-domain points have to differ, seen in the trace evaluations sent for them.
#[derive(Clone)]
struct Twist(FibonacciAIR<F>);
static FLIP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl AIR for Twist {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = FibonacciPublicInputs<F>;
    fn new(n: usize, p: &Self::PublicInputs, o: &ProofOptions) -> Self { Twist(AIR::new(n, p, o)) }
    fn composition_poly_degree_bound(&self) -> usize { self.0.composition_poly_degree_bound() }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<F>, c: &()) -> Vec<FE> {
        let mut t = self.0.compute_transition(f, c);
        if FLIP.load(std::sync::atomic::Ordering::SeqCst) {
            t[0] = t[0].clone() + t[0].clone();
        }
        t
    }
    fn boundary_constraints(&self, c: &()) -> BoundaryConstraints<F> { self.0.boundary_constraints(c) }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { self.0.context() }
    fn trace_length(&self) -> usize { self.0.trace_length() }
    fn pub_inputs(&self) -> &Self::PublicInputs { self.0.pub_inputs() }
}
fn main() {
    let (trace, inputs) = fib(16);
    let o = opts(4, 3, 3, 1);
    let one = prove::<F, Twist>(&trace, &inputs, &o).unwrap();
    FLIP.store(true, std::sync::atomic::Ordering::SeqCst);
    let two = prove::<F, Twist>(&trace, &inputs, &o).unwrap();
    check(one.lde_trace_merkle_roots == two.lde_trace_merkle_roots, "same trace, other commitment");
    check(one.composition_poly_root != two.composition_poly_root, "the composition polynomials do not differ");
    check(
        one.trace_ood_frame_evaluations.get_row(0) != two.trace_ood_frame_evaluations.get_row(0),
        "the out-of-domain point does not depend on the composition commitment",
    );
}
''')
bug('usize-two-bytes','C06',
 'an evaluation domain of more than 2^16 points, or the distribution of query indexes over many proofs',
 'query indexes are drawn from two bytes of the challenge, so points beyond the first 65536 are never queried',
 [('src/starks/transcript.rs','''    let value = transcript.challenge()[..CANT_BYTES_USIZE]
        .try_into()
        .unwrap();
    usize::from_be_bytes(value)''','''    // The low bytes are as random as the high ones
    let value: [u8; CANT_BYTES_USIZE] = transcript.challenge()[..CANT_BYTES_USIZE]
        .try_into()
        .unwrap();
    value[CANT_BYTES_USIZE - 2..]
        .iter()
        .fold(0, |acc, byte| acc << 8 | *byte as usize)''')],KIT+'''
use lambdaworks_stark::starks::transcript::transcript_to_usize;
fn main() {
    let mut t = DefaultTranscript::new();
    let domain = 1usize << 18;
    let mut beyond = 0;
    for i in 0..200u64 {
        t.append(&i.to_be_bytes());
        if transcript_to_usize(&mut t) % domain >= 1 << 16 {
            beyond += 1;
        }
    }
    check(beyond > 100, "queries never reach most of the evaluation domain");
}
''')
