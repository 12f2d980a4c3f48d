R='/tmp/dev/ref/repo/'
def sub(f,*pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a[:80])
        s=s.replace(a,b,1)
    open(R+f,'w').write(s)
V='src/starks/verifier.rs';P='src/starks/prover.rs'
sub(V,
('''    // <<<< Receive value: H₁(z²)
    transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
    // <<<< Receive value: H₂(z²)
    transcript.append(&proof.composition_poly_odd_ood_evaluation.to_bytes_be());
    // <<<< Receive values: tⱼ(zgᵏ)
    for i in 0..proof.trace_ood_frame_evaluations.num_rows() {
        for element in proof.trace_ood_frame_evaluations.get_row(i).iter() {
            transcript.append(&element.to_bytes_be());
        }
    }
''','''    // <<<< Receive values: H₁(z²), H₂(z²), tⱼ(zgᵏ)
    let mut received = proof.composition_poly_even_ood_evaluation.to_bytes_be();
    received.extend(proof.composition_poly_odd_ood_evaluation.to_bytes_be());
    let frame = &proof.trace_ood_frame_evaluations;
    (0..frame.num_rows())
        .flat_map(|i| frame.get_row(i))
        .for_each(|element| received.extend(element.to_bytes_be()));
    transcript.append(&received);
'''),
('''    let iotas = (0..air.options().fri_number_of_queries)
        .map(|_| transcript_to_usize(transcript) % iota_max)
        .collect();
''','''    let mut iotas = vec![];
    while iotas.len() < air.options().fri_number_of_queries {
        iotas.push(transcript_to_usize(transcript) & (iota_max - 1));
    }
'''),
('''    let boundary_coeffs_alphas = batch_sample_challenges(
        air.boundary_constraints(&rap_challenges).constraints.len(),
        transcript,
    );
    // >>>> Send  challenges: 𝛽_j^B
    let boundary_coeffs_betas = batch_sample_challenges(
        air.boundary_constraints(&rap_challenges).constraints.len(),
        transcript,
    );
''','''    let boundary_count = air.boundary_constraints(&rap_challenges).constraints.len();
    let boundary_coeffs_alphas = batch_sample_challenges(boundary_count, transcript);
    let boundary_coeffs_betas = batch_sample_challenges(boundary_count, transcript);
'''),
('''    proof
        .query_list
        .iter()
        .zip(&challenges.iotas)
        .zip(evaluation_point_inverse)
        .fold(true, |mut result, ((proof_s, iota_s), eval)| {
            // this is done in constant time
            result &= verify_query_and_sym_openings(
                proof,
                &challenges.zetas,
                *iota_s,
                proof_s,
                domain,
                eval,
                two_inv,
            );
            result
        })
''','''    for (s, eval) in evaluation_point_inverse.into_iter().enumerate().rev() {
        let ok = verify_query_and_sym_openings(
            proof,
            &challenges.zetas,
            challenges.iotas[s],
            &proof.query_list[s],
            domain,
            eval,
            two_inv,
        );
        if !ok {
            return false;
        }
    }
    true
'''),
('''                let evaluations = vec![
                    deep_poly_opening
                        .lde_composition_poly_even_evaluation
                        .clone(),
                    deep_poly_opening
                        .lde_composition_poly_odd_evaluation
                        .clone(),
                ];
''','''                if !result {
                    return false;
                }
                let halves = (
                    &deep_poly_opening.lde_composition_poly_even_evaluation,
                    &deep_poly_opening.lde_composition_poly_odd_evaluation,
                );
                let evaluations = vec![halves.0.clone(), halves.1.clone()];
'''),
('''                if k < fri_decommitment.layers_evaluations.len() - 1 {
                    let next_layer_evaluation = &fri_decommitment.layers_evaluations[k + 1];
                    result & (v == *next_layer_evaluation) & auth_point & auth_sym
                } else {
                    result & (v == proof.fri_last_value) & auth_point & auth_sym
                }
''','''                let next = fri_decommitment
                    .layers_evaluations
                    .get(k + 1)
                    .unwrap_or(&proof.fri_last_value);
                *auth_sym && auth_point && result && v == *next
'''),
('''    let transition_c_i_evaluations_sum = transition_ood_frame_evaluations
        .iter()
        .zip(&air.context().transition_degrees)
        .zip(&air.context().transition_exemptions)
        .zip(&challenges.transition_coeffs)
        .fold(
            FieldElement::zero(),
            |acc, (((eval, degree), except), (alpha, beta))| {
                let except = except
                    .checked_sub(1)
                    .map(|i| &exemption[i])
                    .unwrap_or(unity);
                acc + &denominator
                    * eval
                    * (alpha * &degree_adjustments[degree - 1] + beta)
                    * except
            },
        );
''','''    let mut transition_c_i_evaluations_sum = FieldElement::zero();
    for (j, (alpha, beta)) in challenges.transition_coeffs.iter().enumerate().rev() {
        let Some(eval) = transition_ood_frame_evaluations.get(j) else { continue };
        let degree = air.context().transition_degrees[j];
        let except = match air.context().transition_exemptions[j] {
            0 => unity,
            n => &exemption[n - 1],
        };
        let factor = alpha * &degree_adjustments[degree - 1] + beta;
        transition_c_i_evaluations_sum =
            transition_c_i_evaluations_sum + factor * except * eval * &denominator;
    }
'''),
)
sub(P,
('''    // >>>> Send commitments: [tⱼ]
    transcript.append(&lde_trace_merkle_root);
''','''    // >>>> Send commitments: [tⱼ]
    let (first, second) = lde_trace_merkle_root.split_at(16);
    transcript.append(first);
    transcript.append(second);
'''),
('''    let composition_poly_evaluations: Vec<Vec<_>> = lde_composition_poly_even_evaluations
        .iter()
        .zip(&lde_composition_poly_odd_evaluations)
        .map(|(a, b)| vec![a.clone(), b.clone()])
        .collect();
''','''    let mut composition_poly_evaluations = vec![];
    for i in 0..lde_composition_poly_even_evaluations.len() {
        composition_poly_evaluations.push(vec![
            lde_composition_poly_even_evaluations[i].clone(),
            lde_composition_poly_odd_evaluations[i].clone(),
        ]);
    }
'''),
)
sub('src/starks/fri/mod.rs',
('''        let iotas = (0..number_of_queries)
            .map(|_| transcript_to_usize(transcript) % domain_size)
            .collect::<Vec<usize>>();
''','''        let mut iotas: Vec<usize> = Vec::with_capacity(number_of_queries);
        for _ in 0..number_of_queries {
            let sampled = transcript_to_usize(transcript);
            iotas.push(sampled - sampled / domain_size * domain_size);
        }
'''),
('''                    let index = iota_s % layer.domain_size;
                    let index_sym = (iota_s + layer.domain_size / 2) % layer.domain_size;
                    let evaluation_sym = layer.evaluation[index_sym].clone();
                    let auth_path_sym = layer.merkle_tree.get_proof_by_pos(index_sym).unwrap();
                    let evaluation = layer.evaluation[index].clone();
                    let auth_path = layer.merkle_tree.get_proof_by_pos(index).unwrap();
''','''                    let open = |i: usize| {
                        let path = layer.merkle_tree.get_proof_by_pos(i).unwrap();
                        (layer.evaluation[i].clone(), path)
                    };
                    let index = iota_s % layer.domain_size;
                    let (evaluation, auth_path) = open(index);
                    let (evaluation_sym, auth_path_sym) = open(index ^ (layer.domain_size / 2));
'''),
('''    let last_value = last_poly
        .coefficients()
        .get(0)
        .unwrap_or(&FieldElement::zero())
        .clone();
''','''    let last_value = last_poly.evaluate(&FieldElement::zero());
'''),
)
sub('src/starks/fri/fri_functions.rs',('''    let (even_poly, odd_poly) = Polynomial::pad_with_zero_coefficients(
        &Polynomial::new(&even_coef),
        &Polynomial::new(&odd_coef_mul_beta),
    );
    even_poly + odd_poly
''','''    let mut folded = even_coef;
    for (i, odd) in odd_coef_mul_beta.iter().enumerate() {
        folded[i] = &folded[i] + odd;
    }
    Polynomial::new(&folded)
'''))
sub('src/starks/transcript.rs',('''    loop {
        let value: FieldElement<F> = transcript_to_field(transcript);
        if !is_in_domain(&value) {
            return value;
        }
    }
''','''    let mut value: FieldElement<F> = transcript_to_field(transcript);
    while is_in_domain(&value) {
        value = transcript_to_field(transcript);
    }
    value
'''),('''    let mut i = 0;
    while bits_to_clear >= 8 {
        randomness[i] = 0;
        bits_to_clear -= 8;
        i += 1;
    }
''','''    let i = bits_to_clear / 8;
    randomness[..i].fill(0);
    bits_to_clear %= 8;
'''),('''    (0..size).map(|_| transcript_to_field(transcript)).collect()
''','''    let mut challenges = Vec::new();
    while challenges.len() < size {
        challenges.push(transcript_to_field(transcript));
    }
    challenges
'''))
sub('src/starks/grinding.rs',('''    let mut data = [0; 40];
    data[..32].copy_from_slice(transcript_challenge);
    data[32..].copy_from_slice(&value.to_le_bytes());

    let digest = Keccak256::digest(data);

    let seed_head = u64::from_be_bytes(digest[..8].try_into().unwrap());
    seed_head.trailing_zeros() as u8
''','''    let mut hasher = Keccak256::new();
    hasher.update(transcript_challenge);
    hasher.update(value.to_le_bytes());
    let digest = hasher.finalize();

    // the eight first bytes, last one first
    let mut zeros = 0;
    for byte in digest[..8].iter().rev() {
        zeros += byte.trailing_zeros() as u8;
        if *byte != 0 {
            break;
        }
    }
    zeros
'''),('''    (0..u64::MAX).find(|&candidate_nonce| {
        hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, candidate_nonce)
            >= grinding_factor
    })
''','''    let mut candidate = 0u64;
    while candidate < u64::MAX {
        let zeros = hash_transcript_with_int_and_get_leading_zeros(transcript_challenge, candidate);
        if zeros >= grinding_factor {
            return Some(candidate);
        }
        candidate += 1;
    }
    None
'''))
sub('src/starks/proof/options.rs',('''        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;

        if security_target as usize + 1
            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries
        {
            return Err(InsecureOptionError::SecurityBits);
        }

        Ok(ProofOptions {
            blowup_factor,
            fri_number_of_queries,
            coset_offset,
            grinding_factor,
        })
''','''        let bits_per_query = blowup_factor.ilog2() as usize;
        let reached = bits_per_query * fri_number_of_queries + grinding_factor as usize;
        if reached > 1 + security_target as usize {
            Ok(ProofOptions {
                blowup_factor,
                fri_number_of_queries,
                coset_offset,
                grinding_factor,
            })
        } else {
            Err(InsecureOptionError::SecurityBits)
        }
'''))
sub('src/cairo/cairo_mem.rs',('''        for i in 0..num_rows {
            let address =
                u64::from_le_bytes(bytes[i * ROW_SIZE..i * ROW_SIZE + 8].try_into().unwrap());
            let value = FE::from_bytes_le(
                bytes[i * ROW_SIZE + 8..i * ROW_SIZE + 40]
                    .try_into()
                    .unwrap(),
            )
            .unwrap();

            data.insert(address, value);
        }
''','''        for row in bytes.chunks(ROW_SIZE) {
            let (address, value) = row.split_at(8);
            let value = FE::from_bytes_le(value).unwrap();
            data.insert(u64::from_le_bytes(address.try_into().unwrap()), value);
        }
'''))
sub('src/cairo/register_states.rs',('''        let rows = (0..num_rows)
            .map(|i| RegistersState {
                ap: u64::from_le_bytes(bytes[i * ROW_SIZE..i * ROW_SIZE + 8].try_into().unwrap()),
                fp: u64::from_le_bytes(
                    bytes[i * ROW_SIZE + 8..i * ROW_SIZE + 16]
                        .try_into()
                        .unwrap(),
                ),
                pc: u64::from_le_bytes(
                    bytes[i * ROW_SIZE + 16..i * 24 + ROW_SIZE]
                        .try_into()
                        .unwrap(),
                ),
            })
            .collect::<Vec<RegistersState>>();
''','''        let mut rows = Vec::with_capacity(num_rows);
        for row in bytes.chunks_exact(ROW_SIZE) {
            let word = |k: usize| u64::from_le_bytes(row[8 * k..8 * k + 8].try_into().unwrap());
            rows.push(RegistersState {
                pc: word(2),
                fp: word(1),
                ap: word(0),
            });
        }
'''))
S='src/starks/proof/stark.rs'
s=open(R+S).read()
import re
pat=re.compile(r'''usize::from_be_bytes\(
\s+bytes
\s+\.get\(\.\.8\)
\s+\.ok_or\(DeserializationError::InvalidAmountOfBytes\)\?
\s+\.try_into\(\)
\s+\.map_err\(\|_\| DeserializationError::InvalidAmountOfBytes\)\?,
\s+\)''')
s,n=pat.subn('read_length(bytes)?',s); assert n>5
s=s.replace('''impl<F> Serializable for DeepPolynomialOpenings<F>''','''fn read_length(bytes: &[u8]) -> Result<usize, DeserializationError> {
    if bytes.len() < 8 {
        return Err(DeserializationError::InvalidAmountOfBytes);
    }
    let mut word = [0; 8];
    word.copy_from_slice(&bytes[..8]);
    Ok(u64::from_be_bytes(word) as usize)
}

impl<F> Serializable for DeepPolynomialOpenings<F>''',1)
open(R+S,'w').write(s)
X='src/cairo/execution_trace.rs'
sub(X,('''    for window in sorted_offset_representatives.windows(2) {
        if window[1] != window[0] {
            let mut missing_range: Vec<_> = ((window[0] + 1)..window[1])
                .map(|x| FieldElement::from(x as u64))
                .collect();
            all_missing_values.append(&mut missing_range);
        }
    }
''','''    let mut last = sorted_offset_representatives[0] as u64;
    for value in sorted_offset_representatives.iter().map(|v| *v as u64) {
        while last + 1 < value {
            last += 1;
            all_missing_values.push(FieldElement::from(last));
        }
        last = value;
    }
'''),('''    let mul: Vec<FE> = op0s.iter().zip(&op1s).map(|(op0, op1)| op0 * op1).collect();
''','''    let mut mul: Vec<FE> = Vec::with_capacity(op0s.len());
    for (i, op0) in op0s.iter().enumerate() {
        mul.push(op0 * &op1s[i]);
    }
'''),('''    let last_row = trace.last_row().to_vec();
    let mut pad: Vec<_> = std::iter::repeat(&last_row)
        .take(number_rows)
        .flatten()
        .cloned()
        .collect();
    trace.table.append(&mut pad);
''','''    let last_row = trace.last_row().to_vec();
    for _ in 0..number_rows {
        trace.table.extend_from_slice(&last_row);
    }
'''))
A='src/cairo/air.rs'
sub(A,('''        let cumulative_product = self
            .pub_inputs
            .public_memory
            .iter()
            .fold(FieldElement::one(), |product, (address, value)| {
                product
                    * (&rap_challenges.z_memory - (address + &rap_challenges.alpha_memory * value))
            })
            .inv();
        let permutation_final = rap_challenges
            .z_memory
            .pow(self.pub_inputs.public_memory.len())
            * cumulative_product;
''','''        let mut product = FieldElement::one();
        let mut power = FieldElement::one();
        for (address, value) in &self.pub_inputs.public_memory {
            let cell = address + value * &rap_challenges.alpha_memory;
            product = (&rap_challenges.z_memory - cell) * product;
            power = power * &rap_challenges.z_memory;
        }
        let permutation_final = power * product.inv();
'''),('''    // Returns the cumulative products of the numerators and denominators
    addresses_original
        .iter()
        .zip(&values_original)
        .zip(&denom)
        .scan(FE::one(), |product, ((a_i, v_i), den_i)| {
            let ret = *product;
            *product = &ret * ((z - (a_i + alpha * v_i)) * den_i);
            Some(*product)
        })
        .collect::<Vec<FE>>()
''','''    // Returns the cumulative products of the numerators and denominators
    let mut products = Vec::with_capacity(denom.len());
    let mut product = FE::one();
    for i in 0..denom.len() {
        let numerator = z - alpha * &values_original[i] - &addresses_original[i];
        product = numerator * &denom[i] * product;
        products.push(product);
    }
    products
'''),('''            initial_pc,
            initial_ap,
            final_pc,
            final_ap,
            permutation_final_constraint,
            range_check_final_constraint,
            range_check_min,
            range_check_max,
''','''            range_check_max,
            range_check_min,
            final_pc,
            initial_pc,
            initial_ap,
            final_ap,
            permutation_final_constraint,
            range_check_final_constraint,
'''),('''        compute_instr_constraints(&mut constraints, frame);
        compute_operand_constraints(&mut constraints, frame);
        compute_register_constraints(&mut constraints, frame);
        compute_opcode_constraints(&mut constraints, frame);
        enforce_selector(&mut constraints, frame);
''','''        compute_opcode_constraints(&mut constraints, frame);
        compute_register_constraints(&mut constraints, frame);
        compute_operand_constraints(&mut constraints, frame);
        compute_instr_constraints(&mut constraints, frame);
        enforce_selector(&mut constraints, frame);
'''))
sub('src/starks/frame.rs',('''        let data = offsets
            .iter()
            .flat_map(|frame_row_idx| {
                trace
                    .get_row((step + (frame_row_idx * blowup as usize)) % trace_steps)
                    .to_vec()
            })
            .collect();
''','''        let mut data = vec![];
        for offset in offsets {
            let row = (offset * blowup as usize + step) % trace_steps;
            data.extend_from_slice(trace.get_row(row));
        }
'''))
M='src/main.rs'
sub(M,('''            let mut bytes = vec![];
            let proof_bytes = proof.serialize();
            bytes.extend(proof_bytes.len().to_be_bytes());
            bytes.extend(proof_bytes);
            bytes.extend(pub_inputs.serialize());

            let Ok(()) = std::fs::write(output_path, bytes) else {
                println!("Error writing proof to file: {output_path}");
                return ExitCode::FAILURE;
            };
            println!("Proof written to {output_path}");
''','''            if let Err(error) = write_proof(output_path, &proof, &pub_inputs) {
                println!("Error writing proof to file: {output_path} ({error})");
                return ExitCode::FAILURE;
            }
            println!("Proof written to {output_path}");
'''),('''fn main() -> ExitCode {''','''fn write_proof(
    path: &str,
    proof: &StarkProof<Stark252PrimeField>,
    pub_inputs: &PublicInputs,
) -> std::io::Result<()> {
    use std::io::Write;
    let proof_bytes = proof.serialize();
    let mut file = std::fs::File::create(path)?;
    file.write_all(&proof_bytes.len().to_be_bytes())?;
    file.write_all(&proof_bytes)?;
    file.write_all(&pub_inputs.serialize())
}

fn read_all(path: &str) -> std::io::Result<Vec<u8>> {
    use std::io::Read;
    let mut bytes = vec![];
    std::fs::File::open(path)?.read_to_end(&mut bytes)?;
    Ok(bytes)
}

fn main() -> ExitCode {'''),('''            let Ok(program_content) = std::fs::read(input_path) else {
                println!("Error opening {input_path} file");
                return ExitCode::FAILURE;
            };
            let mut bytes''','''            let program_content = match read_all(input_path) {
                Ok(content) => content,
                Err(_) => {
                    println!("Error opening {input_path} file");
                    return ExitCode::FAILURE;
                }
            };
            let mut bytes'''))
sub('src/cairo/runner/run.rs',('''                (0..idx).fold(1, |acc, i| acc + vm.get_segment_size(i).unwrap_or_default());
''','''                1 + (0..idx).filter_map(|i| vm.get_segment_size(i)).sum::<usize>();
'''))
