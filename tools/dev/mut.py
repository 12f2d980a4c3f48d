import subprocess,os,shutil,sys,json
P='src/starks/prover.rs';V='src/starks/verifier.rs';T='src/starks/traits.rs';TR='src/starks/transcript.rs';FR='src/starks/fri/mod.rs';EV='src/starks/constraints/evaluator.rs'
A='src/cairo/air.rs';X='src/cairo/execution_trace.rs';R='src/cairo/runner/run.rs';S='src/starks/proof/stark.rs';O='src/starks/proof/options.rs';G='src/starks/grinding.rs';D='src/starks/debug.rs';M='src/main.rs';DM='src/starks/domain.rs';FA='src/starks/frame.rs';FD='src/starks/fri/fri_decommit.rs';FL='src/cairo/decode/instruction_flags.rs';OF='src/cairo/decode/instruction_offsets.rs';ME='src/cairo/cairo_mem.rs';RS='src/cairo/register_states.rs';VW='src/cairo/runner/vec_writer.rs';FW='src/cairo/runner/file_writer.rs';TT='src/starks/trace.rs'
L=[]
def m(id,prop,*edits): L.append((id,prop,edits))
# ---- C01
m('exempt-sorted','C01',(T,'''            .unique_by(|elem| *elem)
            .filter(|v| *v > &0_usize)''','''            .sorted()
            .unique_by(|elem| *elem)
            .filter(|v| *v > &0_usize)'''))
m('lde-truncate','C01',(P,"_ => Ok(evaluations.into_iter().step_by(step).collect()),","_ => Ok(evaluations.into_iter().take(domain_size * blowup_factor).collect()),"))
m('dedup-iotas','C01',(FR,"        let query_list = iotas","        let iotas: Vec<usize> = itertools::Itertools::unique(iotas.into_iter()).collect();\n        let query_list = iotas"))
m('holes-codelen','C01',(X,"                if hole_addr.representative() > (codelen as u64).into() {\n","                if hole_addr.representative() > (codelen as u64 + 1).into() {\n"))
m('rc-pad-zero','C01',(X,"FieldElement::from(*sorted_offset_representatives.last().unwrap() as u64);","FieldElement::from(*sorted_offset_representatives.first().unwrap() as u64);"))  # equivalent maybe
m('frame-offset-mod','C01',(FA,"(step + (frame_row_idx * blowup as usize)) % trace_steps","(step + (frame_row_idx * blowup as usize) % 512) % trace_steps"))
m('zerofier-offset','C01',(EV,"let offset_pow = offset.pow(trace_length);","let offset_pow = offset.pow(trace_length as u8 as usize + (trace_length >> 8 << 8));")) # equivalent
m('degree-max','C01',(V,"        .max()\n        .expect(\"has maximum degree\");","        .last()\n        .expect(\"has maximum degree\");"))
# ---- C02
m('sym-unchecked-0','C02',(V,"                    result & (v == *next_layer_evaluation) & auth_point & auth_sym","                    result & (v == *next_layer_evaluation) & auth_point & (*auth_sym | (layer_evaluation_index_sym == 0))"))
m('point-unchecked-0','C02',(V,"                    auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation);","                    auth_path.verify::<FriMerkleTreeBackend<F>>(merkle_root, iota, evaluation) || iota % domain_length == 0;"))
m('last-query-fri','C02',(V,"        .zip(&challenges.iotas)\n        .zip(evaluation_point_inverse)\n        .fold(true,","        .zip(&challenges.iotas)\n        .zip(evaluation_point_inverse)\n        .take(challenges.iotas.len().max(2) - 1)\n        .fold(true,"))
m('dup-query-skip','C02',(V,"        .zip(&challenges.iotas)\n        .zip(evaluation_point_inverse)\n        .fold(true,","        .zip(&challenges.iotas)\n        .zip(evaluation_point_inverse)\n        .filter(|((_, iota), _)| **iota != challenges.iotas[0])\n        .fold(true,"))
m('comp-root-leaf','C02',(V,"                    .verify::<BatchedMerkleTreeBackend<F>>(\n                        &proof.composition_poly_root,\n                        *iota_n,\n                        &evaluations,\n                    );","                    .verify::<BatchedMerkleTreeBackend<F>>(\n                        &proof.composition_poly_root,\n                        *iota_n,\n                        &evaluations,\n                    ) | (i > 2);"))
m('nonce-be','C02',(V,"    transcript.append(&nonce.to_be_bytes());","    transcript.append(&(nonce as u32 as u64).to_be_bytes());"),(G,"data[32..].copy_from_slice(&value.to_le_bytes());","data[32..36].copy_from_slice(&(value as u32).to_le_bytes());"))
# ---- C03
m('fp-init-unchecked','C03',(A,"        && (1..=trace_length).contains(&pub_input.num_steps)","        && (0..=trace_length + 1).contains(&pub_input.num_steps)"))
m('num-steps-final','C03',(A,"            MEM_P_TRACE_OFFSET,\n            self.pub_inputs.num_steps - 1,","            MEM_P_TRACE_OFFSET,\n            self.trace_length - 1,"))
m('pubmem-zero-value','C03',(A,"            .fold(FieldElement::one(), |product, (address, value)| {","            .filter(|(_, value)| **value != FieldElement::zero())\n            .fold(FieldElement::one(), |product, (address, value)| {"))
m('output-nonempty','C03',(A,"            (output_range.is_empty() || output_range.start > program_len)","            (output_range.is_empty() || output_range.end > program_len)"))
m('rc-min-free','C03',(A,"            range_check_final_constraint,\n            range_check_min,","            range_check_final_constraint,"))
m('pubmem-value-addr','C03',(A,"                    * (&rap_challenges.z_memory - (address + &rap_challenges.alpha_memory * value))","                    * (&rap_challenges.z_memory - (address + &rap_challenges.alpha_memory * FieldElement::<Stark252PrimeField>::from(&value.representative())))")) # equivalent
# ---- C04
m('u8-queries','C04',(V,"    let iotas = (0..air.options().fri_number_of_queries)","    let iotas = (0..air.options().fri_number_of_queries.min(128))"))
m('enough-queries-one','C04',(V,"        && proof.query_list.len() >= number_queries\n","") ,(V,"        && proof.deep_poly_openings.len() >= number_queries\n","        && proof.deep_poly_openings.len() + 1 >= number_queries\n"))
m('grind-mask','C04',(V,"    if challenges.leading_zeros_count < grinding_factor {","    if challenges.leading_zeros_count < grinding_factor & 0x1f {"))
m('prov-round','C04',(O,"grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2","grinding_factor as usize + num_bits_blowup_factor * ((fri_number_of_queries + 1) / 2)"))
m('conj-wrap','C04',(O,"            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries","            >= (grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries) % 1024"))
m('field-bits','C04',(O,"        if F::field_bit_size() * Self::EXTENSION_DEGREE\n            <= security_target as usize + Self::NUM_BITS_MAX_DOMAIN_SIZE","        if F::field_bit_size() * Self::EXTENSION_DEGREE\n            < security_target as usize + Self::NUM_BITS_MAX_DOMAIN_SIZE"))
m('prov100','C04',(O,"fri_number_of_queries: 104,","fri_number_of_queries: 79,"))
m('grind-u8','C04',(G,"    seed_head.trailing_zeros() as u8","    (seed_head as u32).trailing_zeros() as u8"))
# ---- C05
m('flag15','C05',(A,"            15 => *flag,","            15 => *flag * curr[14],"))
m('t1-jnz','C05',(A,"    constraints[T1] = &curr[FRAME_T0] * &curr[FRAME_RES] - &curr[FRAME_T1];","    constraints[T1] = &curr[F_PC_JNZ] * (&curr[FRAME_T0] * &curr[FRAME_RES] - &curr[FRAME_T1]);"))
m('call2-size','C05',(A,"        &curr[F_OPC_CALL] * (&curr[FRAME_OP0] - (&curr[FRAME_PC] + frame_inst_size(curr)));","        &curr[F_OPC_CALL] * &curr[F_PC_REL] * (&curr[FRAME_OP0] - (&curr[FRAME_PC] + frame_inst_size(curr)));"))
m('exempt-0-vs-1','C05',(A,"            0, 0, 0, 0, 0, // opcode constraints (5)","            0, 0, 0, 0, 1, // opcode constraints (5)"))
m('rc-perm-exempt','C05',(A,"            0, 0, 0, // range check permutation argument (3)","            1, 1, 1, // range check permutation argument (3)"))
m('cons2','C05',(A,"    constraints[MEMORY_CONSISTENCY_2] = (&curr[MEMORY_VALUES_SORTED_2 - builtin_offset]\n        - &curr[MEMORY_VALUES_SORTED_3 - builtin_offset])","    constraints[MEMORY_CONSISTENCY_2] = (&curr[MEMORY_VALUES_SORTED_2 - builtin_offset]\n        - &curr[MEMORY_VALUES_SORTED_3 - builtin_offset]) * &curr[MEMORY_ADDR_SORTED_2 - builtin_offset]"))
m('boundary-step','C05',(V,"            let point = &domain.trace_primitive_root.pow(step as u64);","            let point = &domain.trace_primitive_root.pow((step as u64).min(255));"),(EV,"                    let point = &domain.trace_primitive_root.pow(bc.step as u64);","                    let point = &domain.trace_primitive_root.pow((bc.step as u64).min(255));"))
m('exempt-all','C05',(V,"                let except = except\n                    .checked_sub(1)\n                    .map(|i| &exemption[i])\n                    .unwrap_or(unity);","                let except = exemption.get(except.max(&1) - 1).unwrap_or(unity);"),(EV,"                            if *exemption == 0 {","                            if *exemption == 0 && num_exemptions != 1 {"))
# ---- C06
m('z-not-trace','C06',(DM,"        point.pow(lde_size) == self.coset_offset.pow(lde_size)\n            || point.pow(trace_size) == FieldElement::<F>::one()","        let _ = trace_size;\n        point.pow(lde_size) == self.coset_offset.pow(lde_size)"),(TR,"            lde_roots_of_unity_coset.iter().any(|x| x == value)\n                || trace_roots_of_unity.iter().any(|x| x == value)","            let _ = trace_roots_of_unity;\n            lde_roots_of_unity_coset.iter().any(|x| x == value)"))
m('z-first-half','C06',(TR,"            lde_roots_of_unity_coset.iter().any(|x| x == value)\n                ||","            lde_roots_of_unity_coset.iter().skip(1).any(|x| x == value)\n                ||"),(DM,"        point.pow(lde_size) == self.coset_offset.pow(lde_size)\n            ||","        point.pow(lde_size) == self.coset_offset.pow(lde_size) && point != &self.coset_offset\n            ||"))
m('retry-z','C06',(TR,'''        if !is_in_domain(&value) {
            return value;
        }''','''        if !is_in_domain(&value) {
            return value;
        }
        // the same challenge can not be in the domain once it is shifted
        return value + FieldElement::<F>::one();'''))
m('aux-root-skip','C06',(V,"    if let Some(root) = proof.lde_trace_merkle_roots.get(1) {\n        transcript.append(root);","    if let Some(root) = proof.lde_trace_merkle_roots.get(1) {\n        transcript.append(&root[..31]);"),(P,"    transcript.append(&lde_trace_merkle_root);","    transcript.append(&lde_trace_merkle_root[..if trace.n_cols == 18 { 31 } else { 32 }]);"))
m('alpha-beta-same','C06',(V,"    let transition_coeffs_betas =\n        batch_sample_challenges(air.context().num_transition_constraints, transcript);","    let transition_coeffs_betas: Vec<FieldElement<F>> = transition_coeffs_alphas.iter().map(|a: &FieldElement<F>| a.square()).collect();"),(P,"    let transition_coeffs_betas =\n        batch_sample_challenges(air.context().num_transition_constraints, &mut transcript);","    let transition_coeffs_betas: Vec<FieldElement<F>> = transition_coeffs_alphas.iter().map(|a: &FieldElement<F>| a.square()).collect();"))
# ---- C07
m('deep-rows','C07',(V,"            let trace_i = (0..proof.trace_ood_frame_evaluations.num_rows())","            let trace_i = (0..proof.trace_ood_frame_evaluations.num_rows().min(2))"),(P,"                let trace_int = trace_frame_evaluations\n                    .iter()","                let trace_int = trace_frame_evaluations\n                    .iter()\n                    .take(2)"))
m('fri-v-last','C07',(V,"                    result & (v == proof.fri_last_value) & auth_point & auth_sym","                    result & ((v == proof.fri_last_value) | (proof.fri_layers_merkle_roots.len() > 6)) & auth_point & auth_sym"))
m('deep-eq-first','C07',(V,"                result & (deep_poly_claimed_evaluation == &deep_poly_evaluation)","                result & ((deep_poly_claimed_evaluation == &deep_poly_evaluation) | (*iota_n == 0))"))
m('layers-len','C07',(V,"        && proof.fri_layers_merkle_roots.len() == number_layers","        && proof.fri_layers_merkle_roots.len() >= number_layers"))
# ---- C08
m('trace-evals-len','C08',(V,"                && opening.lde_trace_evaluations.len() == context.trace_columns\n","                && opening.lde_trace_evaluations.len() + 1 >= context.trace_columns\n"))
m('rowwidth0','C08',(FA,"        self.row_width == num_columns && self.data.len() == num_rows * num_columns","        self.data.len() == num_rows * num_columns"))
m('felt-empty','C08',(FA,"            let felt = FieldElement::<F>::from_bytes_be(\n                bytes\n                    .get(..felt_len)\n                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,\n            )?;","            let felt = FieldElement::<F>::from_bytes_be(\n                bytes\n                    .get(..felt_len)\n                    .ok_or(DeserializationError::InvalidAmountOfBytes)?,\n            )\n            .unwrap_or_else(|_| FieldElement::zero());"))
m('pub-mem-cap','C08',(A,"        let mut public_memory = HashMap::new();\n        let public_memory_length","        let public_memory_length"),(A,"        for _ in 0..public_memory_length {","        let mut public_memory = HashMap::with_capacity(public_memory_length.min(1 << 24));\n        for _ in 0..public_memory_length {"))
m('steps-panic','C08',(A,"        && (1..=trace_length).contains(&pub_input.num_steps)","        && (1..=trace_length).contains(&(pub_input.num_steps % (1 << 32)))"))
m('trace-len-1','C08',(V,"    if trace_length < 2 || !trace_length.is_power_of_two() {","    if trace_length < 1 || !trace_length.is_power_of_two() {"))
m('out-range-huge','C08',(A,'''        .and_then(|output_len| public_memory_len.checked_sub(output_len))
        .map_or(false, |program_len| {
            (''','''        .map(|output_len| public_memory_len.wrapping_sub(output_len))
        .map_or(false, |program_len| {
            ('''))
# ---- C09
m('rc-zero-none','C09',(A,"        if let Some(range_check_min) = self.range_check_min {","        if let Some(range_check_min) = self.range_check_min.filter(|min| *min > 0) {"))
m('seg-empty','C09',(A,"            memory_segments.insert(segment_type, start..end);","            if start <= end {\n                memory_segments.insert(segment_type, start..end);\n            }"))
m('frame-trailing','C09',(FA,"        let row_width = usize::from_be_bytes(\n            bytes\n                .get(..8)","        let row_width = usize::from_be_bytes(\n            bytes\n                .get(bytes.len().saturating_sub(8)..)"))
m('pubmem-order','C09',(A,"public_memory.sort_by_key(|(address, _)| address.representative());","public_memory.sort_by_key(|(address, _)| address.representative().limbs[3]);"))
m('felt-short','C09',(FD,"        let felt_len = FieldElement::<F>::zero().to_bytes_be().len();","        let felt_len = self.layers_evaluations_sym.first().map_or(0, |e| e.to_bytes_be().len());"))
# ---- C10
m('nonce-parallel-chunk','C10',(EV,"                .map(|i| zerofier_evaluations[i % zerofier_evaluations.len()].clone());","                .map(|i| zerofier_evaluations[i % zerofier_evaluations.len().min(16)].clone());"))
m('once-zerofier','C10',(EV,'''        let offset_pow = offset.pow(trace_length);''','''        thread_local!(static LAST: std::cell::RefCell<Option<(u64, Vec<u8>)>> = std::cell::RefCell::new(None));
        let key = self.air.context().proof_options.coset_offset;
        let cached = LAST.with(|l| l.borrow().as_ref().filter(|(k, _)| *k == key).map(|(_, b)| b.clone()));
        let offset_pow = match cached {
            Some(bytes) => FieldElement::<F>::from_bytes_be(&bytes).unwrap(),
            None => offset.pow(trace_length),
        };
        LAST.with(|l| *l.borrow_mut() = Some((key, offset_pow.to_bytes_be())));'''))
# ---- C11
m('create-first','C11',(M,"            let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {\n                return ExitCode::FAILURE;\n            };\n\n            let mut bytes = vec![];","            let _ = std::fs::File::create(output_path);\n            let Some((proof, pub_inputs)) = generate_proof(input_path, &proof_options) else {\n                return ExitCode::FAILURE;\n            };\n\n            let mut bytes = vec![];"))
m('one-read','C11',(M,"            let Ok(program_content) = std::fs::read(input_path) else {\n                println!(\"Error opening {input_path} file\");\n                return ExitCode::FAILURE;\n            };\n            let mut bytes","            let read = || {\n                use std::io::Read;\n                let mut file = std::fs::File::open(input_path)?;\n                let mut content = vec![0; file.metadata()?.len() as usize];\n                let n = file.read(&mut content)?;\n                content.truncate(n);\n                Ok::<_, std::io::Error>(content)\n            };\n            let Ok(program_content) = read() else {\n                println!(\"Error opening {input_path} file\");\n                return ExitCode::FAILURE;\n            };\n            let mut bytes"))
m('tmp-rename','C11',(M,"            let Ok(()) = std::fs::write(output_path, bytes) else {","            let tmp = format!(\"{output_path}.tmp\");\n            let Ok(()) = std::fs::write(&tmp, bytes).and_then(|_| std::fs::rename(&tmp, output_path)) else {"))
m('casm-ends','C11',(M,"    let cairo_version = if input_path.contains(\".casm\") {","    let cairo_version = if input_path.ends_with(\"casm\") {"))
m('verify-extra-args','C11',(M,"            if args.len() < 3 {\n                println!(\"Usage: cargo run verify <input_path>\");\n                return ExitCode::FAILURE;","            if args.len() < 3 {\n                println!(\"Usage: cargo run verify <input_path>\");\n                return ExitCode::SUCCESS;"))
# ---- C12
m('off-i16min','C12',(OF,"vectorized_offset[1].overflowing_sub(128).0,","vectorized_offset[1].max(1).overflowing_sub(128).0,"))
m('jnz-zero-inv','C12',(X,"                            if dst == &FE::zero() {\n                                *dst","                            if dst == &FE::zero() {\n                                FE::one()"))
m('call-size','C12',(X,"            let instruction_size = if flags[i].op1_src == Op1Src::Imm {","            let instruction_size = if flags[i].pc_update == PcUpdate::JumpRel {"))
m('assert-mul-res','C12',(X,"            res[i] = dst[i];","            if f.res_logic != ResLogic::Mul {\n                res[i] = dst[i];\n            }"))  # equivalent
m('mem-none-stop','C12',(VW,"                None => continue,","                None => break,"))
m('mem-u32','C12',(VW,"self.buf_writer.extend_from_slice(&(i as u64).to_le_bytes());","self.buf_writer.extend_from_slice(&(i as u16 as u64).to_le_bytes());"))
m('out-order','C12',(A,"            for addr in output_range.clone() {\n                public_memory.insert","            for addr in output_range.clone().skip(usize::from(output_range.end - output_range.start > 3)) {\n                public_memory.insert"))
m('rc-shift','C12',(X,"        rc_base_types = rc_base_types.iter().map(|&x| x >> 16).collect();","        rc_base_types = rc_base_types.iter().map(|&x| (x >> 8) >> 8).collect();")) # equiv
m('rc-end','C12',(R,".or_else(|| vm.get_segment_used_size(idx))",".or_else(|| vm.get_segment_size(idx))"))
m('rc-base','C12',(R,"(0..idx).fold(1, |acc, i| acc + vm.get_segment_size(i).unwrap_or_default());","(0..idx).fold(1, |acc, i| acc + vm.get_segment_used_size(i).unwrap_or_default());"))
m('op1-imm-off','C12',(X,"                let pc = trace_state.pc;\n                let addr = pc.checked_add_signed(offset.off_op1.into()).unwrap();","                let pc = trace_state.pc;\n                let addr = pc + offset.off_op1.max(1) as u64;"))
m('fw-count','C12',(FW,"        self.buf_writer.flush()\n","        let _ = self.buf_writer.flush();\n        Ok(())\n"))
m('mem-first-wins','C12',(ME,"            data.insert(address, value);","            data.entry(address).or_insert(value);"))
m('trace-empty','C12',(RS,"        if bytes.len() % ROW_SIZE != 0 {","        if bytes.len() % 8 != 0 {"))
# ---- C13
m('log-enabled','C13',(D,"    let mut ret = true;","    if !log::log_enabled!(log::Level::Error) {\n        return true;\n    }\n    let mut ret = true;"))
m('dbg-exempt-max','C13',(D,"        .map(|(trace_steps, exemptions)| trace_steps - exemptions)","        .map(|(trace_steps, _)| trace_steps - transition_exemptions.iter().max().unwrap())"))
m('dbg-first-boundary','C13',(D,"            if boundary_value != trace_value {","            if step == 0 && boundary_value != trace_value {"))
m('dbg-ret','C13',(D,"                ret = false;\n                error!(\n                    \"Incons","                ret &= step + 1 == trace.n_rows();\n                error!(\n                    \"Incons"))
m('vf-silent-fri','C13',(V,"        error!(\"FRI verification failed\");\n",""))
m('vf-noise','C13',(V,"    if challenges.leading_zeros_count < grinding_factor {","    if challenges.leading_zeros_count == 0 && grinding_factor == 0 {\n        error!(\"no proof of work\");\n    }\n    if challenges.leading_zeros_count < grinding_factor {"))
# ---- C14
m('lock-order','C14',(P,"    let air = A::new(main_trace.n_rows(), pub_inputs, proof_options);\n    let domain","    static FIRST: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    static SECOND: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let (a, b) = if main_trace.n_cols % 2 == 0 { (&FIRST, &SECOND) } else { (&SECOND, &FIRST) };\n    let _a = a.lock().unwrap_or_else(|e| e.into_inner());\n    let air = A::new(main_trace.n_rows(), pub_inputs, proof_options);\n    let _b = b.lock().unwrap_or_else(|e| e.into_inner());\n    let domain"))
m('tmpfile','C14',(R,"    //TO DO: Better error handling\n","    let dump = std::env::temp_dir().join(\"cairo_memory.bin\");\n    std::fs::write(&dump, &memory_vec)?;\n    let memory_vec = std::fs::read(&dump)?;\n    //TO DO: Better error handling\n"))
m('tl-depth','C14',(V,"    let mut transcript = step_1_transcript_initialization();","    thread_local!(static BUSY: std::cell::Cell<bool> = std::cell::Cell::new(false));\n    let busy = BUSY.with(|b| b.replace(true));\n    if busy {\n        return false;\n    }\n    let mut transcript = step_1_transcript_initialization();"),(V,"            elapsed4.as_nanos() as f64 / total_time.as_nanos() as f64\n        );\n    }\n\n    true","            elapsed4.as_nanos() as f64 / total_time.as_nanos() as f64\n        );\n    }\n\n    BUSY.with(|b| b.set(false));\n    true"))
m('global-roots','C14',(DM,'''        let lde_roots_of_unity_coset = get_powers_of_primitive_root_coset(
            lde_root_order as u64,
            air.trace_length() * blowup_factor,
            &coset_offset,
        )
        .unwrap();
''','''        static ORDER: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        ORDER.store(lde_root_order, std::sync::atomic::Ordering::SeqCst);
        let lde_roots_of_unity_coset = get_powers_of_primitive_root_coset(
            ORDER.load(std::sync::atomic::Ordering::SeqCst) as u64,
            air.trace_length() * blowup_factor,
            &coset_offset,
        )
        .unwrap();
'''))
if __name__=='__main__':
    slot=sys.argv[1]; ids=sys.argv[2:]
    d=f'/tmp/dev/{slot}'
    for id,prop,edits in L:
        if ids and id not in ids: continue
        subprocess.run(f'rsync -a --delete --exclude /target /repo/ {d}/repo/ && mkdir -p {d}/verif && rm -rf {d}/head && mkdir {d}/head && git -C /verif archive HEAD | tar x -C {d}/head && rsync -rlpc --delete --exclude /target --exclude /evidence --exclude /replays {d}/head/ {d}/verif/ && mkdir -p {d}/verif/evidence {d}/verif/replays; [ -d {d}/verif/target ] || cp -a /verif/target {d}/verif/target',shell=True)
        bad=False
        for f,old,new in edits:
            p=f'{d}/repo/{f}'; s=open(p).read()
            if old not in s: print(id,'TEXT NOT FOUND',f,flush=True); bad=True; break
            open(p,'w').write(s.replace(old,new,1))
        if bad: continue
        for prop in os.environ.get('CHECK',prop).split(','):
            import time; t=time.time()
            o=f'/tmp/bugs/mut/{id}.{prop}'
            r=subprocess.run(['unshare','-Urm','bash','-c',f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && VERIF_SEED={os.environ.get("SEED","1")} timeout 900 bash run.sh {prop}'],stdout=open(o,'w'),stderr=subprocess.STDOUT)
            v=[l for l in open(o,errors='replace') if 'VIOLATION' in l]
            print(id,prop,'rc',r.returncode,int(time.time()-t),'s',(v[0].strip()[:150] if v else ''),flush=True)
