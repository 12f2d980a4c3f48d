import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
KIT='mod kit;\nuse kit::*;\n'
A='src/cairo/air.rs';R='src/cairo/runner/run.rs';S='src/starks/proof/stark.rs'
bug('entry-fallback','C12',
 'a run of a function the program does not have, in a program that has a main',
 'a program that lacks the function that was asked for has its main run instead, and the trace of that run is handed out',
 [(R,'''    let entrypoint = entrypoint_function.unwrap_or("main");
''','''    let defined = |name: &&str| {
        let key = format!(".{name}\\"");
        String::from_utf8_lossy(program_content).contains(&key)
    };
    let entrypoint = entrypoint_function.filter(defined).unwrap_or("main");
''')],KIT+'''
use lambdaworks_stark::cairo::{cairo_layout::CairoLayout, runner::run::run_program};
fn main() {
    let p = fib_program(1, 1, 3);
    check(run_program(None, CairoLayout::Small, &p, &CairoVersion::V0).is_ok(), "main does not run");
    check(run_program(Some("main"), CairoLayout::Small, &p, &CairoVersion::V0).is_ok(), "main does not run");
    check(run_program(Some("other"), CairoLayout::Small, &p, &CairoVersion::V0).is_err(), "a function that is not there was run");
}
''')
bug('sort-buckets','C01',
 'a run over more than 2^16 memory addresses',
 'the accesses are sorted by the low sixteen bits of their addresses, so the memory of a large run is not continuous and its proof is refused',
 [(A,'''    tuples.sort_by(|(x, _), (y, _)| x.representative().cmp(&y.representative()));
''','''    // Addresses are small: this avoids a comparison of four limbs
    tuples.sort_by_cached_key(|(x, _)| u16::from(x.representative()));
''')],KIT+'''
fn main() {
    for gap in [10u64, 66000] {
        // ap += gap; [ap] = 1; ap++; ret
        let p = program(&[], &["0x40780017fff7fff", &format!("{gap:#x}"), PUSH, "0x1", RET]);
        let (trace, inputs) = cairo_args(&p);
        let o = opts(4, 3, 3, 1);
        let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
        check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
    }
}
''')
bug('count-guard','C09',
 'a proof made for more than 256 queries, written and read back',
 'proofs with more than 256 openings can be written but not be read back',
 [(S,'''        let mut deep_poly_openings = vec![];
''','''        // no ready-made options ask for more
        if deep_poly_openings_len > 256 {
            return Err(DeserializationError::InvalidAmountOfBytes);
        }
        let mut deep_poly_openings = vec![];
''')],KIT+'''
use lambdaworks_math::traits::{Serializable, Deserializable};
fn main() {
    let (trace, inputs) = fib(8);
    for q in [3, 255, 256, 257, 300, 1000] {
        let o = opts(4, q, 3, 1);
        let proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
        let bytes = proof.serialize();
        match StarkProof::<F>::deserialize(&bytes) {
            Ok(p) => check(p.serialize() == bytes && verify::<F, Fib>(&p, &inputs, &o), "what was read is not what was written"),
            Err(_) => fail("what was written can not be read"),
        }
    }
}
''')
