//! What the demonstrations share: small statements, programs and options.
#![allow(dead_code, unused_imports)]
pub use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
pub use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
pub use lambdaworks_math::field::element::FieldElement;
pub use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as F;
pub use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
pub use lambdaworks_stark::cairo::air::*;
pub use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
pub use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
pub use lambdaworks_stark::cairo::register_states::RegisterStates;
pub use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
pub use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
pub use lambdaworks_stark::starks::context::AirContext;
pub use lambdaworks_stark::starks::example::simple_fibonacci::{
    fibonacci_trace, FibonacciAIR, FibonacciPublicInputs,
};
pub use lambdaworks_stark::starks::frame::Frame;
pub use lambdaworks_stark::starks::proof::options::ProofOptions;
pub use lambdaworks_stark::starks::proof::stark::StarkProof;
pub use lambdaworks_stark::starks::prover::prove;
pub use lambdaworks_stark::starks::trace::TraceTable;
pub use lambdaworks_stark::starks::traits::AIR;
pub use lambdaworks_stark::starks::verifier::verify;
pub use std::ops::Range;

pub type FE = FieldElement<F>;

pub fn opts(blowup_factor: u8, queries: usize, coset_offset: u64, grinding_factor: u8) -> ProofOptions {
    ProofOptions { blowup_factor, fri_number_of_queries: queries, coset_offset, grinding_factor }
}

pub type Fib = FibonacciAIR<F>;
pub fn fib(len: usize) -> (TraceTable<F>, FibonacciPublicInputs<F>) {
    let (a, b) = (FE::from(1), FE::from(1));
    (fibonacci_trace([a, b], len), FibonacciPublicInputs { a0: a, a1: b })
}

/// A compiled program, as the machine reads it.
pub fn program(builtins: &[&str], data: &[&str]) -> Vec<u8> {
    let data: Vec<String> = data.iter().map(|d| format!("\"{d}\"")).collect();
    let builtins: Vec<String> = builtins.iter().map(|d| format!("\"{d}\"")).collect();
    format!(
        "{{\"prime\":\"0x800000000000011000000000000000000000000000000000000000000000001\",\
         \"builtins\":[{}],\"data\":[{}],\
         \"identifiers\":{{\"__main__.main\":{{\"pc\":0,\"type\":\"function\",\"decorators\":[]}}}},\"hints\":{{}}}}",
        builtins.join(","),
        data.join(",")
    )
    .into_bytes()
}
pub const PUSH: &str = "0x480680017fff8000"; // [ap] = imm; ap++
pub const ADD: &str = "0x48307fff7ffe8000"; // [ap] = [ap-1] + [ap-2]; ap++
pub const MUL: &str = "0x48507fff7ffe8000"; // [ap] = [ap-1] * [ap-2]; ap++
pub const RET: &str = "0x208b7fff7fff7ffe";

/// Pushes two numbers and adds them up n times.
pub fn fib_program(a: u64, b: u64, n: usize) -> Vec<u8> {
    let (a, b) = (format!("{a:#x}"), format!("{b:#x}"));
    let mut data = vec![PUSH, a.as_str(), PUSH, b.as_str()];
    data.extend(std::iter::repeat(ADD).take(n));
    data.push(RET);
    program(&[], &data)
}
/// Range checks the given numbers.
pub fn rc_program(values: &[u64]) -> Vec<u8> {
    let mut data: Vec<String> = vec![];
    for (i, v) in values.iter().enumerate() {
        data.push(PUSH.into());
        data.push(format!("{v:#x}"));
        // [ap-1] = [[fp-3]+i]
        data.push(format!("{:#x}", 0x400280007ffd7fffu64 + ((i as u64) << 32)));
    }
    data.push("0x482680017ffd8000".into()); // [ap] = [fp-3] + n; ap++
    data.push(format!("{:#x}", values.len()));
    data.push(RET.into());
    program(&["range_check"], &data.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}
pub fn cairo_args(p: &[u8]) -> (TraceTable<F>, PublicInputs) {
    generate_prover_args(p, &CairoVersion::V0, &None).unwrap()
}

/// Runs f without printing its panics. None: it panicked.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    let _ = std::panic::take_hook();
    r
}

pub fn fail(what: &str) -> ! {
    println!("WRONG: {what}");
    std::process::exit(1)
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        fail(what)
    }
}
