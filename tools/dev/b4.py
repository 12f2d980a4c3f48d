import sys; sys.path.insert(0,'/tmp/bugs')
from tool import bug
import mut
KIT='mod kit;\nuse kit::*;\n'
M={i:e for i,_,e in mut.L}
AIRS='''
/// Column 0 doubles, and is free in the last row; column 1 holds bits, in every row.
#[derive(Clone)]
struct Two { context: AirContext, n: usize }
impl AIR for Two {
    type Field = F;
    type RAPChallenges = ();
    type PublicInputs = ();
    fn new(n: usize, _: &(), o: &ProofOptions) -> Self {
        let context = AirContext {
            proof_options: o.clone(),
            trace_columns: 2,
            transition_degrees: vec![2, 1],
            transition_offsets: vec![0, 1],
            transition_exemptions: vec![0, 1],
            num_transition_constraints: 2,
            num_transition_exemptions: 1,
        };
        Two { context, n }
    }
    fn composition_poly_degree_bound(&self) -> usize { 2 * self.n }
    fn build_auxiliary_trace(&self, _: &TraceTable<F>, _: &()) -> TraceTable<F> { TraceTable::empty() }
    fn build_rap_challenges<T: Transcript>(&self, _: &mut T) {}
    fn compute_transition(&self, f: &Frame<F>, _: &()) -> Vec<FE> {
        let (a, b) = (f.get_row(0), f.get_row(1));
        vec![&a[1] * (&a[1] - FE::one()), &b[0] - &a[0] - &a[0]]
    }
    fn boundary_constraints(&self, _: &()) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(vec![BoundaryConstraint::new(0, 0, FE::one())])
    }
    fn number_auxiliary_rap_columns(&self) -> usize { 0 }
    fn context(&self) -> &AirContext { &self.context }
    fn trace_length(&self) -> usize { self.n }
    fn pub_inputs(&self) -> &() { &() }
}
fn two(n: usize) -> Vec<Vec<FE>> {
    let mut a = vec![FE::one()];
    for i in 1..n {
        let last = a[i - 1].clone();
        a.push(if i < n { &last + &last } else { last });
    }
    let b = (0..n).map(|i| FE::from(i as u64 * 7 / 3 % 2)).collect();
    vec![a, b]
}
'''
bug('exempt-for-one','C13',
 'an AIR whose constraints have different numbers of exempt rows, and a trace that breaks, in one of its last rows, the constraint that is exempt in fewer',
 'the debug validation of a trace skips the last rows for every constraint as soon as one is exempt there: it calls a trace right that no proof can be made of',
 M['dbg-exempt-max'],KIT+'''
use lambdaworks_stark::starks::debug::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
'''+AIRS+'''
fn main() {
    let o = opts(4, 3, 3, 1);
    let air = Two::new(8, &(), &o);
    let domain = Domain::new(&air);
    let valid = |columns: &[Vec<FE>]| {
        let polys = TraceTable::new_from_cols(columns).compute_trace_polys();
        validate_trace::<F, Two>(&air, &polys, &domain, &())
    };
    let good = two(8);
    check(valid(&good), "a right trace is reported");
    for row in 0..8 {
        let mut bad = good.clone();
        bad[1][row] = FE::from(2);
        check(!valid(&bad), &format!("a wrong value in row {row} is not reported"));
    }
}
''',dbg=True)
bug('busy','C14',
 'a session that rejects a proof, and a later one on the same thread',
 'once a proof was rejected, every later proof is rejected on that thread',
 M['tl-depth'],KIT+'''
fn main() {
    let (trace, inputs) = fib(16);
    let o = opts(4, 3, 3, 1);
    let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused the second time");
    proof.fri_last_value = &proof.fri_last_value + FE::one();
    check(!verify::<F, Fib>(&proof, &inputs, &o), "altered proof accepted");
    proof.fri_last_value = &proof.fri_last_value - FE::one();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused after an altered one");
}
''')
bug('shared-dump','C14',
 'two runs of different programs at the same time',
 'the memory of a run goes through a file all runs share, and one session makes its trace of the memory of another',
 M['tmpfile'],KIT+'''
fn main() {
    // the changed code writes in the directory for temporary files
    std::env::set_var("TMPDIR", std::env::var("DEMO_DIR").unwrap());
    let programs: Vec<Vec<u8>> = (0..8).map(|i| fib_program(i + 3, 2 * i + 5, 40 + i as usize)).collect();
    let alone: Vec<_> = programs.iter().map(|p| cairo_args(p).0).collect();
    let wrong = std::sync::atomic::AtomicUsize::new(0);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for (p, a) in programs.iter().zip(&alone) {
            let wrong = &wrong;
            s.spawn(move || {
                for _ in 0..60 {
                    let r = std::panic::catch_unwind(|| generate_prover_args(p, &CairoVersion::V0, &None).ok().map(|t| t.0));
                    if !matches!(&r, Ok(Some(t)) if t == a) {
                        wrong.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let _ = std::panic::take_hook();
    check(wrong.into_inner() == 0, "a run among others gives something else than alone");
}
''')
bug('queries-128','C04',
 'options with more than 128 queries and a proof whose later queries are wrong',
 'the verifier looks at 128 queries at most, however many the options ask for',
 M['u8-queries'],KIT+'''
fn main() {
    let (trace, inputs) = fib(8);
    let o = opts(4, 150, 3, 1);
    let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
    for q in [0, 127, 128, 140, 149] {
        let right = proof.deep_poly_openings[q].lde_trace_evaluations[0].clone();
        proof.deep_poly_openings[q].lde_trace_evaluations[0] = &right + FE::one();
        check(!verify::<F, Fib>(&proof, &inputs, &o), &format!("wrong answer to query {q} accepted"));
        proof.deep_poly_openings[q].lde_trace_evaluations[0] = right;
    }
}
''')
bug('nonce-32-bit','C02',
 'a proof whose nonce was altered in its upper half',
 'prover and verifier hash only the lower half of the nonce, so that many proofs differ in it and are all accepted',
 M['nonce-be'],KIT+'''
fn main() {
    let (trace, inputs) = fib(16);
    for g in [0, 5] {
        let o = opts(4, 4, 3, g);
        let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
        check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
        for bit in 32..64 {
            proof.nonce ^= 1 << bit;
            check(!verify::<F, Fib>(&proof, &inputs, &o), &format!("nonce altered in bit {bit} accepted"));
            proof.nonce ^= 1 << bit;
        }
    }
}
''')
bug('repeated-point','C02',
 'a proof with two queries for the same point, the later of which was altered',
 'what a proof answers to a query that asks for the same point as the first is not looked at',
 M['dup-query-skip'],KIT+'''
fn main() {
    let (trace, inputs) = fib(4);
    let o = opts(2, 40, 3, 1);
    let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    check(verify::<F, Fib>(&proof, &inputs, &o), "honest proof refused");
    for q in 0..40 {
        let right = proof.query_list[q].layers_evaluations_sym[0].clone();
        proof.query_list[q].layers_evaluations_sym[0] = &right + FE::one();
        check(!verify::<F, Fib>(&proof, &inputs, &o), &format!("wrong answer to query {q} accepted"));
        proof.query_list[q].layers_evaluations_sym[0] = right;
    }
}
''')
bug('each-point-once','C01',
 'more queries than points, or a session in which a point is asked for twice',
 'the prover answers each point once, so that its own proof lacks answers whenever a point is asked for twice',
 M['dedup-iotas'],KIT+'''
fn main() {
    let o = opts(2, 20, 3, 1);
    for n in [4, 8, 16] {
        let (trace, inputs) = fib(n);
        let proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
        check(verify::<F, Fib>(&proof, &inputs, &o), &format!("honest proof of {n} rows refused"));
    }
}
''')
bug('last-degree','C01',
 'an AIR whose constraint of highest degree, or with most exempt rows, is not the last',
 'the verifier takes the last constraint for the one of highest degree and refuses honest proofs',
 M['degree-max'],KIT+AIRS+'''
fn main() {
    let o = opts(4, 5, 3, 1);
    for n in [8, 16] {
        let trace = TraceTable::new_from_cols(&two(n));
        let proof = prove::<F, Two>(&trace, &(), &o).unwrap();
        check(verify::<F, Two>(&proof, &(), &o), "honest proof refused");
    }
    let (trace, inputs) = cairo_args(&fib_program(1, 1, 5));
    let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    check(verify_cairo_proof(&proof, &inputs, &o), "honest Cairo proof refused");
}
''')
bug('zero-is-none','C09',
 'public inputs whose smallest range check value is zero (offsets of -32768)',
 'a smallest range check value of zero is stored as if there were none',
 M['rc-zero-none'],KIT+'''
fn main() {
    let (_, mut inputs) = cairo_args(&fib_program(1, 1, 3));
    for (min, max) in [(None, None), (Some(0), Some(0)), (Some(0), Some(9)), (Some(1), Some(u16::MAX))] {
        inputs.range_check_min = min;
        inputs.range_check_max = max;
        let bytes = inputs.serialize();
        let Ok(read) = PublicInputs::deserialize(&bytes) else { fail("stored public inputs can not be read") };
        check(read.range_check_min == min && read.range_check_max == max, "stored limits are not read as they were");
        check(read.serialize() == bytes, "public inputs that were read are stored differently");
    }
}
''')
bug('low-limb-order','C09',
 'public memory with addresses of more than 64 bits, added in another order',
 'the stored form of public inputs depends on the order a hash table happens to have',
 M['pubmem-order'],KIT+'''
fn main() {
    let (_, mut inputs) = cairo_args(&fib_program(1, 1, 3));
    let big = FE::from(1u64 << 63) + FE::from(1u64 << 63);
    inputs.public_memory.clear();
    for i in 0..6u64 {
        inputs.public_memory.insert(&big * FE::from(i) + FE::from(7), FE::from(i));
    }
    let first = inputs.serialize();
    for _ in 0..30 {
        let Ok(read) = PublicInputs::deserialize(&first) else { fail("stored public inputs can not be read") };
        check(read.serialize() == first, "public inputs that were read are stored differently");
    }
}
''')
bug('remembered-offset','C10',
 'two sessions in one process with the same coset offset and traces of different lengths',
 'the prover reuses a power of the coset offset of an earlier session, and what it proves depends on what it proved before',
 M['once-zerofier'],KIT+'''
fn main() {
    let o = opts(4, 3, 3, 1);
    let make = |n: usize| {
        let (trace, inputs) = fib(n);
        let p = quiet(|| prove::<F, Fib>(&trace, &inputs, &o).unwrap());
        p.map(|p| (verify::<F, Fib>(&p, &inputs, &o), p.serialize()))
    };
    let alone = std::thread::scope(|s| s.spawn(|| make(16)).join().unwrap());
    check(matches!(alone, Some((true, _))), "honest proof refused");
    make(8);
    check(make(16) == alone, "another proof after another session");
}
''')
bug('output-first','C11',
 'a run that fails and an older proof under the name of the output',
 'a run that fails leaves an empty file where an older proof was',
 M['create-first'],KIT+'''
use std::process::Command;
fn main() {
    let (dir, cli) = (std::env::var("DEMO_DIR").unwrap(), std::env::var("DEMO_CLI").unwrap());
    let (p, q, a) = (format!("{dir}/p.json"), format!("{dir}/q.json"), format!("{dir}/a"));
    std::fs::write(&p, fib_program(1, 1, 3)).unwrap();
    std::fs::write(&q, b"{}").unwrap();
    let run = |args: &[&str]| Command::new(&cli).args(args).output().unwrap().status.success();
    check(run(&["prove", &p, &a]), "prove failed");
    let before = std::fs::read(&a).unwrap();
    check(!run(&["prove", &q, &a]), "nothing was proved, and success is reported");
    check(std::fs::read(&a).ok() == Some(before), "a run that failed spoils the older proof");
    check(run(&["verify", &a]), "the older proof is not accepted any more");
}
''',cli=True)
bug('one-read','C11',
 'a proof that comes through a pipe, or any reader that returns fewer bytes than asked for',
 'the command takes what a single read returns for the whole file',
 M['one-read'],KIT+'''
use std::process::Command;
fn main() {
    let (dir, cli) = (std::env::var("DEMO_DIR").unwrap(), std::env::var("DEMO_CLI").unwrap());
    let (p, a) = (format!("{dir}/p.json"), format!("{dir}/a"));
    std::fs::write(&p, fib_program(1, 1, 3)).unwrap();
    let sh = |s: String| Command::new("bash").args(["-c", &s]).output().unwrap().status.success();
    check(sh(format!("{cli} prove {p} {a}")), "prove failed");
    check(sh(format!("{cli} verify {a}")), "the proof is not accepted");
    check(sh(format!("cat {a} | {cli} verify /dev/stdin")), "the proof is not accepted when it comes in parts");
}
''',cli=True)
bug('first-hole','C12',
 'a program that leaves a memory cell without a value',
 'the cells behind the first one without a value are lost from the memory of the run',
 M['mem-none-stop'],KIT+'''
fn main() {
    // ap += 3 leaves cells nobody touches
    let p = program(&[], &[PUSH, "0x5", "0x40780017fff7fff", "0x3", PUSH, "0x7", RET]);
    let run = run_program(None, CairoLayout::Small, &p, &CairoVersion::V0);
    let Ok((states, memory, _, _)) = run else { fail("the run failed") };
    let last = states.rows.last().unwrap();
    check(memory.get(&(last.ap - 1)) == Some(&FE::from(7)), "the last value is not in the memory");
}
''')
bug('silent-fri','C13',
 'a proof that fails in the folding of FRI, and a look at what is reported about it',
 'proofs are rejected for a wrong folding without a word',
 M['vf-silent-fri'],KIT+'''
struct Log;
static SAID: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        if r.level() == log::Level::Error {
            SAID.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&Log).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let (trace, inputs) = fib(16);
    let o = opts(4, 3, 3, 1);
    let mut proof = prove::<F, Fib>(&trace, &inputs, &o).unwrap();
    let said = || SAID.swap(0, std::sync::atomic::Ordering::SeqCst);
    check(verify::<F, Fib>(&proof, &inputs, &o) && said() == 0, "an error is reported about an honest proof");
    proof.query_list[0].layers_evaluations_sym[1] = FE::from(5);
    check(!verify::<F, Fib>(&proof, &inputs, &o), "altered proof accepted");
    check(said() > 0, "nothing is reported about a wrong folding");
}
''')
bug('jnz-inverse','C12',
 'a conditional jump that is not taken',
 'the cell that holds the inverse for conditional jumps is one where the condition is zero',
 M['jnz-zero-inv'],KIT+'''
fn main() {
    // [ap] = 0; ap++; jmp rel 4 if [ap-1] != 0; [ap] = 9; ap++
    let p = program(&[], &[PUSH, "0x0", "0x20680017fff7fff", "0x4", PUSH, "0x9", RET]);
    let (trace, inputs) = cairo_args(&p);
    check(trace.get(1, 16) == FE::zero(), "the result of an untaken jump is not zero");
    let o = opts(4, 3, 3, 1);
    let proof = generate_cairo_proof(&trace, &inputs, &o).unwrap();
    check(verify_cairo_proof(&proof, &inputs, &o), "honest proof refused");
}
''')
