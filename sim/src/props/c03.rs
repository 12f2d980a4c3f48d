//! Statement binding: a network that delivers proofs to the wrong verifier, or
//! mixes up parts of two sessions' messages. Nothing a prover made for one
//! statement may be taken for another.
use crate::cairo::{Blk, CairoSpec};
use crate::core::*;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::{self, Instance, Pi, Stmt};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Stmt,
    b: Stmt,
    opts: Opts,
    /// each entry changes the statement the verifier expects
    muts: Vec<Vec<PiMut>>,
    /// which parts come from the other session
    splices: Vec<u64>,
    directed: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PiMut {
    what: u8,
    at: u64,
    salt: u64,
}

/// the same kind of statement with other inputs
fn sibling(s: &Stmt, r: &mut Rng) -> Stmt {
    match s {
        Stmt::Fib { a0, a1, log } => Stmt::Fib { a0: a0 + r.below(2), a1: a1.wrapping_add(r.range(1, 3)), log: *log },
        Stmt::Fib2 { a0, a1, log } => Stmt::Fib2 { a0: a0 + r.range(1, 2), a1: a1.wrapping_add(r.below(3)), log: *log },
        Stmt::Quad { a0, log } => Stmt::Quad { a0: a0.wrapping_add(r.range(1, 1000)), log: *log },
        Stmt::Rap { steps, a0, a1 } => {
            let n = (steps + 1).next_power_of_two();
            let mut s = r.range(8.max(n as u64 / 2), n as u64 - 1) as usize;
            if s == *steps {
                s = if s + 1 < n { s + 1 } else { s - 1 };
            }
            Stmt::Rap { steps: s, a0: *a0, a1: *a1 }
        }
        Stmt::Dummy { log } => Stmt::Dummy { log: *log },
        Stmt::Gen(g) => {
            let mut g = g.clone();
            g.seed = r.next();
            Stmt::Gen(g)
        }
        Stmt::Cairo(c) => {
            let mut c = c.clone();
            if r.chance(1, 2) {
                c.blocks.insert(0, Blk::Push(r.next()));
            } else {
                for b in c.blocks.iter_mut() {
                    match b {
                        Blk::Push(v) | Blk::PushBig(v) | Blk::CallAbs(v) => *v = v.wrapping_add(r.below(5)),
                        Blk::AddImm(_, k) | Blk::MulImm(_, k) => *k += 1,
                        Blk::Fib(x, ..) => *x += 1,
                        _ => {}
                    }
                }
            }
            Stmt::Cairo(c)
        }
    }
}

fn mutate_cairo(p: &mut PublicInputs, inst: &Instance, m: &PiMut) -> &'static str {
    let mut r = Rng::new(m.salt);
    let d = match r.below(4) {
        0 => fe(1),
        1 => -fe(1),
        2 => fe(r.range(1, 50)),
        _ => fe_rand(&mut r),
    };
    let row = |k: usize, c: usize| inst.trace.get(k.min(inst.trace.n_rows() - 1), c);
    let mut keys: Vec<FE> = p.public_memory.keys().cloned().collect();
    keys.sort_by_key(|k| k.representative());
    let pick = keys[m.at as usize % keys.len()];
    match m.what % 21 {
        0 => {
            p.pc_init = p.pc_init + d;
            "pc_init"
        }
        1 => {
            p.ap_init = p.ap_init + d;
            p.fp_init = p.ap_init;
            "ap_init"
        }
        2 => {
            p.fp_init = p.fp_init + d;
            "fp_init"
        }
        3 => {
            p.pc_final = p.pc_final + d;
            "pc_final"
        }
        4 => {
            p.ap_final = p.ap_final + d;
            "ap_final"
        }
        5 => {
            p.range_check_min = p.range_check_min.map(|x| x.wrapping_add(r.range(1, 65535) as u16));
            "range_check_min"
        }
        6 => {
            p.range_check_max = p.range_check_max.map(|x| x.wrapping_sub(r.range(1, 65535) as u16));
            "range_check_max"
        }
        7 => {
            p.range_check_min = None;
            "range_check_min"
        }
        8 => {
            p.range_check_max = None;
            "range_check_max"
        }
        9 => {
            // a shorter or longer execution, with the registers it would end in
            let n = inst.n();
            let k = match r.below(6) {
                0 | 1 => p.num_steps + 1,
                // rows come again beyond the end of the trace
                2 => *r.pick(&[0, n + 1, n + 1, 2 * n, n + p.num_steps, n + 2, (1usize << 32) + p.num_steps, (1usize << 63) + p.num_steps]),
                _ => r.range(1, p.num_steps as u64) as usize,
            };
            let row = |k: usize, c: usize| inst.trace.get(k % n, c);
            if k != p.num_steps {
                p.num_steps = k;
                // with both of them, or one only
                let both = r.below(4);
                if both != 1 {
                    p.pc_final = row(k.wrapping_sub(1), 19);
                }
                if both != 2 {
                    p.ap_final = row(k.wrapping_sub(1), 17);
                }
            }
            "num_steps"
        }
        10 => {
            p.num_steps = match r.below(4) {
                0 => p.num_steps + 1,
                1 => p.num_steps - 1,
                2 => inst.n(),
                _ => inst.n() + 1,
            };
            "num_steps"
        }
        11 | 12 | 13 => {
            let v = p.public_memory[&pick];
            p.public_memory.insert(pick, v + d);
            "public_memory_value"
        }
        14 => {
            let v = p.public_memory.remove(&pick).unwrap();
            p.public_memory.insert(pick + d, v);
            "public_memory_address"
        }
        15 => {
            p.public_memory.remove(&pick);
            "public_memory_removed"
        }
        16 => {
            let k = if r.chance(1, 2) { fe(keys.len() as u64 + 1) } else { fe_rand(&mut r) };
            p.public_memory.insert(k, d);
            "public_memory_added"
        }
        17 => {
            let o = keys[r.us(keys.len())];
            let (x, y) = (p.public_memory[&pick], p.public_memory[&o]);
            p.public_memory.insert(pick, y);
            p.public_memory.insert(o, x);
            "public_memory_swapped"
        }
        18 => {
            // a longer public memory, output included, that nothing proved
            let s = keys.len() as u64 + 20 + r.below(20);
            let n = r.range(1, 3);
            let out = p.memory_segments.get(&MemorySegment::Output).cloned();
            match out {
                Some(o) if !o.is_empty() => {
                    for k in 0..n {
                        p.public_memory.insert(fe(o.end + k), fe(r.below(100)));
                    }
                    p.memory_segments.insert(MemorySegment::Output, o.start..o.end + n);
                }
                _ => {
                    for k in 0..n {
                        p.public_memory.insert(fe(s + k), fe(r.below(100)));
                    }
                    p.memory_segments.insert(MemorySegment::Output, s..s + n);
                }
            }
            "output_added"
        }
        19 => {
            // an output inside the program, or overlapping its end
            let n = keys.len() as u64;
            let len = r.range(1, 4.min(n));
            let start = r.range(1, n);
            if start + len < n + 1 || start + len > n + 1 {
                p.memory_segments.insert(MemorySegment::Output, start..start + len);
            }
            "output_inside"
        }
        _ => {
            // the range check builtin appears or disappears
            if p.memory_segments.remove(&MemorySegment::RangeCheck).is_none() {
                let a = r.range(30, 60);
                p.memory_segments.insert(MemorySegment::RangeCheck, a..a + r.below(9));
            }
            "range_check_segment"
        }
    }
}

/// Changes what the verifier expects; returns the changed part, or "" if nothing.
fn mutate(pi: &mut Pi, inst: &Instance, m: &PiMut) -> &'static str {
    let mut r = Rng::new(m.salt);
    let d = if r.chance(1, 2) { fe(r.range(1, 9)) } else { fe_rand(&mut r) };
    match pi {
        Pi::Fib(p) | Pi::Fib2(p) => {
            if m.what % 3 != 0 {
                p.a0 = p.a0 + d;
            }
            if m.what % 3 != 1 {
                p.a1 = p.a1 + fe(r.range(1, 5));
            }
            "initial_values"
        }
        Pi::Quad(p) => {
            p.a0 = if m.what % 4 == 0 { -p.a0 } else { p.a0 + d };
            "initial_values"
        }
        Pi::Rap(p) => {
            match m.what % 3 {
                // the initial values are a known finding (directed below)
                0 | 1 => {
                    p.a0 = p.a0 + d;
                    return "rap_initial_values";
                }
                _ => p.steps = 2 + (m.at as usize % inst.n()),
            }
            "rap_inputs"
        }
        Pi::Dummy => "",
        Pi::Gen(p) => {
            if m.what % 2 == 0 && !p.bvals.is_empty() {
                let i = m.at as usize % p.bvals.len();
                p.bvals[i] = p.bvals[i] + d;
                return "boundary_value";
            }
            let mut s = (*p.spec).clone();
            match m.what % 8 {
                1 if !s.trs.is_empty() => {
                    let k = m.at as usize % s.trs.len();
                    s.trs[k].terms.push((r.range(1, 9) as i64, vec![]));
                }
                3 if !s.trs.is_empty() => {
                    let k = m.at as usize % s.trs.len();
                    let j = r.us(s.trs[k].terms.len());
                    s.trs[k].terms[j].0 += 1;
                }
                5 if !s.trs.is_empty() => {
                    let k = m.at as usize % s.trs.len();
                    if s.trs[k].e == 0 {
                        return "";
                    }
                    s.trs[k].e -= 1;
                }
                _ => {
                    let k = m.at as usize % s.bnds.len();
                    let to = (s.bnds[k].0, r.us(s.n()));
                    s.bnds[k] = to;
                }
            }
            p.spec = Arc::new(s);
            "constraint"
        }
        Pi::Cairo(p) => mutate_cairo(p, inst, m),
    }
}

/// Does the statement hold of the trace that was proved? `None`: decide by values.
fn still_true(pi: &Pi, inst: &Instance) -> bool {
    match pi {
        Pi::Gen(_) => zoo::reference_violations(pi, &inst.trace, None, &[]).is_empty(),
        _ => false,
    }
}
fn same_statement(a: &Pi, b: &Pi) -> bool {
    match (a, b) {
        (Pi::Fib(x), Pi::Fib(y)) | (Pi::Fib2(x), Pi::Fib2(y)) => x.a0 == y.a0 && x.a1 == y.a1,
        (Pi::Quad(x), Pi::Quad(y)) => x.a0 == y.a0,
        (Pi::Rap(x), Pi::Rap(y)) => x.steps == y.steps,
        (Pi::Dummy, Pi::Dummy) => true,
        (Pi::Gen(x), Pi::Gen(y)) => {
            let plain = |s: &zoo::GenSpec| {
                let mut s = s.clone();
                s.seed = 0;
                format!("{s:?}")
            };
            x.bvals == y.bvals && plain(&x.spec) == plain(&y.spec)
        }
        (Pi::Cairo(_), Pi::Cairo(_)) => wire::same_pi(a, b),
        _ => false,
    }
}

/// number of parts a proof is made of, and the proof with some from `b`
fn parts(p: &Proof) -> usize {
    6 + p.lde_trace_merkle_roots.len() + p.fri_layers_merkle_roots.len() + p.query_list.len() + p.deep_poly_openings.len()
}
fn splice(a: &Proof, b: &Proof, mask: &dyn Fn(usize) -> bool) -> Proof {
    let mut x = clone_proof(a);
    let mut k = 0;
    let mut on = || {
        k += 1;
        mask(k - 1)
    };
    if on() {
        x.trace_ood_frame_evaluations = b.trace_ood_frame_evaluations.clone();
    }
    if on() {
        x.composition_poly_root = b.composition_poly_root;
    }
    if on() {
        x.composition_poly_even_ood_evaluation = b.composition_poly_even_ood_evaluation;
    }
    if on() {
        x.composition_poly_odd_ood_evaluation = b.composition_poly_odd_ood_evaluation;
    }
    if on() {
        x.fri_last_value = b.fri_last_value;
    }
    if on() {
        x.nonce = b.nonce;
    }
    macro_rules! list {
        ($f:ident) => {
            for i in 0..x.$f.len() {
                if on() {
                    if let Some(v) = b.$f.get(i) {
                        x.$f[i] = v.clone();
                    }
                }
            }
        };
    }
    list!(lde_trace_merkle_roots);
    list!(fri_layers_merkle_roots);
    list!(query_list);
    list!(deep_poly_openings);
    x
}

/// Challenges drawn between two appends, for each stretch of the transcript.
fn stretches(log: &[T]) -> Vec<Vec<[u8; 32]>> {
    let mut v = vec![vec![]];
    for t in log {
        match t {
            T::A(_) => {
                if v.last().map_or(false, |x: &Vec<[u8; 32]>| !x.is_empty()) {
                    v.push(vec![])
                }
            }
            T::C(c) => v.last_mut().unwrap().push(*c),
        }
    }
    v
}
struct Fixed([u8; 32]);
impl lambdaworks_crypto::fiat_shamir::transcript::Transcript for Fixed {
    fn append(&mut self, _: &[u8]) {}
    fn challenge(&mut self) -> [u8; 32] {
        self.0
    }
}
fn felt(c: &[u8; 32]) -> FE {
    lambdaworks_stark::starks::transcript::transcript_to_field(&mut Fixed(*c))
}
/// For a proof of `pi`, an exchange of two boundary values that leaves the
/// boundary term of the composition unchanged: (delta of the second) for delta 1 of the first.
/// `rows` are the steps of the two constraints, `ix` their numbers.
fn compensate(log: &[T], nb: usize, skip: usize, ix: [usize; 2], rows: [usize; 2], n: usize, adj: u64) -> FE {
    use lambdaworks_math::field::traits::IsFFTField;
    let st = stretches(log);
    let s: Vec<FE> = st[skip].iter().map(felt).collect();
    let off = if skip == 0 { 0 } else { 0 };
    let (al, be) = (&s[off..off + nb], &s[off + nb..off + 2 * nb]);
    let z = felt(st[skip + 1].last().unwrap());
    let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
    let c = |k: usize| (al[ix[k]] * z.pow(adj) + be[ix[k]]) * (z - g.pow(rows[k])).inv();
    -(c(0) * c(1).inv())
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run proves two related random statements; the simulated network hands each proof to verifiers that expect something else (every public input changed alone \
                   and together, the other session's statement, another AIR) and mixes parts of the two proofs; non-trivial if at least one such delivery was judged",
            level: "exploration",
            real: &["prover", "verifier", "AIRs", "Cairo runner pipeline"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "the network"],
            assumptions: &["accidental passes at the query positions do not occur", "statements differ in their values, not only in how they are written down"],
            state_measure: "hash of (kind of statement, changed inputs or spliced parts, verdict)",
            time_unit: "deliveries",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 5000 } else { 200000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "rejected:pc_init", "rejected:ap_init", "rejected:fp_init", "rejected:pc_final", "rejected:ap_final", "rejected:range_check_min",
            "rejected:range_check_max", "rejected:num_steps", "rejected:public_memory_value", "rejected:public_memory_address",
            "rejected:public_memory_removed", "rejected:public_memory_added", "rejected:public_memory_swapped", "rejected:output_added", "rejected:output_inside",
            "rejected:range_check_segment", "rejected:initial_values", "rejected:rap_inputs", "rejected:boundary_value", "rejected:constraint",
            "rejected:splice", "rejected:other_session", "rejected:other_air",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.q = *r.pick(&[1, 2, 3, 3, 5]);
        let directed = if idx < 10 { 1 + (idx % 5) as u8 } else { 0 };
        let a = match directed {
            1 => Stmt::Fib { a0: r.range(1, 99), a1: r.range(1, 99), log: 4 },
            2 | 3 | 4 => Stmt::Cairo(CairoSpec {
                blocks: vec![Blk::Push(r.below(99)), Blk::Rc(vec![r.next(), r.below(9)], 0), Blk::Fib(1, 1, 3)],
                rc: directed == 3,
                out: false,
                pub_out: false,
                v1: false,
                end_jump: false,
            }),
            5 => Stmt::Rap { steps: 12, a0: 1, a1: 1 },
            _ => zoo::random_stmt(&mut r, opts.b as usize, 5, 4),
        };
        let b = sibling(&a, &mut r);
        let muts = (0..30)
            .map(|_| (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| PiMut { what: r.next() as u8, at: r.next(), salt: r.next() }).collect())
            .collect();
        let splices = (0..30).map(|_| r.next()).collect();
        val(&Case { a, b, opts, muts, splices, directed })
    }
    fn exec(&self, case: &Value) -> RunOut {
        let c: Case = parse(case);
        let mut out = RunOut::default();
        let (Ok(ia), Ok(ib)) = (zoo::build(&c.a), zoo::build(&c.b)) else {
            out.stat("no_statement");
            return out;
        };
        let (Ok(pa), Ok(pb)) = (ia.prove(&c.opts), ib.prove(&c.opts)) else {
            out.stat("no_proof");
            return out;
        };
        let po = c.opts.po();
        let kind = ia.pi.kind();
        out.ev(hash_bytes(&proof_canon(&pa)));
        out.stat(&format!("statements:{kind}"));
        // a trace of zeros proves every statement that holds of it in the same way
        let flat = |p: &Proof| p.query_list.iter().all(|q| q.layers_evaluations.iter().all(|e| *e == FE::zero()));
        if flat(&pa) || flat(&pb) {
            out.stat("constant_trace_skipped");
            return out;
        }
        let mut count = 0;
        let mut note = |out: &mut RunOut, what: &str, v: &Verdict| {
            count += 1;
            out.sim_time += 1;
            out.evs(&v.s());
            out.state(mix(hash_bytes(what.as_bytes()) ^ hash_bytes(kind.as_bytes()) << 1 ^ (*v == Verdict::Accept) as u64 ^ (c.opts.b as u64) << 20));
            if *v == Verdict::Reject {
                out.stat(&format!("rejected:{}", what.split('+').next().unwrap()));
            }
            if matches!(v, Verdict::Panic(_)) {
                out.stat("verifier_panicked");
            }
        };
        // the statement changed
        for ms in &c.muts {
            let mut pi = ia.pi.clone();
            let names: Vec<&str> = ms.iter().map(|m| mutate(&mut pi, &ia, m)).filter(|s| !s.is_empty()).collect();
            if let (Pi::Cairo(q), Pi::Cairo(p)) = (&mut pi, &ia.pi) {
                // where the segment lies is a known finding of its own (directed below)
                if let (Some(x), Some(y)) = (q.memory_segments.get_mut(&MemorySegment::RangeCheck), p.memory_segments.get(&MemorySegment::RangeCheck)) {
                    *x = y.clone();
                }
            }
            if same_statement(&pi, &ia.pi) || still_true(&pi, &ia) {
                out.stat("same_statement");
                continue;
            }
            let what = names.join("+");
            let v = pi.check(&pa, &po);
            note(&mut out, &what, &v);
            if v == Verdict::Accept {
                out.bad(&format!("other-statement-accepted:{}", names[0]), format!("{kind}: a proof was accepted for changed {what}; {:?}", ms));
            }
        }
        // the other session
        for (x, y, p) in [(&ia, &ib, &pa), (&ib, &ia, &pb)] {
            if !same_statement(&x.pi, &y.pi) && !(matches!(y.pi, Pi::Gen(_)) && still_true(&y.pi, x)) {
                let v = y.pi.check(p, &po);
                note(&mut out, "other_session", &v);
                if v == Verdict::Accept {
                    out.bad("other-session-accepted", format!("{kind}: a proof of {:?} was accepted for {:?}", x.stmt, y.stmt));
                }
            }
        }
        // another AIR altogether
        for s in [
            Stmt::Fib { a0: 1, a1: 1, log: 3 },
            Stmt::Fib2 { a0: 1, a1: 1, log: 3 },
            Stmt::Quad { a0: 3, log: 3 },
            Stmt::Rap { steps: 3, a0: 1, a1: 1 },
            Stmt::Dummy { log: 3 },
        ] {
            let Ok(o) = zoo::build(&s) else { continue };
            if o.pi.kind() == kind {
                continue;
            }
            let v = o.pi.check(&pa, &po);
            note(&mut out, "other_air", &v);
            if v == Verdict::Accept {
                out.bad("other-air-accepted", format!("a proof for {kind} was accepted for {}", o.pi.kind()));
            }
        }
        // parts of both
        if !same_statement(&ia.pi, &ib.pi) {
            let n = parts(&pa);
            let full: Vec<Box<dyn Fn(usize) -> bool>> = (0..n)
                .flat_map(|i| {
                    let f: [Box<dyn Fn(usize) -> bool>; 2] = [Box::new(move |k| k == i), Box::new(move |k| k != i)];
                    f
                })
                .chain(c.splices.iter().map(|m| {
                    let m = *m;
                    let f: Box<dyn Fn(usize) -> bool> = Box::new(move |k| mix(m ^ k as u64) & 1 == 1);
                    f
                }))
                .collect();
            for (i, f) in full.iter().enumerate() {
                if i >= 2 * n + c.splices.len() || (i < 2 * n && c.splices.is_empty()) {
                    continue;
                }
                let x = splice(&pa, &pb, f);
                for (y, own) in [(&ia, &pa), (&ib, &pb)] {
                    let v = y.pi.check(&x, &po);
                    note(&mut out, "splice", &v);
                    if v == Verdict::Accept && !wire::equivalent(&y.pi, &x, own, &c.opts, y.n()) {
                        out.bad("spliced-accepted", format!("{kind}: a mixture of two proofs (mask {i}) was accepted; {:?} and {:?}", ia.stmt, ib.stmt));
                    }
                }
            }
        }
        // public inputs are not part of the transcript: solve for another statement
        let shape = ia.pi.shape(ia.n(), &po);
        match (c.directed, &ia.pi) {
            (1, Pi::Fib(p)) => {
                let (_, log) = record(|| ia.pi.check(&pa, &po));
                let d = compensate(&log, 2, 0, [0, 1], [0, 1], ia.n(), 0);
                let mut q = p.clone();
                q.a0 = q.a0 + fe(1);
                q.a1 = q.a1 + d;
                if Pi::Fib(q).check(&pa, &po) == Verdict::Accept {
                    out.bad("weak-fiat-shamir:fibonacci", "a proof was accepted for other initial values, computed from its own challenges");
                }
            }
            (2, Pi::Cairo(p)) => {
                let (_, log) = record(|| ia.pi.check(&pa, &po));
                // constraints in order: pc at row 0, ap at row 0, pc and ap at the last step, ...
                let d = compensate(&log, 8, 1, [0, 2], [0, p.num_steps - 1], ia.n(), ia.n() as u64);
                let mut q = p.clone();
                q.pc_init = q.pc_init + fe(1);
                q.pc_final = q.pc_final + d;
                if Pi::Cairo(q).check(&pa, &po) == Verdict::Accept {
                    out.bad("weak-fiat-shamir:cairo", "a Cairo proof was accepted for another initial and final pc, computed from its own challenges");
                }
                let _ = shape;
            }
            (5, Pi::Rap(p)) => {
                let mut q = p.clone();
                q.a0 = q.a0 + fe(1);
                if Pi::Rap(q).check(&pa, &po) == Verdict::Accept {
                    out.bad("rap-initial-values-unbound", "a Fibonacci RAP proof was accepted with another public initial value");
                }
            }
            (3, Pi::Cairo(p)) => {
                let mut q = p.clone();
                if let Some(x) = q.memory_segments.get_mut(&MemorySegment::RangeCheck) {
                    *x = x.start + 5..x.end + 9;
                    if Pi::Cairo(q).check(&pa, &po) == Verdict::Accept {
                        out.bad("segment-range-unbound:range_check", "a Cairo proof was accepted with another range check segment");
                    }
                }
            }
            (4, Pi::Cairo(p)) => {
                let mut q = p.clone();
                let n = q.public_memory.len() as u64;
                q.memory_segments.insert(MemorySegment::Output, n - 1..n + 1);
                if Pi::Cairo(q).check(&pa, &po) == Verdict::Accept {
                    out.bad("segment-range-unbound:output", "a Cairo proof was accepted with the end of the program claimed to be its output");
                }
            }
            _ => {}
        }
        out.nontrivial = count > 0;
        out.sample = format!("{kind} n={} {:?}: {} deliveries to the wrong verifier or mixed", ia.n(), c.opts, count);
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut o = shrink_arrays(case, &["muts", "splices"]);
        let c: Case = parse(case);
        for i in 0..c.muts.len() {
            for j in 0..c.muts[i].len() {
                if c.muts[i].len() > 1 {
                    let mut x = c.clone();
                    x.muts[i].remove(j);
                    o.push(val(&x));
                }
            }
        }
        o.extend(shrink_arrays(case, &["blocks"]));
        o
    }
}
