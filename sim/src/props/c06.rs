//! The conversation with the transcript: prover and verifier absorb the same
//! messages and draw the same challenges, each challenge depends on every
//! message before it and on none after it, and every challenge is used.
use crate::core::*;
use crate::mutate::{self, Slot};
use crate::props::{parse, val};
use crate::refproto::{self, Plan};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Instance, Pi, Stmt};
use lambdaworks_crypto::sim::{set_hook, Event};
use lambdaworks_math::field::traits::IsFFTField;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;
use std::rc::Rc;

pub struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    muts: Vec<Ev>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    /// one message of the proof arrives with another content
    Change { at: u64, salt: u64 },
    /// the prover reads a challenge wrongly
    Prover { at: u64, fault: Fault },
    /// the verifier reads a challenge wrongly
    Verifier { at: u64, fault: Fault },
    /// the transcript yields an extreme value to both
    Both { at: u64, fault: Fault },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    Bit(u8),
    Zero,
    Ones,
    Noise(u64),
    /// the challenge before
    Stale,
    /// an element of the trace domain
    Root(u64),
    /// an element of the evaluation domain
    Coset(u64),
    /// the out-of-domain point takes a value it must not take, several times over
    Streak(u64),
}

/// Runs `f` while challenge number `at` (and for a streak the next ones) is
/// replaced.
fn with_fault<R>(at: usize, fault: &Fault, n: usize, o: &Opts, f: impl FnOnce() -> R) -> R {
    let k = Rc::new(Cell::new(0usize));
    let prev = Rc::new(Cell::new([0u8; 32]));
    let (fault, o) = (fault.clone(), o.clone());
    set_hook(Some(Box::new(move |e| {
        if let Event::Challenge(_, c) = e {
            let i = k.get();
            k.set(i + 1);
            let honest = *c;
            let span = if let Fault::Streak(_) = fault { 3 } else { 1 };
            if i >= at && i < at + span {
                let lde = n * o.b as usize;
                let power = |size: usize, e: u64| F::get_primitive_root_of_unity(size.trailing_zeros() as u64).unwrap().pow(e % size as u64);
                match &fault {
                    Fault::Bit(b) => c[*b as usize / 8] ^= 1 << (b % 8),
                    Fault::Zero => *c = [0; 32],
                    Fault::Ones => *c = [255; 32],
                    Fault::Noise(s) => *c = Rng::new(*s).bytes32(),
                    Fault::Stale => *c = prev.get(),
                    Fault::Root(e) => *c = power(n, *e).to_bytes_be().try_into().unwrap(),
                    Fault::Coset(e) => *c = (fe(o.c) * power(lde, *e)).to_bytes_be().try_into().unwrap(),
                    Fault::Streak(e) => {
                        let x = if (i - at) % 2 == 0 { fe(o.c) * power(lde, *e) } else { power(n, *e) };
                        *c = x.to_bytes_be().try_into().unwrap();
                    }
                }
            }
            prev.set(honest);
        }
    })));
    let r = f();
    set_hook(None);
    r
}

/// Absorbed bytes and challenges, without regard to how the bytes were portioned.
fn talk(log: &[T]) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for t in log {
        match (v.last_mut(), t) {
            (Some(T::A(a)), T::A(b)) => a.extend(b),
            _ => v.push(t.clone()),
        }
    }
    v
}
fn drawn(log: &[T]) -> Vec<[u8; 32]> {
    log.iter().filter_map(|t| if let T::C(c) = t { Some(*c) } else { None }).collect()
}

/// Numbers of challenges between the messages.
struct Order {
    rap: usize,
    coeffs: usize,
    deep: usize,
    layers: usize,
    queries: usize,
}
fn order(pi: &Pi, n: usize, o: &Opts) -> Order {
    let s = pi.shape(n, &o.po());
    let rap = match pi {
        Pi::Cairo(_) => 3,
        Pi::Rap(_) => 1,
        Pi::Gen(p) if p.spec.aux => 1,
        _ => 0,
    };
    let (nb, nt) = refproto::counts(pi, n, o);
    Order { rap, coeffs: 2 * nb + 2 * nt, deep: 2 + s.cols * s.offs.len(), layers: n.trailing_zeros() as usize, queries: o.q }
}
impl Order {
    fn total(&self) -> usize {
        self.rap + self.coeffs + 1 + self.deep + self.layers + 1 + self.queries
    }
    fn z(&self) -> usize {
        self.rap + self.coeffs
    }
    /// number of the first challenge that depends on this message
    fn first(&self, place: &str, k: usize) -> Option<usize> {
        let z = self.z();
        Some(match place {
            "trace_root" if k == 0 => 0,
            "trace_root" => self.rap,
            "composition_root" => z,
            "composition_even_ood" | "composition_odd_ood" | "ood_frame" => z + 1,
            "fri_root" => z + 1 + self.deep + k,
            "fri_last_value" => z + 1 + self.deep + self.layers,
            "nonce" => z + 2 + self.deep + self.layers,
            _ => return None,
        })
    }
    fn name(&self, i: usize) -> &'static str {
        let z = self.z();
        if i < self.rap {
            "rap"
        } else if i < z {
            "constraint coefficient"
        } else if i == z {
            "z"
        } else if i < z + 3 {
            "composition gamma"
        } else if i < z + 1 + self.deep {
            "trace gamma"
        } else if i < z + 1 + self.deep + self.layers {
            "zeta"
        } else if i == z + 1 + self.deep + self.layers {
            "grinding"
        } else {
            "query"
        }
    }
}

fn change(s: Slot, r: &mut Rng) {
    match s {
        Slot::Felt(x) => *x = *x + fe(r.range(1, 9)),
        Slot::Com(c) => c[r.us(32)] ^= 1 << r.below(8),
        Slot::Len(x) => *x += 1,
        Slot::Nonce(x) => *x ^= 1 << r.below(64),
    }
}

fn pick_fault(r: &mut Rng) -> Fault {
    match r.below(8) {
        0..=3 => Fault::Bit(r.below(256) as u8),
        4 => Fault::Zero,
        5 => Fault::Ones,
        6 => Fault::Stale,
        _ => Fault::Noise(r.next()),
    }
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run records what prover and verifier exchange with their transcripts over one random statement, changes messages of the proof and single challenges (of one side or both) at the \
                   transcript seam, and compares all challenges and outcomes with the prescribed order and with independent implementations of both sides; non-trivial if messages and challenges were altered",
            level: "exploration",
            real: &["prover", "verifier", "challenge sampling", "AIRs"],
            stub: &["lambdaworks-math / lambdaworks-crypto (the transcript is the seam)", "cairo-vm"],
            assumptions: &["Keccak-256 behaves as a random oracle", "public inputs are not absorbed (known finding of C03)"],
            state_measure: "hash of (kind of statement, challenge or message altered, kind of fault, checks failed, verdict)",
            time_unit: "transcript sessions",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3000 } else { 80000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "changed:trace_root", "changed:composition_root", "changed:composition_even_ood", "changed:composition_odd_ood", "changed:ood_frame", "changed:fri_root", "changed:fri_last_value",
            "changed:nonce", "changed:opening", "prover:rap", "prover:constraint coefficient", "prover:z", "prover:composition gamma", "prover:trace gamma", "prover:zeta", "prover:query",
            "verifier:rap", "verifier:constraint coefficient", "verifier:z", "verifier:composition gamma", "verifier:trace gamma", "verifier:zeta", "verifier:grinding", "verifier:query",
            "large_domain", "unused_bits", "z_drawn_again", "both:accepted",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        if idx % 500 == 9 {
            // an evaluation domain of more than 2^16 points
            let opts = Opts { b: 128, q: 8, c: 3, g: 1 };
            let stmt = Stmt::Fib { a0: r.next(), a1: r.next(), log: 10 + (idx / 500 % 2) as u32 };
            let mut muts = vec![Ev::Both { at: u64::MAX, fault: Fault::Ones }];
            for _ in 0..5 {
                muts.push(Ev::Change { at: r.next(), salt: r.next() });
            }
            for _ in 0..6 {
                muts.push(Ev::Verifier { at: r.next(), fault: pick_fault(&mut r) });
            }
            return val(&Case { stmt, opts, muts });
        }
        let mut opts = zoo::random_opts(&mut r);
        opts.b = *r.pick(&[2, 4, 4, 4, 8]);
        opts.g = *r.pick(&[0, 1, 1, 3, 5]);
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, 5, 1);
        let cairo = matches!(stmt, Stmt::Cairo(_));
        if cairo {
            opts.b = 4;
        }
        let mut muts = vec![];
        // the messages come first in visit order
        for _ in 0..20 {
            muts.push(Ev::Change { at: r.next(), salt: r.next() });
        }
        for _ in 0..if cairo { 2 } else { 5 } {
            muts.push(Ev::Prover { at: r.next(), fault: pick_fault(&mut r) });
        }
        for _ in 0..8 {
            muts.push(Ev::Verifier { at: r.next(), fault: pick_fault(&mut r) });
        }
        for _ in 0..if cairo { 1 } else { 3 } {
            let fault = match r.below(6) {
                0 => Fault::Root(r.next()),
                1 => Fault::Coset(r.next()),
                2 => Fault::Streak(r.next()),
                3 => Fault::Zero,
                4 => Fault::Ones,
                _ => Fault::Stale,
            };
            muts.push(Ev::Both { at: r.next(), fault });
        }
        val(&Case { stmt, opts, muts })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        let inst = match zoo::build(&c.stmt) {
            Ok(i) => i,
            Err(e) => {
                out.evs(&e);
                return out;
            }
        };
        if let Err(e) = run(&inst, &c, &mut out) {
            out.harness_error = Some(e);
        }
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["muts", "trs", "bnds", "blocks"])
    }
}

fn run(inst: &Instance, c: &Case, out: &mut RunOut) -> Result<(), String> {
    let (kind, n, o, po) = (inst.pi.kind(), inst.n(), &c.opts, c.opts.po());
    let ord = order(&inst.pi, n, o);
    let (p, plog) = record(|| inst.prove(o));
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            // C01 decides whether this statement should have been proved
            out.evs(&e);
            out.stat("not_proved");
            return Ok(());
        }
    };
    let (v, vlog) = record(|| inst.pi.check(&p, &po));
    out.sim_time += 2;
    let what = format!("{kind}, {n} rows, {o:?}");
    let (ptalk, vtalk) = (talk(&plog), talk(&vlog));
    if ptalk != vtalk {
        let i = ptalk.iter().zip(&vtalk).position(|(a, b)| a != b).unwrap_or(ptalk.len().min(vtalk.len()));
        let s = |t: &[T]| match t.get(i) {
            None => "nothing".to_string(),
            Some(T::A(b)) => format!("absorbs {} bytes", b.len()),
            Some(T::C(_)) => "draws a challenge".into(),
        };
        out.bad("conversations-differ", format!("exchange {i}: the prover {}, the verifier {} (verdict {}); {what}", s(&ptalk), s(&vtalk), v.s()));
        return Ok(());
    }
    let base = drawn(&vlog);
    if base.len() != ord.total() {
        out.bad("number-of-challenges", format!("{} challenges are drawn, the protocol prescribes {}; {what}", base.len(), ord.total()));
        return Ok(());
    }
    let distinct: std::collections::BTreeSet<_> = base.iter().collect();
    if distinct.len() != base.len() {
        out.bad("challenge-repeated", format!("a challenge occurs twice; {what}"));
    }
    // every message of the proof is absorbed, in the prescribed gap
    let mut gaps: Vec<Vec<u8>> = vec![vec![]];
    for t in &vtalk {
        match t {
            T::A(b) => gaps.last_mut().unwrap().extend(b),
            T::C(_) => gaps.push(vec![]),
        }
    }
    let mut want = vec![vec![]; base.len() + 1];
    let mut fri = 0;
    let mut roots = 0;
    let mut x = clone_proof(&p);
    // values at z come after the two halves of the composition
    for (place, first) in [("composition_even_ood", ord.z() + 1), ("composition_odd_ood", ord.z() + 1)] {
        mutate::visit(&mut x, &mut |name, s| {
            if name == place {
                if let Slot::Felt(f) = s {
                    want[first].extend(f.to_bytes_be());
                }
            }
        });
    }
    mutate::visit(&mut x, &mut |name, s| {
        let k = match name {
            "fri_root" => {
                fri += 1;
                fri - 1
            }
            "trace_root" => {
                roots += 1;
                roots - 1
            }
            "composition_even_ood" | "composition_odd_ood" => return,
            _ => 0,
        };
        if let Some(i) = ord.first(name, k) {
            match s {
                Slot::Felt(f) => want[i].extend(f.to_bytes_be()),
                Slot::Com(c) => want[i].extend(*c),
                Slot::Nonce(x) => want[i].extend(x.to_be_bytes()),
                _ => {}
            }
        }
    });
    for i in 0..base.len() {
        if gaps[i] != want[i] {
            out.bad(
                "other-messages",
                format!("before challenge {i} ({}) {} bytes are absorbed, prescribed are {} other bytes; {what}", ord.name(i), gaps[i].len(), want[i].len()),
            );
        }
    }
    let names = mutate::places(&p);
    let messages: Vec<usize> = (0..names.len()).filter(|i| ord.first(&names[*i], 0).is_some()).collect();
    let singles: Vec<usize> = messages.iter().cloned().filter(|i| names[*i] != "ood_frame" && names[*i] != "fri_root").collect();
    let mut altered = 0;
    for m in &c.muts {
        match m {
            Ev::Change { at, salt } => {
                let mut r = Rng::new(*salt);
                let which = match r.below(8) {
                    0 => (at % names.len() as u64) as usize,
                    1..=4 => singles[(at % singles.len() as u64) as usize],
                    _ => messages[(at % messages.len() as u64) as usize],
                };
                if names[which] == "trace_length" {
                    continue;
                }
                let k = names[..which].iter().filter(|s| **s == names[which]).count();
                let mut x = clone_proof(&p);
                let mut i = 0;
                mutate::visit(&mut x, &mut |_, s| {
                    if i == which {
                        change(s, &mut r);
                    }
                    i += 1;
                });
                let (v, log) = record(|| inst.pi.check(&x, &po));
                out.sim_time += 1;
                altered += 1;
                let now = drawn(&log);
                let first = ord.first(&names[which], k);
                out.stat(&format!("changed:{}", if first.is_some() { names[which].as_str() } else { "opening" }));
                let first = first.unwrap_or(usize::MAX);
                for i in 0..now.len().max(base.len()) {
                    let (Some(a), Some(b)) = (base.get(i), now.get(i)) else {
                        // a verifier that gives up early draws fewer
                        if now.len() > base.len() || v != Verdict::Reject {
                            out.bad("number-of-challenges", format!("{} challenges instead of {} after a change of {}; {what}", now.len(), base.len(), names[which]));
                        }
                        break;
                    };
                    if i < first && a != b {
                        out.bad("depends-on-the-future", format!("challenge {i} ({}) depends on {} {k}, which is sent later; {what}", ord.name(i), names[which]));
                        break;
                    }
                    if i >= first && a == b {
                        out.bad("does-not-depend", format!("challenge {i} ({}) does not depend on {} {k}; {what}", ord.name(i), names[which]));
                        break;
                    }
                }
                out.state(hash_bytes(format!("{kind} change {} {}", names[which], v.s()).as_bytes()));
                out.ev(now.iter().fold(which as u64, |h, c| mix(h ^ hash_bytes(c))));
            }
            Ev::Prover { at, fault } => {
                let i = aim(*at, &ord);
                if ord.name(i) == "rap" && matches!(fault, Fault::Zero | Fault::Ones | Fault::Stale) {
                    continue;
                }
                let y = with_fault(i, fault, n, o, || inst.prove(o));
                let y2 = with_fault(i, fault, n, o, || refproto::prove(&inst.pi, &inst.trace, None, o, &Plan::honest()));
                out.sim_time += 1;
                let what = format!("the prover reads challenge {i} ({}) wrongly, {fault:?}; {what}", ord.name(i));
                let (y, y2) = match (y, y2) {
                    (Ok(y), Ok(z)) => (y, z),
                    (Err(a), Err(_)) => {
                        out.evs(&a);
                        continue;
                    }
                    (Err(a), Ok(_)) => {
                        out.bad("prover-fails", format!("{a}: {what}"));
                        continue;
                    }
                    (Ok(_), Err(b)) => return Err(format!("independent prover: {b}: {what}")),
                };
                if proof_canon(&y) != proof_canon(&y2) {
                    out.bad("challenge-misused", format!("the proof is not the one that answers this challenge: {what}"));
                }
                judge(inst, o, &y, out, &format!("prover:{}", ord.name(i)), &what, None)?;
                if proof_canon(&y) == proof_canon(&p) {
                    out.stat("unused_bits");
                }
                altered += 1;
            }
            Ev::Verifier { at, fault } => {
                let i = aim(*at, &ord);
                let what = format!("the verifier reads challenge {i} ({}) wrongly, {fault:?}; {what}", ord.name(i));
                judge(inst, o, &p, out, &format!("verifier:{}", ord.name(i)), &what, Some((i, fault)))?;
                altered += 1;
            }
            Ev::Both { at, fault } => {
                let i = match fault {
                    Fault::Root(_) | Fault::Coset(_) | Fault::Streak(_) => ord.z(),
                    _ => ord.rap + (at % (ord.total() - ord.rap) as u64) as usize,
                };
                // the same challenge for both coefficients is legitimate, but the
                // grinding challenge does not matter
                let y = with_fault(i, fault, n, o, || inst.prove(o));
                let what = format!("challenge {i} ({}) is {fault:?} for both; {what}", ord.name(i));
                let y = match y {
                    Ok(y) => y,
                    Err(e) => {
                        out.bad("prover-fails", format!("{e}: {what}"));
                        continue;
                    }
                };
                if i == ord.z() && matches!(fault, Fault::Root(_) | Fault::Coset(_) | Fault::Streak(_)) {
                    out.stat("z_drawn_again");
                }
                let (fails, verdict) = (
                    with_fault(i, fault, n, o, || refproto::verify(&inst.pi, &y, o)).map_err(|e| format!("independent verifier: {e}: {what}"))?,
                    with_fault(i, fault, n, o, || inst.pi.check(&y, &po)),
                );
                out.sim_time += 2;
                if !fails.is_empty() {
                    out.bad("challenge-misused", format!("the proof fails {fails:?}: {what}"));
                }
                if verdict != Verdict::Accept {
                    out.bad("verdict", format!("verdict {}: {what}", verdict.s()));
                } else {
                    out.stat("both:accepted");
                }
                out.state(hash_bytes(format!("{kind} both {} {}", ord.name(i), verdict.s()).as_bytes()));
                out.ev(hash_bytes(&proof_canon(&y)));
                altered += 1;
            }
        }
    }
    if n * o.b as usize > 1 << 16 {
        out.stat("large_domain");
    }
    out.nontrivial = altered >= 10;
    out.sample = format!("{what}: {} challenges, {altered} alterations", base.len());
    Ok(())
}

/// picks among the kinds of challenges evenly, then within the kind
fn aim(at: u64, ord: &Order) -> usize {
    let names: Vec<&str> = (0..ord.total()).map(|i| ord.name(i)).collect();
    let mut kinds = names.clone();
    kinds.dedup();
    let k = kinds[(at % kinds.len() as u64) as usize];
    let of: Vec<usize> = (0..names.len()).filter(|i| names[*i] == k).collect();
    of[((at >> 16) % of.len() as u64) as usize]
}

fn judge(inst: &Instance, o: &Opts, p: &Proof, out: &mut RunOut, tag: &str, what: &str, fault: Option<(usize, &Fault)>) -> Result<(), String> {
    let n = inst.n();
    let (fails, verdict) = match fault {
        None => (refproto::verify(&inst.pi, p, o), inst.pi.check(p, &o.po())),
        Some((i, f)) => (with_fault(i, f, n, o, || refproto::verify(&inst.pi, p, o)), with_fault(i, f, n, o, || inst.pi.check(p, &o.po()))),
    };
    let fails = fails.map_err(|e| format!("independent verifier: {e}: {what}"))?;
    out.sim_time += 1;
    match (&verdict, fails.is_empty()) {
        (Verdict::Accept, false) => out.bad("challenge-ignored", format!("accepted, though {fails:?} fail: {what}")),
        (Verdict::Reject, true) => out.bad("verdict", format!("rejected, though no check fails: {what}")),
        (Verdict::Panic(e), _) => out.bad("panic", format!("{e}: {what}")),
        _ => {}
    }
    out.stat(tag);
    out.stat(if fails.is_empty() { "without_effect" } else { "with_effect" });
    out.state(hash_bytes(format!("{} {tag} {fails:?} {}", inst.pi.kind(), verdict.s()).as_bytes()));
    out.ev(hash_bytes(format!("{tag} {fails:?} {}", verdict.s()).as_bytes()));
    Ok(())
}
