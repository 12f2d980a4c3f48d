//! What prover and verifier report about faults: a debug build points at a
//! broken trace, a verifier that rejects says so, and nobody cries wolf.
use crate::core::*;
use crate::props::c05;
use crate::mutate;
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Pi, Trace};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use serde_json::Value;
use std::cell::Cell;

pub struct C13;

thread_local! {
    static SAID: Cell<u64> = const { Cell::new(0) };
}
/// counts what is reported as an error
struct Ears;
impl log::Log for Ears {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.level() == log::Level::Error {
            // somebody reads the message
            let _ = r.args().to_string();
            SAID.with(|s| s.set(s.get() + 1));
        }
    }
    fn flush(&self) {}
}
static EARS: Ears = Ears;

pub fn start() {
    SAID.with(|s| s.set(0));
    zoo::VALID.with(|v| v.set(None));
}
pub fn stop() -> u64 {
    SAID.with(|s| s.get())
}

#[allow(clippy::too_many_arguments)]
pub fn judge(out: &mut RunOut, kind: &str, what: &str, pi: &Pi, main: &Trace, aux: Option<&Trace>, ch: &[FE], po: &ProofOptions, p: Result<Proof, String>, said: u64) {
    let bad = zoo::reference_violations(pi, main, aux, ch);
    let valid = zoo::VALID.with(|v| v.take());
    out.sim_time += 1;
    out.nontrivial |= !bad.is_empty();
    out.state(mix(hash_bytes(format!("{kind} {what} {} {valid:?}", bad.len().min(50)).as_bytes())));
    out.ev(mix(said ^ (bad.len() as u64) << 32));
    let show = || format!("{kind}, fault {what}: {} conditions violated ({:?}), {said} errors reported, validation {valid:?}", bad.len(), bad.first());
    if let Some(v) = valid {
        out.stat(if v { "validated" } else { "found_invalid" });
        if v != bad.is_empty() {
            out.bad(if v { "broken-but-valid" } else { "sound-but-invalid" }, show());
        }
    }
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            // gave up: that is a report, too
            out.stat("prover_gave_up");
            // (it may have given up before the auxiliary columns)
            if bad.is_empty() && (aux.is_some() || !matches!(pi, Pi::Cairo(_))) {
                out.bad("sound-but-refused", format!("{e}; {}", show()));
            }
            return;
        }
    };
    match (bad.is_empty(), said == 0) {
        (true, true) => out.stat("silent"),
        (false, false) => {
            out.stat("reported");
            if bad.len() == 1 {
                out.stat("single_violation_reported");
            }
        }
        (true, false) => out.bad("false-alarm", show()),
        (false, true) => out.bad("not-reported", show()),
    }
    out.ev(hash_bytes(&proof_canon(&p)));
    SAID.with(|s| s.set(0));
    let v = pi.check(&p, po);
    let heard = stop();
    match v {
        Verdict::Accept if heard > 0 => out.bad("accepted-with-errors", format!("the verifier accepts but reports {heard} errors; {}", show())),
        Verdict::Reject if heard == 0 => out.bad("rejected-silently", format!("the verifier rejects and does not say why; {}", show())),
        Verdict::Accept => out.stat("accepted_silently"),
        Verdict::Reject => out.stat("rejection_reported"),
        _ => out.stat("verifier_failed"),
    }
    // the same for what happens to a proof on its way, or to the options
    let mut r = Rng::new(hash_bytes(&proof_canon(&p)));
    for k in 0..if bad.is_empty() { 8 } else { 1 } {
        let mut x = clone_proof(&p);
        let mut o = po.clone();
        let what = match r.below(12) {
            0 => {
                x.query_list.truncate(o.fri_number_of_queries - 1);
                "missing answer".to_string()
            }
            1 => {
                o.fri_number_of_queries += 1 + r.us(3);
                "more queries demanded".to_string()
            }
            2 => {
                o.grinding_factor += 1 + r.below(9) as u8;
                "more work demanded".to_string()
            }
            3 => {
                o.coset_offset += 2;
                "other coset".to_string()
            }
            4 => {
                x.nonce = r.next();
                "nonce".to_string()
            }
            5 => {
                x.deep_poly_openings.truncate(o.fri_number_of_queries - 1);
                "missing opening".to_string()
            }
            _ => {
                let m = mutate::random_mut(&mut r);
                if mutate::is_byte(&m) || !mutate::apply_struct(&mut x, &m) {
                    continue;
                }
                format!("{m:?}")
            }
        };
        SAID.with(|s| s.set(0));
        let v = pi.check(&x, &o);
        let heard = stop();
        out.evs(&v.s());
        out.sim_time += 1;
        match v {
            Verdict::Accept if heard > 0 => out.bad("accepted-with-errors", format!("the verifier accepts but reports {heard} errors; {what}; {}", show())),
            Verdict::Reject if heard == 0 => out.bad("rejected-silently", format!("the verifier rejects and does not say why; {what} (alteration {k}); {}", show())),
            Verdict::Reject => out.stat("altered_rejection_reported"),
            Verdict::Accept => out.stat("altered_accepted"),
            _ => out.stat("verifier_failed"),
        }
    }
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run of the debug build injects faults into the prover's memory as for C05 (trace cells, registers, accesses, running products, public inputs) and listens to what prover and verifier \
                   report; an independent checker lists the violated conditions; non-trivial if a harmful fault was judged",
            level: "exploration",
            real: &["prover, trace validation and constraint evaluation of the debug build", "verifier", "AIRs", "execution trace construction", "runner"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "auxiliary columns of Cairo under faults are computed by the simulator", "the logger"],
            assumptions: &["what is reported is what is logged as an error"],
            state_measure: "hash of (kind of statement, fault kind, number of violated conditions, outcome of the validation)",
            time_unit: "proofs",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4000 } else { 60000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &["silent", "reported", "single_violation_reported", "accepted_silently", "rejection_reported", "altered_rejection_reported", "validated", "found_invalid"]
    }
    fn gen(&self, seed: u64, t: Tier, idx: u64) -> Value {
        let mut v = c05::C05.gen(seed, t, idx + 5);
        if v["stmt"].get("Cairo").is_some() {
            // as few rows as the statement allows: debug builds are slow
            v["opts"]["b"] = 4.into();
        }
        v
    }
    fn exec(&self, case: &Value) -> RunOut {
        let _ = log::set_logger(&EARS);
        log::set_max_level(log::LevelFilter::Error);
        let mut out = RunOut::default();
        if !cfg!(debug_assertions) {
            out.harness_error = Some("needs the debug build".into());
            return out;
        }
        let r = c05::inject(case, true);
        log::set_max_level(log::LevelFilter::Off);
        r
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        c05::C05.shrink(case)
    }
}
