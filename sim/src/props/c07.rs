//! Every check counts: an independently written prover is accepted when it
//! follows the protocol and rejected when it deviates, also when all but one
//! of the verifier's checks are satisfied.
use crate::core::*;
use crate::props::{parse, val};
use crate::refproto::{self, Cell, Hide, Plan};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Stmt, Trace};
use lambdaworks_stark::starks::trace::TraceTable;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    /// sessions of the other prover
    muts: Vec<Session>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    /// what happened to the trace: 0 nothing, 1 a cell, 2 a column, 3 everything
    corrupt: u8,
    /// auxiliary columns filled with noise
    noise: bool,
    plan: Plan,
}

fn random_plan(r: &mut Rng, o: &Opts, layers: usize, cols: usize, aux: usize, rows: usize) -> Session {
    let l = layers.max(1);
    let cell = |r: &mut Rng| match r.below(5) {
        0 => Cell::H1,
        1 => Cell::H2,
        _ => Cell::T(r.us(rows), r.us(cols)),
    };
    let pick = r.below(20);
    let mut plan = Plan { random_h: true, forge: Some(cell(r)), solve: true, hide: Hide::Nothing, seed: r.next() };
    let mut corrupt = *r.pick(&[1u8, 1, 2, 3]);
    plan.hide = match pick {
        0 => {
            // the constraint equation is all that is wrong
            plan.forge = None;
            if o.b == 2 && r.chance(1, 2) {
                plan.random_h = false;
            }
            Hide::Nothing
        }
        1 => Hide::Nothing,
        2 => Hide::Deep,
        3 => Hide::Composition,
        4 | 5 => Hide::Column(if aux > 0 && r.chance(1, 2) { cols - aux + r.us(aux) } else { r.us(cols) }),
        6 => Hide::Claim,
        7 | 8 => Hide::Switch(r.us(l)),
        9 | 10 => Hide::Sym(r.us(l)),
        11 | 12 | 13 => Hide::Point(r.us(l)),
        14 => Hide::Grind,
        15 => Hide::Fewer(r.us(o.q)),
        16 => Hide::Elsewhere,
        17 => Hide::Extra(r.range(1, o.b.trailing_zeros().max(1) as u64) as usize),
        18 => match r.below(4) {
            0 if aux > 0 => Hide::NoAuxRoot,
            1 if aux > 0 => Hide::NoAuxPath,
            2 => Hide::FewPaths(r.us(l)),
            _ => Hide::FewSymPaths(r.us(l)),
        },
        _ => Hide::Last,
    };
    if matches!(plan.hide, Hide::NoAuxRoot | Hide::NoAuxPath) {
        plan.forge = Some(Cell::T(r.us(rows), cols - aux + r.us(aux)));
    }
    if pick != 0 && r.chance(1, 8) {
        // an out-of-domain value that is simply wrong
        plan.solve = false;
    }
    if pick != 0 && r.chance(1, 6) {
        // everything is right but for the deviation itself
        plan.random_h = false;
        plan.forge = None;
        corrupt = 0;
    }
    Session { corrupt, noise: corrupt > 0 && r.chance(1, 3), plan }
}

pub fn spoil(t: &Trace, how: u8, seed: u64) -> Trace {
    let mut r = Rng::new(seed ^ 0x5b01);
    let mut v = t.table.clone();
    let (n, w) = (t.n_rows(), t.n_cols);
    match how {
        0 => {}
        1 => {
            let i = r.us(n * w);
            v[i] = v[i] + fe(r.range(1, 5));
        }
        2 => {
            let c = r.us(w);
            (0..n).for_each(|i| v[i * w + c] = fe_rand(&mut r));
        }
        _ => v.iter_mut().for_each(|x| *x = fe_rand(&mut r)),
    }
    TraceTable::new(v, w)
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run lets a second, independently written prover node hold one honest and several deviating sessions against the repository's verifier, one random statement and \
                   configuration each; a deviation is hidden behind all checks but one; an independently written verifier says which checks fail; non-trivial if a deviating proof failed exactly one check",
            level: "exploration",
            real: &["prover", "verifier", "AIRs, transcript sampling, domain, frames", "Merkle and FRI verification"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "the deviating prover (own code)"],
            assumptions: &["traces up to 2^8 rows", "the statement (AIR) is shared by both implementations; C05 judges it"],
            state_measure: "hash of (kind of statement, deviation, forged value, checks failed, verdict)",
            time_unit: "sessions",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4000 } else { 100000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "same_bytes", "alone:constraints at z", "alone:DEEP composition", "alone:composition opening", "alone:main trace opening", "alone:auxiliary trace opening",
            "alone:layer opening", "alone:layer partner opening", "alone:fold", "alone:last value", "alone:proof of work", "alone:number of queries", "alone:number of layers",
            "alone:number of trace commitments", "alone:openings of the trace", "alone:openings of layers", "lucky_accepted",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, _idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.b = *r.pick(&[2, 2, 4, 4, 4, 8]);
        opts.q = *r.pick(&[1, 1, 1, 2, 3, 5]);
        opts.g = *r.pick(&[0, 1, 1, 2, 3, 5]);
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, 5, 1);
        let cairo = matches!(stmt, Stmt::Cairo(_));
        if cairo {
            opts.b = 4;
        }
        let mut muts = vec![Session { corrupt: 0, noise: false, plan: Plan::honest() }];
        let sh = zoo::build(&stmt).ok().map(|i| (i.n(), i.pi.shape(i.n(), &opts.po())));
        if let Some((n, sh)) = sh {
            for _ in 0..if cairo { 4 } else { 14 } {
                muts.push(random_plan(&mut r, &opts, n.trailing_zeros() as usize, sh.cols, sh.aux, sh.offs.len()));
            }
        }
        val(&Case { stmt, opts, muts })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        let inst = match zoo::build(&c.stmt) {
            Ok(i) => i,
            Err(e) => {
                out.evs(&e);
                return out;
            }
        };
        let kind = inst.pi.kind();
        let po = c.opts.po();
        for m in &c.muts {
            let main = spoil(&inst.trace, m.corrupt, m.plan.seed);
            let noise = m.noise.then(|| {
                let w = inst.pi.shape(inst.n(), &po).aux.max(1);
                let mut r = Rng::new(m.plan.seed ^ 0xa0c5);
                TraceTable::new((0..w * inst.n()).map(|_| fe_rand(&mut r)).collect(), w)
            });
            let honest = m.plan == Plan::honest() && m.corrupt == 0;
            let p = match refproto::prove(&inst.pi, &main, noise.as_ref(), &c.opts, &m.plan) {
                Ok(p) => p,
                Err(e) if honest => {
                    out.harness_error = Some(format!("independent prover: {e}"));
                    return out;
                }
                Err(e) => {
                    out.stat("plans_not_carried_out");
                    out.evs(&e);
                    continue;
                }
            };
            let fails = match refproto::verify(&inst.pi, &p, &c.opts) {
                Ok(f) => f,
                Err(e) => {
                    out.harness_error = Some(format!("independent verifier: {e}"));
                    return out;
                }
            };
            let verdict = inst.pi.check(&p, &po);
            out.sim_time += 1;
            let what = format!("{kind}, {:?}, trace {}, plan {:?}", c.opts, ["right", "wrong in a cell", "wrong in a column", "random"][m.corrupt as usize & 3], m.plan);
            match (&verdict, fails.is_empty()) {
                (Verdict::Accept, false) => out.bad(&format!("accepted:{}", general(&fails[0])), format!("the verifier accepts a proof that fails: {}; {what}", fails.join(", "))),
                (Verdict::Reject, true) => out.bad("rejected", format!("the verifier rejects a proof that passes every check; {what}")),
                (Verdict::Panic(e), _) => out.bad("panic", format!("the verifier panics ({e}) on a proof that fails {fails:?}; {what}")),
                _ => {}
            }
            if honest {
                if !fails.is_empty() {
                    out.bad("own-proof", format!("a proof made from a valid trace fails {fails:?}; {what}"));
                }
                match inst.prove(&c.opts) {
                    Ok(q) => {
                        if proof_canon(&p) == proof_canon(&q) {
                            out.stat("same_bytes");
                        } else {
                            let f = refproto::verify(&inst.pi, &q, &c.opts);
                            out.bad("other-proof", format!("prover and independent prover disagree: {}; the prover's proof fails {f:?}; {what}", first_difference(&p, &q)));
                        }
                    }
                    Err(e) => out.bad("prover-failed", format!("{e}; {what}")),
                }
            } else {
                let hide = format!("{:?}", m.plan.hide);
                let hide = hide.split('(').next().unwrap().to_string();
                out.stat(&format!("deviation:{hide}"));
                if fails.is_empty() {
                    out.stat("lucky_accepted");
                } else if fails.len() == 1 {
                    out.nontrivial = true;
                    out.stat(&format!("alone:{}", general(&fails[0])));
                    out.state(hash_bytes(format!("alone {}", fails[0]).as_bytes()));
                }
                out.state(hash_bytes(format!("{kind} {hide} {:?} {fails:?} {}", m.plan.forge, verdict.s()).as_bytes()));
                if out.sample.is_empty() && fails.len() == 1 {
                    out.sample = format!("{what}: fails {fails:?}, verdict {}", verdict.s());
                }
            }
            out.ev(mix(hash_bytes(&proof_canon(&p)) ^ hash_bytes(verdict.s().as_bytes())));
        }
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["muts", "trs", "bnds", "blocks"])
    }
}

/// the name of a check without the layer it concerns
fn general(s: &str) -> String {
    let w: Vec<&str> = s.split(' ').filter(|w| w.parse::<u32>().is_err()).collect();
    w.join(" ")
}

fn first_difference(a: &Proof, b: &Proof) -> &'static str {
    if a.lde_trace_merkle_roots != b.lde_trace_merkle_roots {
        "trace commitments"
    } else if a.composition_poly_root != b.composition_poly_root {
        "composition commitment"
    } else if (a.composition_poly_even_ood_evaluation, a.composition_poly_odd_ood_evaluation) != (b.composition_poly_even_ood_evaluation, b.composition_poly_odd_ood_evaluation) {
        "composition values at z"
    } else if frame_data(&a.trace_ood_frame_evaluations) != frame_data(&b.trace_ood_frame_evaluations) {
        "trace values at z"
    } else if a.fri_layers_merkle_roots != b.fri_layers_merkle_roots {
        "layer commitments"
    } else if a.fri_last_value != b.fri_last_value {
        "last value"
    } else if a.nonce != b.nonce {
        "nonce"
    } else {
        "openings"
    }
}
