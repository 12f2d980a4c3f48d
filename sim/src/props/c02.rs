//! Integrity: between the prover and the verifier a proof passes through a
//! channel that alters it in a chosen way. Whatever is still accepted must
//! carry the same values.
use crate::core::*;
use crate::mutate::{self, Mut, Slot};
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::{self, Stmt};
use lambdaworks_math::traits::{Deserializable, Serializable};
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    /// each entry is one delivery, altered by all its changes together
    muts: Vec<Vec<Mut>>,
    /// additionally every scalar in first, first+stride, ... is changed alone
    first: u64,
    stride: u64,
    count: u64,
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run proves one random statement and delivers the proof many times through a channel that alters it: every kind of scalar, \
                   every list (drop, duplicate, reorder, resize), byte changes, cuts and splices; non-trivial if an altered proof still decoded and was judged",
            level: "exploration",
            real: &["prover", "verifier", "AIRs", "Cairo runner pipeline", "proof (de)serializers"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "the channel"],
            assumptions: &["Keccak-256 collisions and accidental passes at the query positions do not occur"],
            state_measure: "hash of (kind of statement, altered place or list operation, verdict)",
            time_unit: "deliveries",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 7000 } else { 200000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "rejected:trace_root", "rejected:ood_frame", "rejected:composition_root", "rejected:composition_even_ood",
            "rejected:composition_odd_ood", "rejected:fri_root", "rejected:fri_last_value", "rejected:fri_path_sym",
            "rejected:fri_eval_sym", "rejected:fri_path", "rejected:fri_eval", "rejected:composition_path",
            "rejected:composition_even_opening", "rejected:composition_odd_opening", "rejected:trace_path",
            "rejected:trace_opening", "rejected:nonce", "rejected:trace_length", "rejected:list", "rejected:bytes",
        ]
    }
    fn gen(&self, seed: u64, t: Tier, _idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.q = *r.pick(&[1, 2, 3, 3, 5]);
        if r.chance(1, 2) {
            opts.g = opts.g.max(1);
        }
        let ml = if t == Tier::Thorough && r.chance(1, 10) { 7 } else { 5 };
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, ml, 3);
        let muts = (0..50).map(|_| (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| mutate::random_mut(&mut r)).collect()).collect();
        let stride = r.range(1, 6);
        val(&Case { stmt, opts, muts, first: r.next(), stride, count: 80 })
    }
    fn exec(&self, case: &Value) -> RunOut {
        let c: Case = parse(case);
        let mut out = RunOut::default();
        let Ok(inst) = zoo::build(&c.stmt) else {
            out.stat("no_statement");
            return out;
        };
        let Ok(p) = inst.prove(&c.opts) else {
            out.stat("no_proof");
            return out;
        };
        let kind = inst.pi.kind();
        out.stat(&format!("proofs:{kind}"));
        let po = c.opts.po();
        let q = c.opts.q;
        let bytes = catch(|| p.serialize()).unwrap_or_default();
        out.ev(hash_bytes(&bytes));
        // a proof about constants only is the same wherever it is opened
        if p.query_list.iter().all(|q| q.layers_evaluations.iter().all(|e| *e == FE::zero())) {
            out.stat("constant_trace_skipped");
            return out;
        }
        let positions = |x: &Proof| {
            let (_, log) = record(|| inst.pi.check(x, &po));
            let lde = inst.n() as u64 * c.opts.b as u64;
            let ch: Vec<u64> = log
                .iter()
                .filter_map(|t| if let T::C(c) = t { Some(u64::from_be_bytes(c[..8].try_into().unwrap()) % lde) } else { None })
                .collect();
            ch[ch.len().saturating_sub(q)..].to_vec()
        };
        // the challenges after the nonce, in full
        let drawn = |x: &Proof| {
            let (_, log) = record(|| inst.pi.check(x, &po));
            log.iter().rev().find_map(|t| if let T::C(c) = t { Some(c.to_vec()) } else { None })
        };
        let mut judge = |out: &mut RunOut, what: &str, x: &Proof, v: Verdict| {
            out.evs(&v.s());
            out.sim_time += 1;
            let fam = what.split(' ').next().unwrap();
            let how = what.split(" salt").next().unwrap().replace(|c: char| c.is_ascii_digit(), "");
            out.state(mix(hash_bytes(how.as_bytes()) ^ hash_bytes(kind.as_bytes()) << 1 ^ (v == Verdict::Accept) as u64 ^ (c.opts.b as u64) << 20 ^ (q as u64) << 30));
            // another nonce that happens to lead to the same positions is as good
            let v = if v == Verdict::Accept && x.nonce != p.nonce && positions(x) == positions(&p) {
                let mut y = clone_proof(x);
                y.nonce = p.nonce;
                if wire::same_proof(&y, &p, q) && drawn(x) != drawn(&p) {
                    out.stat("other_nonce_same_positions");
                    return;
                }
                v
            } else {
                v
            };
            match v {
                Verdict::Accept if !wire::same_proof(x, &p, q) => {
                    out.bad(&format!("altered-accepted:{fam}"), format!("{kind}: {what}; options {:?}", c.opts))
                }
                Verdict::Accept => out.stat("same_values_accepted"),
                Verdict::Reject => out.stat(&format!("rejected:{fam}")),
                // not accepted; C08 is about this
                Verdict::Panic(_) => out.stat("verifier_panicked"),
            }
        };
        let v = inst.pi.check(&p, &po);
        judge(&mut out, "unaltered", &p, v);
        let names = mutate::places(&p);
        let n = names.len() as u64;
        let mut k = c.first % n;
        for i in 0..c.count.min(n) {
            let mut x = clone_proof(&p);
            let how = mix(c.first ^ i);
            mutate::apply_struct(&mut x, &Mut::Scalar { at: k, how: (how % 8) as u8, salt: how });
            let v = inst.pi.check(&x, &po);
            judge(&mut out, &format!("{} number {k}", names[k as usize]), &x, v);
            k = (k + c.stride) % n;
        }
        for ms in &c.muts {
            let mut x = clone_proof(&p);
            let mut any = false;
            for m in ms.iter().filter(|m| !mutate::is_byte(m)) {
                any |= mutate::apply_struct(&mut x, m);
            }
            let fam = if ms.iter().any(|m| matches!(m, Mut::List { .. })) { "list" } else { "scalars" };
            if any {
                let v = inst.pi.check(&x, &po);
                judge(&mut out, &format!("{fam} {ms:?}"), &x, v);
            }
            let bm: Vec<&Mut> = ms.iter().filter(|m| mutate::is_byte(m)).collect();
            if !bm.is_empty() {
                let mut b = if any { catch(|| x.serialize()).unwrap_or_default() } else { bytes.clone() };
                bm.iter().for_each(|m| {
                    mutate::apply_bytes(&mut b, m);
                });
                match catch(|| Proof::deserialize(&b)) {
                    Ok(Ok(y)) => {
                        let v = inst.pi.check(&y, &po);
                        judge(&mut out, &format!("bytes {ms:?}"), &y, v);
                    }
                    _ => out.stat("rejected:bytes"),
                }
            }
        }
        // the one scalar whose change may legitimately survive is none
        let mut scalars = 0u64;
        mutate::visit(&mut clone_proof(&p), &mut |_, s| {
            if !matches!(s, Slot::Len(_)) {
                scalars += 1
            }
        });
        out.add("scalars_in_proofs", scalars);
        out.nontrivial = out.sim_time > 1;
        out.sample = format!("{kind} n={} {:?}: {} altered deliveries judged", inst.n(), c.opts, out.sim_time - 1);
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let c: Case = parse(case);
        let mut o = vec![];
        for (first, count) in [(c.first, 0), (c.first, c.count / 2), (c.first, c.count.saturating_sub(1))] {
            if count != c.count {
                let mut x = c.clone();
                (x.first, x.count) = (first, count);
                o.push(val(&x));
            }
        }
        o.extend(shrink_arrays(case, &["muts"]));
        for i in 0..c.muts.len() {
            for j in 0..c.muts[i].len() {
                if c.muts[i].len() > 1 {
                    let mut x = c.clone();
                    x.muts[i].remove(j);
                    o.push(val(&x));
                }
            }
        }
        o.extend(shrink_arrays(case, &["blocks"]));
        o
    }
}
