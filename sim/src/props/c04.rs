//! Demanded security: prover and verifier nodes are configured separately, and
//! wrongly. A proof passes only where what the verifier demands was delivered.
use crate::core::*;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Stmt};
use lambdaworks_math::field::fields::u64_prime_field::F17;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sha3::{Digest, Keccak256};

pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    /// configurations of the verifying nodes
    muts: Vec<Opts>,
    /// nonces a faulty prover sends instead of its own
    nonces: Vec<u64>,
    /// operators asking for options: blowup, queries, grinding, target
    asks: Vec<(u8, u64, u8, u8)>,
    preset: Option<u8>,
    /// seed of the challenges and nonces whose work is counted
    #[serde(default)]
    counted: u64,
}

/// The proof of work, computed apart from the repository.
fn work(challenge: &[u8; 32], nonce: u64) -> u32 {
    let mut d = challenge.to_vec();
    d.extend(nonce.to_le_bytes());
    let h = Keccak256::digest(&d);
    let mut n = 0;
    for b in h[..8].iter().rev() {
        n += b.trailing_zeros();
        if *b != 0 {
            break;
        }
    }
    n
}

/// Nonces with much work, found by a search of hours: keccak256("grinding 0") and so on.
const FOUND: [(&str, u64, u32); 3] = [("grinding 0", 864277558, 33), ("grinding 1", 5105225091, 29), ("grinding 2", 144115189189015826, 31)];

/// Work is counted exactly, whatever the nonce and however much of it there is.
fn counted(r: &mut Rng, out: &mut RunOut) {
    use lambdaworks_stark::starks::grinding::{generate_nonce_with_grinding as search, hash_transcript_with_int_and_get_leading_zeros as count};
    let mut pairs: Vec<([u8; 32], u64)> = FOUND.iter().map(|(t, n, _)| (Keccak256::digest(t.as_bytes()).into(), *n)).collect();
    for ((c, n), (t, _, w)) in pairs.iter().zip(FOUND) {
        if work(c, *n) != w {
            out.harness_error = Some(format!("{t} has {} bits of work", work(c, *n)));
        }
    }
    for _ in 0..30 {
        let n = *r.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX]);
        let n = if r.chance(1, 2) { n } else { r.next() >> r.below(64) };
        pairs.push((r.bytes32(), n));
    }
    for (c, n) in &pairs {
        let w = work(c, *n);
        out.stat(if w >= 29 { "much_work_counted" } else { "work_counted" });
        match catch(|| count(c, *n)) {
            Ok(k) if k as u32 == w => {}
            k => out.bad("work-miscounted", format!("nonce {n} has {w} bits of work, {k:?} are counted")),
        }
    }
    for g in [0, 1, 4, 7, 10] {
        let c = r.bytes32();
        match catch(|| search(&c, g)) {
            Ok(Some(n)) if work(&c, n) >= g as u32 => out.stat("nonce_found"),
            n => out.bad("prover-work-missing", format!("the nonce found for {g} bits of work is {n:?}")),
        }
    }
}

/// The challenge the nonce answers, and the number of challenges after it.
fn grinding(log: &[T]) -> Option<([u8; 32], u64, usize)> {
    let k = log.iter().rposition(|t| matches!(t, T::A(b) if b.len() == 8))?;
    let T::A(n) = &log[k] else { return None };
    let nonce = u64::from_be_bytes(n[..].try_into().ok()?);
    let c = log[..k].iter().rev().find_map(|t| if let T::C(c) = t { Some(*c) } else { None })?;
    let after = log[k + 1..].iter().filter(|t| matches!(t, T::C(_))).count();
    Some((c, nonce, after))
}

const LEVELS: [(&str, u32, bool); 6] =
    [("conjecturable 80", 80, false), ("conjecturable 100", 100, false), ("conjecturable 128", 128, false), ("provable 80", 80, true), ("provable 100", 100, true), ("provable 128", 128, true)];
fn preset(i: u8, c: u64) -> ProofOptions {
    use SecurityLevel::*;
    let l = match i % 6 {
        0 => Conjecturable80Bits,
        1 => Conjecturable100Bits,
        2 => Conjecturable128Bits,
        3 => Provable80Bits,
        4 => Provable100Bits,
        _ => Provable128Bits,
    };
    ProofOptions::new_secure(l, c)
}
fn bits(b: u8, q: u64, g: u8, provable: bool) -> u64 {
    let per = (b.max(1) as f64).log2() as u64;
    if provable { g as u64 + per * q / 2 } else { g as u64 + per * q }
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run proves one random statement with one configuration and lets verifying nodes with other configurations judge it, one option and several options off; \
                   faulty provers send other nonces; operators ask for options near every security bound; non-trivial if a foreign configuration judged a proof",
            level: "exploration",
            real: &["prover", "verifier", "grinding", "proof options", "AIRs"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm"],
            assumptions: &["blowup factors are powers of two"],
            state_measure: "hash of (kind of statement, options of prover and verifier relative to each other, proof of work reached, verdict)",
            time_unit: "judgements",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 6000 } else { 200000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "same_options_accepted", "rejected:too_few_queries", "rejected:too_little_work", "rejected:other_blowup", "rejected:other_coset",
            "accepted_with_surplus_work", "work_one_bit_short", "bad_nonce_rejected", "bad_query_rejected", "missing_answers_rejected", "many_queries", "work_counted", "much_work_counted", "nonce_found", "ask:granted", "ask:refused", "ask:at_the_bound", "ask:no_power_of_two", "preset_used",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.g = *r.pick(&[0, 0, 0, 1, 2, 3, 5, 8, 12]);
        opts.q = *r.pick(&[1, 2, 3, 4, 5, 8, 13, 33]);
        let many = idx % 100 == 7;
        if many {
            opts.q = *r.pick(&[65, 129, 130, 150, 257, 300]);
        }
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, 4, 2);
        let mut muts = vec![];
        for g in 0..=14 {
            muts.push(Opts { g, ..opts.clone() });
        }
        for g in [16, 20, 32, 63, 64, 65, 128, 255] {
            muts.push(Opts { g, ..opts.clone() });
        }
        for q in [1, opts.q + 1, opts.q + 2, opts.q * 2, opts.q.saturating_sub(1).max(1)] {
            muts.push(Opts { q, ..opts.clone() });
        }
        for b in [2, 4, 8, 16] {
            muts.push(Opts { b, ..opts.clone() });
        }
        for c in [3, 5, 7, opts.c + 1, opts.c * opts.c] {
            muts.push(Opts { c, ..opts.clone() });
        }
        for _ in 0..6 {
            let mut o = zoo::random_opts(&mut r);
            if r.chance(1, 2) {
                o.b = opts.b;
            }
            if r.chance(1, 2) {
                o.c = opts.c;
            }
            muts.push(o);
        }
        if many {
            muts.truncate(24);
        }
        let nonces = (0..8).map(|_| if r.chance(1, 2) { r.below(64) } else { r.next() }).collect();
        let mut asks = vec![];
        for _ in 0..40 {
            // operators may ask for what has no domain
            let b = if r.chance(1, 6) { *r.pick(&[0, 3, 6, 7, 12, 24, 96, 192, 255]) } else { 1u8 << r.range(1, 7) };
            let q = *r.pick(&[0, 1, 2, 3, 10, 27, 40, 54, 55, 80, 128, r.clone().below(300)]);
            let g = r.below(40) as u8;
            let s = bits(b, q, g, r.chance(1, 2)) as i64;
            let t = if r.chance(3, 4) { s + r.below(7) as i64 - 4 } else { r.below(256) as i64 };
            asks.push((b, q, g, t.clamp(0, 255) as u8));
        }
        // the field allows 252 - 40 bits
        for t in [210, 211, 212, 213] {
            asks.push((128, 300, 20, t));
        }
        let preset = if idx < 6 { Some(idx as u8) } else { None };
        val(&Case { stmt, opts, muts, nonces, asks, preset, counted: r.next() | 1 })
    }
    fn exec(&self, case: &Value) -> RunOut {
        let c: Case = parse(case);
        let mut out = RunOut::default();
        for (b, q, g, t) in &c.asks {
            let f = catch(|| ProofOptions::new_with_checked_security::<F>(*b, *q as usize, 3, *g, *t));
            let p = catch(|| ProofOptions::new_with_checked_provable_security::<F>(*b, *q as usize, 5, *g, *t));
            let room = *t as u64 + 40 < 252;
            let room = room && b.count_ones() == 1;
            if b.count_ones() != 1 {
                out.stat("ask:no_power_of_two");
            }
            let want = (room && *t as u64 + 1 < bits(*b, *q, *g, false), room && bits(*b, *q, *g, true) >= *t as u64);
            if bits(*b, *q, *g, false).abs_diff(*t as u64) <= 2 {
                out.stat("ask:at_the_bound");
            }
            for (name, got, want, coset) in [("conjectured", f, want.0, 3), ("provable", p, want.1, 5)] {
                match got {
                    Err(m) => out.bad(&format!("options-panic:{name}"), format!("asking for {t} {name} bits with blowup {b}, {q} queries, grinding {g}: {m}")),
                    Ok(r) => {
                        let ok = r.is_ok();
                        out.stat(if ok { "ask:granted" } else { "ask:refused" });
                        out.ev(ok as u64);
                        if ok != want {
                            out.bad(
                                &format!("options-{}:{name}", if ok { "insecure-granted" } else { "secure-refused" }),
                                format!("asking for {t} {name} bits with blowup {b}, {q} queries, grinding {g}"),
                            );
                        }
                        if let Ok(o) = r {
                            if o.blowup_factor != *b || o.fri_number_of_queries as u64 != *q || o.grinding_factor != *g || o.coset_offset != coset {
                                out.bad(&format!("options-altered:{name}"), format!("{o:?}"));
                            }
                        }
                    }
                }
            }
            if catch(|| ProofOptions::new_with_checked_security::<F17>(*b, *q as usize, 3, *g, 80.max(*t)).is_ok()) != Ok(false)
                || catch(|| ProofOptions::new_with_checked_provable_security::<F17>(*b, *q as usize, 3, *g, 80.max(*t)).is_ok()) != Ok(false)
            {
                out.bad("options-small-field", "a field of 17 elements was found secure enough");
            }
        }
        for i in 0..6u8 {
            let o = preset(i, 7);
            let (name, need, provable) = LEVELS[i as usize];
            let have = bits(o.blowup_factor, o.fri_number_of_queries as u64, o.grinding_factor, provable);
            if have < need as u64 + if provable { 0 } else { 1 } || o.coset_offset != 7 {
                out.bad("options-preset", format!("{name}: {o:?} gives {have} bits"));
            }
        }
        if c.counted != 0 {
            counted(&mut Rng::new(c.counted), &mut out);
        }
        let Ok(inst) = zoo::build(&c.stmt) else {
            out.stat("no_statement");
            return out;
        };
        let kind = inst.pi.kind();
        if let Some(i) = c.preset {
            // a node that uses a ready-made level, and a proof of a lower one
            let hi = preset(i, 3);
            let Ok(fib) = zoo::build(&Stmt::Fib { a0: 1, a1: 2, log: 3 }) else { return out };
            match catch(|| fib.pi.prove(&fib.trace, &hi)) {
                Ok(Ok(p)) => {
                    out.stat("preset_used");
                    if fib.pi.check(&p, &hi) != Verdict::Accept {
                        out.bad("preset-rejected", LEVELS[i as usize].0);
                    }
                    for j in 0..6u8 {
                        let o = preset(j, 3);
                        if o.fri_number_of_queries > hi.fri_number_of_queries && fib.pi.check(&p, &o) == Verdict::Accept {
                            out.bad("accepted:too_few_queries", format!("a proof for {} was accepted where {} is demanded", LEVELS[i as usize].0, LEVELS[j as usize].0));
                        }
                    }
                }
                e => out.bad("preset-unprovable", format!("{:?}", e.map(|r| r.map(|_| ())))),
            }
        }
        let po = c.opts.po();
        let (p, log) = record(|| inst.prove(&c.opts));
        let Ok(p) = p else {
            out.stat("no_proof");
            return out;
        };
        out.ev(hash_bytes(&proof_canon(&p)));
        // what the prover delivered
        let (v, vlog) = record(|| inst.pi.check(&p, &po));
        let (Some((ch, nonce, _)), Some((vch, _, drawn))) = (grinding(&log), grinding(&vlog)) else {
            out.bad("no-grinding", "no nonce in the transcript");
            return out;
        };
        let w = work(&ch, p.nonce);
        if nonce != p.nonce || ch != vch {
            out.bad("nonce-not-bound", "the nonce in the transcript is not the one of the proof, or answers another challenge");
        }
        if w < c.opts.g as u32 {
            out.bad("prover-work-missing", format!("{kind}: nonce has {w} bits of work, {} demanded", c.opts.g));
        }
        if p.query_list.len() < c.opts.q || p.deep_poly_openings.len() < c.opts.q {
            out.bad("prover-queries-missing", format!("{kind}: {} queries, {} demanded", p.query_list.len(), c.opts.q));
        }
        if drawn < c.opts.q {
            out.bad("verifier-draws-fewer", format!("{kind}: {drawn} positions for {} queries", c.opts.q));
        }
        if v != Verdict::Accept {
            out.bad("same-options-rejected", format!("{kind} {:?}: {}", c.opts, v.s()));
        } else {
            out.stat("same_options_accepted");
        }
        // constant traces have proofs that do not depend on the domain
        let flat = p.query_list.iter().all(|q| q.layers_evaluations.iter().all(|e| *e == FE::zero()));
        let mut judged = 0;
        for o in &c.muts {
            let v = inst.pi.check(&p, &o.po());
            judged += 1;
            out.sim_time += 1;
            out.evs(&v.s());
            let short = w < o.g as u32;
            let few = p.query_list.len() < o.q || p.deep_poly_openings.len() < o.q;
            let (ob, oc) = (o.b != c.opts.b, o.c != c.opts.c);
            out.state(mix(hash_bytes(kind.as_bytes()) ^ (short as u64) << 1 ^ (few as u64) << 2 ^ (ob as u64) << 3 ^ (oc as u64) << 4 ^ (w.min(15) as u64) << 5 ^ (o.g as u64) << 12 ^ (o.q as u64) << 20 ^ (o.b as u64) << 32));
            let wrong = if short {
                Some("too_little_work")
            } else if few {
                Some("too_few_queries")
            } else if ob && !flat {
                Some("other_blowup")
            } else if oc && !flat {
                Some("other_coset")
            } else {
                None
            };
            if short && w + 1 == o.g as u32 && !few && !ob && !oc {
                out.stat("work_one_bit_short");
            }
            match (wrong, v) {
                (Some(k), Verdict::Accept) => out.bad(
                    &format!("accepted:{k}"),
                    format!("{kind}: proved with {:?} ({w} bits of work), accepted where {o:?} is demanded", c.opts),
                ),
                (Some(k), Verdict::Reject) => out.stat(&format!("rejected:{k}")),
                (None, Verdict::Reject) if o.q == c.opts.q && !ob && !oc => {
                    out.bad("enough-work-rejected", format!("{kind}: proved with {:?} ({w} bits of work), rejected under {o:?}", c.opts))
                }
                (None, Verdict::Accept) if o.g > c.opts.g => out.stat("accepted_with_surplus_work"),
                (None, Verdict::Accept) => out.stat("accepted_under_weaker_demands"),
                _ => out.stat("other"),
            }
        }
        for n in &c.nonces {
            let mut x = clone_proof(&p);
            x.nonce = *n;
            let v = inst.pi.check(&x, &po);
            judged += 1;
            out.sim_time += 1;
            out.evs(&v.s());
            if work(&ch, *n) < c.opts.g as u32 {
                if v == Verdict::Accept {
                    out.bad("accepted:bad_nonce", format!("{kind}: nonce {n} has {} bits of work, {} demanded", work(&ch, *n), c.opts.g));
                } else {
                    out.stat("bad_nonce_rejected");
                }
            }
        }
        if c.opts.q > 64 {
            out.stat("many_queries");
        }
        // fewer answers than demanded, in either list
        for (a, b) in [(1, 1), (1, 0), (0, 1), (c.opts.q, c.opts.q), (c.opts.q, 0), (0, c.opts.q)] {
            let mut x = clone_proof(&p);
            x.query_list.truncate(c.opts.q.saturating_sub(a));
            x.deep_poly_openings.truncate(c.opts.q.saturating_sub(b));
            judged += 1;
            match inst.pi.check(&x, &po) {
                Verdict::Accept => out.bad("accepted:too_few_queries", format!("{kind} {:?}: accepted without the last {a} and {b} answers", c.opts)),
                _ => out.stat("missing_answers_rejected"),
            }
        }
        // every demanded query counts: one bad answer is enough
        let have = c.opts.q.min(p.query_list.len()).min(p.deep_poly_openings.len());
        for i in 0..have {
            // of many, the ones around the sizes of small counters
            if have > 40 && ![0, 63, 64, 126, 127, 128, 254, 255, 256, have - 2, have - 1].contains(&i) && i % 37 != 5 {
                continue;
            }
            for part in 0..3 {
                let mut x = clone_proof(&p);
                let q = &mut x.query_list[i];
                let k = i % q.layers_evaluations_sym.len().max(1);
                match part {
                    0 => match q.layers_evaluations_sym.get_mut(k) {
                        Some(e) => *e = *e + fe(1),
                        None => continue,
                    },
                    1 => x.deep_poly_openings[i].lde_composition_poly_odd_evaluation = fe(i as u64 + 12345),
                    _ => match x.deep_poly_openings[i].lde_trace_evaluations.first_mut() {
                        Some(e) => *e = *e + fe(1),
                        None => continue,
                    },
                }
                judged += 1;
                match inst.pi.check(&x, &po) {
                    Verdict::Accept => out.bad("accepted:bad_query", format!("{kind} {:?}: a wrong answer to query {i} was accepted", c.opts)),
                    _ => out.stat("bad_query_rejected"),
                }
            }
        }
        out.nontrivial = judged > 0;
        out.sample = format!("{kind} n={} {:?}, {w} bits of work: {judged} judgements, {} options asked for", inst.n(), c.opts, c.asks.len());
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut o = shrink_arrays(case, &["muts", "nonces", "asks"]);
        let c: Case = parse(case);
        if c.preset.is_some() {
            let mut x = c.clone();
            x.preset = None;
            o.push(val(&x));
        }
        o.extend(shrink_arrays(case, &["blocks"]));
        o
    }
}
