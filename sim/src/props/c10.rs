//! One statement, one proof: what is produced depends on nothing but the
//! inputs, however the work is scheduled and whoever does it.
use crate::core::*;
use crate::helper::{self, Request};
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Stmt};
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C10;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    spoil: (u8, u64),
    /// schedules: seed and number of workers
    ops: Vec<(u64, usize)>,
    /// sessions that ran before in the same process
    muts: Vec<(Stmt, Opts)>,
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run executes one session of the parallel build under several seeded schedules of its data-parallel operations (1 to 16 workers), before and after other sessions, and the same session in \
                   processes of the sequential build and of a build with debug checks and timing prints; everything produced must be equal; non-trivial if two schedules differed",
            level: "exploration",
            real: &["prover (parallel, sequential, debug-checked builds)", "verifier", "trace generation, serializers"],
            stub: &["rayon (seeded scheduler, one closure call per item is the unit of interleaving)", "lambdaworks-math / lambdaworks-crypto", "cairo-vm"],
            assumptions: &["no data races inside one item: closures are Send + Sync Rust without unsafe"],
            state_measure: "hash of the order in which items ran",
            time_unit: "items run by the parallel scheduler",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2500 } else { 60000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &["same_as_sequential", "same_as_debug", "same_across_schedules", "spoiled_same", "after_other_sessions", "kind:cairo", "kind:fibonacci_rap", "kind:generated_air"]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.b = *r.pick(&[2, 4, 4, 8]);
        opts.g = *r.pick(&[0, 1, 2, 4]);
        let mut stmt = zoo::random_stmt(&mut r, opts.b as usize, 6, 3);
        if idx % 40 == 13 {
            opts.b = *r.pick(&[16, 32, 32, 64]);
            stmt = zoo::random_stmt(&mut r, opts.b as usize, 4, 0);
        }
        let spoil = if r.chance(1, 4) { (r.range(1, 3) as u8, r.next()) } else { (0, 0) };
        let ops = (0..3).map(|_| (r.next(), *r.pick(&[1usize, 2, 2, 3, 4, 7, 16]))).collect();
        let muts = (0..r.below(3))
            .map(|_| {
                let mut o = zoo::random_opts(&mut r);
                o.g = 0;
                o.b = 4;
                (zoo::random_stmt(&mut r, 4, 4, 2), o)
            })
            .collect();
        val(&Case { stmt, opts, spoil, ops, muts })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        if !cfg!(feature = "parallel") {
            out.harness_error = Some("C10 needs the parallel build".into());
            return out;
        }
        let rq = Request::new(c.stmt.clone(), c.opts.clone(), c.spoil);
        let what = format!("{:?} {:?}, trace {}", c.opts, c.stmt, ["right", "wrong in a cell", "wrong in a column", "random"][c.spoil.0 as usize & 3]);
        let honest = c.spoil.0 == 0;
        rayon::sim::set_schedule(None);
        let base = helper::session(&rq);
        if let (true, Some(e)) = (honest, &base.error) {
            if !e.contains("assemble") {
                out.bad("prover-failed", format!("{e}; {what}"));
            }
        }
        out.evs(&format!("{base:?}"));
        let mut hashes = vec![];
        for (seed, w) in &c.ops {
            // what ran before must not matter
            if !c.muts.is_empty() && hashes.len() == 1 {
                for (s, o) in &c.muts {
                    helper::session(&Request::new(s.clone(), o.clone(), (0, 0)));
                }
                out.stat("after_other_sessions");
            }
            rayon::sim::set_schedule(Some((*seed, *w)));
            let a = helper::session(&rq);
            let st = rayon::sim::stats();
            rayon::sim::set_schedule(None);
            out.sim_time += st.tasks;
            out.add("parallel_operations", st.parallel_ops);
            out.add("worker_switches", st.switches);
            out.state(st.schedule_hash);
            hashes.push(st.schedule_hash);
            match base.differs(&a) {
                Some(d) => out.bad("schedule", format!("{d} under schedule ({seed}, {w} workers) is not what the sequential order gives: {:?} / {:?}; {what}", base.error, a.error)),
                None => out.stat("same_across_schedules"),
            }
        }
        match helper::ask("seq", &rq) {
            Ok(a) => match base.differs(&a) {
                Some(d) => out.bad("sequential-build", format!("{d} differs between parallel and sequential build: {:?} / {:?}; {what}", base.error, a.error)),
                None => {
                    out.stat("same_as_sequential");
                    if !honest {
                        out.stat("spoiled_same");
                    }
                }
            },
            Err(e) if e.starts_with("no helper") => out.harness_error = Some(e),
            Err(e) => out.bad("sequential-build", format!("the process of the sequential build {e}; {what}")),
        }
        // debug checks may refuse what does not hold
        if honest {
            match helper::ask("dbg", &rq) {
                Ok(a) => match base.differs(&a) {
                    Some(d) => out.bad("debug-build", format!("{d} differs in a build with debug checks: {:?} / {:?}; {what}", base.error, a.error)),
                    None => out.stat("same_as_debug"),
                },
                Err(e) if e.starts_with("no helper") => out.harness_error = Some(e),
                Err(e) => out.bad("debug-build", format!("the process with debug checks {e}; {what}")),
            }
        }
        if let Ok(i) = zoo::build(&c.stmt) {
            out.stat(&format!("kind:{}", i.pi.kind()));
        }
        hashes.sort();
        hashes.dedup();
        out.nontrivial = hashes.len() > 1;
        out.sample = format!("{} schedules, {what}", hashes.len());
        out.sample.truncate(300);
        out.ev(mix(hash_bytes(format!("{hashes:?}").as_bytes())));
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["muts", "ops", "trs", "bnds", "blocks"])
    }
}
