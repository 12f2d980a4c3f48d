//! Sessions that share a process do not notice each other, whatever becomes of
//! them and however their steps interleave.
use crate::core::*;
use crate::helper::{self, Answer, Request};
use crate::mutate::random_mut;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sessions: Vec<Request>,
    /// the schedule: after which part (2^-32) of all steps which session goes on
    ops: Vec<(u32, u8)>,
    /// which session dies, after which part of its steps; restarted in a new thread or the same
    crashes: Vec<(u8, u32, bool)>,
}

/// Only the session that holds the baton runs.
struct Baton {
    state: Mutex<State>,
    turn: Condvar,
}
struct State {
    turn: usize,
    alive: Vec<bool>,
    points: u64,
    next: usize,
    schedule: Vec<(u64, usize)>,
    crash: Vec<Option<u64>>,
    own: Vec<u64>,
    switches: u64,
    hash: u64,
    stuck: u64,
    /// whoever holds the baton has noticed
    awake: bool,
    /// waits for something another session holds
    blocked: Vec<bool>,
    tid: Vec<u64>,
}
/// Is this thread of the process asleep?
fn sleeps(tid: u64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
}
const CRASH: &str = "simulated crash of the session";

impl Baton {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize) {
        let mut s = self.lock();
        let (mut seen, mut asleep) = ((s.points, s.turn), 0);
        while s.turn != me {
            let (g, t) = self.turn.wait_timeout(s, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner());
            s = g;
            // whoever holds the baton and sleeps waits for something another
            // session holds: the next session that can go on does
            asleep = if t.timed_out() && seen == (s.points, s.turn) && s.turn != me && s.awake && sleeps(s.tid[s.turn]) { asleep + 1 } else { 0 };
            seen = (s.points, s.turn);
            if asleep >= 8 {
                let (h, n) = (s.turn, s.alive.len());
                s.blocked[h] = true;
                s.stuck += 1;
                if let Some(to) = (1..n).map(|k| (h + k) % n).find(|i| s.alive[*i] && !s.blocked[*i]) {
                    self.give(&mut s, to, "stuck");
                }
            }
        }
        s.awake = true;
    }
    fn give(&self, s: &mut State, to: usize, what: &str) {
        s.turn = to;
        s.awake = false;
        s.switches += 1;
        s.hash = mix(s.hash ^ hash_bytes(what.as_bytes()) ^ mix(to as u64 + (s.points << 8)));
        self.turn.notify_all();
    }
    /// A scheduling point of session `me`.
    fn point(&self, me: usize, what: &'static str) {
        let mut s = self.lock();
        s.blocked[me] = false;
        s.awake |= s.turn == me;
        if s.turn != me {
            drop(s);
            self.wait(me);
            s = self.lock();
        }
        s.points += 1;
        s.own[me] += 1;
        if s.crash[me] == Some(s.own[me]) {
            s.crash[me] = None;
            drop(s);
            std::panic::panic_any(format!("{CRASH} at {what}"));
        }
        let mut to = me;
        while s.next < s.schedule.len() && s.schedule[s.next].0 <= s.points {
            to = s.schedule[s.next].1;
            s.next += 1;
        }
        if to != me && s.alive[to] && !s.blocked[to] {
            self.give(&mut s, to, what);
            drop(s);
            self.wait(me);
        }
    }
    /// Does every session that is left wait for something another one holds?
    fn deadlocked(&self) -> Option<(u64, usize)> {
        let s = self.lock();
        let all = (0..s.alive.len()).filter(|i| s.alive[*i]).all(|i| (i == s.turn && s.awake || s.blocked[i]) && sleeps(s.tid[i]));
        (all && s.alive[s.turn]).then_some((s.points, s.turn))
    }
    fn finish(&self, me: usize) {
        let mut s = self.lock();
        s.alive[me] = false;
        if s.turn == me {
            let left = |b: bool| (0..s.alive.len()).find(|i| s.alive[*i] && s.blocked[*i] == b);
            if let Some(to) = left(false).or(left(true)) {
                self.give(&mut s, to, "end");
            }
        }
    }
}

/// One life of a session.
fn live(b: &Arc<Baton>, me: usize, rq: &Request, bytes: &[u8]) -> Answer {
    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok());
    b.lock().tid[me] = tid.unwrap_or(0);
    let c = b.clone();
    lambdaworks_math::sim::set_point(Some(Box::new(move |w| c.point(me, w))));
    let n = Rc::new(Cell::new(0));
    let _ = n;
    let r = catch(|| helper::work(rq, bytes));
    lambdaworks_math::sim::set_point(None);
    r.unwrap_or_else(|e| Answer { error: Some(e), ..Default::default() })
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run executes several proving and verifying sessions as simulated threads of one process: a schedule decides at every scheduling point (transcript, Merkle tree, FFT, inversion, power, \
                   polynomial and machine step operations) who goes on, some sessions die at arbitrary points and are restarted; each must end as it does alone in a process of its own; non-trivial if at \
                   least two sessions were interrupted by others",
            level: "exploration",
            real: &["prover, verifier, AIRs, serializers, Cairo runner"],
            stub: &["thread scheduling (baton passed at seams of the stand-in libraries)", "lambdaworks-math / lambdaworks-crypto", "cairo-vm"],
            assumptions: &["between two scheduling points a session is not interrupted; without unsafe code and shared state nothing could be seen there"],
            state_measure: "hash of the interleaving (who took over where)",
            time_unit: "scheduling points",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2600 } else { 60000 }
    }
    fn hang_s(&self) -> u64 {
        60
    }
    fn probes(&self) -> &'static [&'static str] {
        &["interleaved", "crashed", "restarted_same_thread", "restarted_new_thread", "others_survive_crash", "same_statement_other_options", "twins", "judge_honest", "judge_altered", "with_spoiled_trace", "kind:cairo"]
    }
    fn gen(&self, seed: u64, _t: Tier, _idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut sessions: Vec<Request> = vec![];
        for i in 0..r.range(2, 5) {
            let mut o = zoo::random_opts(&mut r);
            o.b = *r.pick(&[2, 4, 4, 8]);
            o.g = *r.pick(&[0, 1, 2, 4]);
            let mut q = Request::new(zoo::random_stmt(&mut r, o.b as usize, 5, 3), o, (0, 0));
            if i > 0 {
                let old = sessions[r.us(sessions.len())].clone();
                match r.below(6) {
                    // the same statement under other options
                    0 | 1 => {
                        q.stmt = old.stmt;
                        q.opts.b = old.opts.b.max(q.opts.b);
                        if r.chance(1, 2) {
                            q.opts = Opts { c: q.opts.c, ..old.opts };
                        }
                    }
                    // the same session twice
                    2 => q = Request::new(old.stmt, old.opts, (0, 0)),
                    _ => {}
                }
            }
            match r.below(6) {
                0 => q.spoil = (r.range(1, 3) as u8, r.next()),
                1 => q.judge = Some(vec![]),
                2 => q.judge = Some((0..r.range(1, 2)).map(|_| random_mut(&mut r)).collect()),
                _ => {}
            }
            sessions.push(q);
        }
        let n = *r.pick(&[2u64, 4, 16, 64, 250, 1000]);
        let mut ops: Vec<(u32, u8)> = (0..n).map(|_| (r.next() as u32, r.below(sessions.len() as u64) as u8)).collect();
        if r.chance(1, 4) {
            // all switches close together
            let (a, w) = (r.next() as u32, 1 << r.range(18, 28));
            ops.iter_mut().for_each(|o| o.0 = a.wrapping_add(o.0 % w));
        }
        ops.sort();
        let crashes = (0..*r.pick(&[0u64, 0, 1, 1, 2])).map(|_| (r.below(sessions.len() as u64) as u8, r.next() as u32, r.chance(1, 2))).collect();
        val(&Case { sessions, ops, crashes })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        let n = c.sessions.len();
        if n == 0 {
            return out;
        }
        let show = |i: usize| {
            let s = &c.sessions[i];
            let mut t = format!("session {i} ({} {:?} {:?})", if s.judge.is_some() { "judges" } else { "proves" }, s.opts, s.stmt);
            t.truncate(400);
            t
        };
        // each alone, in a process of its own
        let mut alone = vec![];
        for (i, s) in c.sessions.iter().enumerate() {
            match helper::ask_fresh(s) {
                Ok(a) => alone.push(a),
                Err(e) if e.starts_with("no helper") => {
                    out.harness_error = Some(e);
                    return out;
                }
                Err(e) => {
                    out.bad("died-alone", format!("{} {e}", show(i)));
                    return out;
                }
            }
        }
        let bytes: Vec<Vec<u8>> = c.sessions.iter().map(helper::prepare).collect();
        let total: u64 = alone.iter().map(|a| a.points).sum();
        let frac = |f: u32, of: u64| (f as u64 * of >> 32) + 1;
        let mut crash = vec![None; n];
        let mut fresh = vec![false; n];
        for (s, f, new) in &c.crashes {
            let s = *s as usize % n;
            if alone[s].points > 0 {
                crash[s] = Some(frac(*f, alone[s].points));
                fresh[s] = *new;
            }
        }
        let dies: Vec<bool> = crash.iter().map(|x| x.is_some()).collect();
        let baton = Arc::new(Baton {
            state: Mutex::new(State {
                turn: 0,
                alive: vec![true; n],
                points: 0,
                next: 0,
                schedule: c.ops.iter().map(|(f, to)| (frac(*f, total), *to as usize % n)).collect(),
                crash,
                own: vec![0; n],
                switches: 0,
                hash: 0,
                stuck: 0,
                awake: false,
                blocked: vec![false; n],
                tid: vec![0; n],
            }),
            turn: Condvar::new(),
        });
        let over = std::sync::atomic::AtomicBool::new(false);
        let results: Vec<(Answer, u32)> = std::thread::scope(|sc| {
            let watch = sc.spawn(|| {
                let (mut seen, mut times) = (None, 0);
                while !over.load(std::sync::atomic::Ordering::SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(40));
                    let now = baton.deadlocked();
                    times = if now.is_some() && now == seen { times + 1 } else { 0 };
                    seen = now;
                    if times >= 50 {
                        // the sessions cannot be ended, only the process can
                        std::process::exit(DEADLOCK);
                    }
                }
            });
            let hs: Vec<_> = (0..n)
                .map(|me| {
                    let (b, rq, by, fresh) = (&baton, &c.sessions[me], &bytes[me], fresh[me]);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            b.wait(me);
                            let mut lives = 1;
                            let mut a = live(b, me, rq, by);
                            while lives < 4 && format!("{:?} {}", a.error, a.verdict).contains(CRASH) {
                                lives += 1;
                                a = if fresh {
                                    std::thread::scope(|x| x.spawn(|| live(b, me, rq, by)).join().unwrap_or_default())
                                } else {
                                    live(b, me, rq, by)
                                };
                            }
                            b.finish(me);
                            (a, lives)
                        })
                        .expect("thread")
                })
                .collect();
            let rs = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
            over.store(true, std::sync::atomic::Ordering::SeqCst);
            watch.thread().unpark();
            rs
        });
        let s = baton.lock();
        out.sim_time = s.points;
        out.state(s.hash);
        out.add("switches", s.switches);
        out.add("stuck", s.stuck);
        out.ev(s.hash);
        let interrupted = s.switches > n as u64;
        drop(s);
        for (i, (a, lives)) in results.iter().enumerate() {
            let same = match (a.differs(&alone[i]), &a.error, &alone[i].error) {
                (None, Some(x), Some(y)) if x != y => Some("error"),
                (d, _, _) => d,
            };
            if let Some(d) = same {
                out.bad("disturbed", format!("{d} of {} is not what it is alone: {:?} {} / {:?} {}; {lives} lives, others: {}", show(i), a.error, a.verdict, alone[i].error, alone[i].verdict, n - 1));
            }
            if dies[i] && *lives < 2 {
                out.stat("crash_missed");
            }
            if *lives > 1 {
                out.stat("crashed");
                out.stat(if fresh[i] { "restarted_new_thread" } else { "restarted_same_thread" });
                if n > 1 {
                    out.stat("others_survive_crash");
                }
            }
            let q = &c.sessions[i];
            match &q.judge {
                Some(m) => out.stat(if m.is_empty() { "judge_honest" } else { "judge_altered" }),
                None if q.spoil.0 > 0 => out.stat("with_spoiled_trace"),
                None => {}
            }
            if matches!(q.stmt, zoo::Stmt::Cairo(..)) {
                out.stat("kind:cairo");
            }
            for o in &c.sessions[..i] {
                if val(&o.stmt) == val(&q.stmt) {
                    out.stat(if o.opts == q.opts { "twins" } else { "same_statement_other_options" });
                }
            }
            out.evs(&format!("{a:?}"));
        }
        if interrupted {
            out.stat("interleaved");
        }
        out.nontrivial = interrupted;
        out.sample = format!("{n} sessions, {} switches, {} crashes", c.ops.len(), c.crashes.len());
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["sessions", "crashes", "ops", "judge", "blocks", "trs", "bnds"])
    }
}
