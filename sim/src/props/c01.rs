//! The whole proving service as a discrete-event simulation: clients, provers,
//! verifiers, their disks and the network between them, under faults.
use crate::cairo::{Blk, CairoSpec};
use crate::core::*;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::{self, Instance, Stmt};
use lambdaworks_stark::cairo::air::MemorySegment;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub struct C01;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    stmt: Stmt,
    opts: Opts,
    at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// node goes down at `at` and comes back after `down`
    Crash { at: u64, node: usize, down: u64 },
    /// messages between the two groups (bit masks over nodes) are lost
    Partition { at: u64, mask: u32, dur: u64 },
    /// the next write of this prover's disk keeps only a part
    ShortWrite { at: u64, node: usize, permille: u64 },
    /// the next write fails
    DiskFull { at: u64, node: usize },
    /// a stored byte changes
    BitRot { at: u64, node: usize, pos: u64, xor: u8 },
    /// node answers slowly
    Stall { at: u64, node: usize, dur: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Net {
    drop: u64,
    dup: u64,
    corrupt: u64,
    truncate: u64,
    min: u64,
    jitter: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    jobs: Vec<Job>,
    provers: usize,
    verifiers: usize,
    net: Net,
    faults: Vec<Fault>,
    heal: u64,
    seed: u64,
    golden: bool,
}

#[derive(Clone, Debug)]
enum Msg {
    Request { job: usize, fresh: bool },
    Proof { job: usize, bytes: Vec<u8> },
    Verdict { job: usize, ok: bool },
    ProveFailed { job: usize },
}
#[derive(Clone, Debug)]
enum Ev {
    Deliver { to: usize, msg: Msg },
    Proved { node: usize, epoch: u64, job: usize },
    Verified { node: usize, epoch: u64, job: usize, bytes: Vec<u8> },
    ClientTimer { job: usize, n: u64 },
    Submit { job: usize },
    Fault(usize),
    Up { node: usize },
}

#[derive(Default)]
struct Node {
    up: bool,
    epoch: u64,
    stall: u64,
    /// name -> contents; writes not yet synced are torn by a crash
    disk: BTreeMap<usize, Vec<u8>>,
    unsynced: BTreeMap<usize, u64>,
    busy: BTreeMap<usize, ()>,
    short: Option<u64>,
    full: bool,
}

struct World<'a> {
    c: &'a Case,
    inst: Vec<Instance>,
    honest: Vec<Option<Vec<u8>>>,
    proofs: Vec<Option<Proof>>,
    proved: Vec<u64>,
    verdicts: BTreeMap<(usize, u64), (Verdict, u64)>,
    now: u64,
    seq: u64,
    q: BinaryHeap<Reverse<(u64, u64, usize)>>,
    evs: Vec<Option<Ev>>,
    rng: Rng,
    nodes: Vec<Node>,
    parts: Vec<(u64, u64, u32)>,
    done: Vec<Option<u64>>,
    tries: Vec<u64>,
    out: RunOut,
}

const CLIENT: usize = 0;

impl<'a> World<'a> {
    fn after(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.evs.push(Some(e));
        self.q.push(Reverse((self.now + d, self.seq, self.evs.len() - 1)));
    }
    fn healthy(&self) -> bool {
        self.now >= self.c.heal
    }
    fn cut(&self, a: usize, b: usize) -> bool {
        self.parts.iter().any(|(s, e, m)| self.now >= *s && self.now < *e && (m >> a & 1) != (m >> b & 1))
    }
    fn send(&mut self, from: usize, to: usize, msg: Msg) {
        let n = self.c.net.clone();
        let d = n.min + self.rng.below(n.jitter + 1);
        let calm = self.healthy();
        if !calm && (self.rng.chance(n.drop, 1000) || self.cut(from, to)) {
            self.out.stat("fault:message_lost");
            return;
        }
        let mut m = msg.clone();
        if let (false, Msg::Proof { bytes, .. }) = (calm, &mut m) {
            if self.rng.chance(n.corrupt, 1000) {
                for _ in 0..self.rng.range(1, 3) {
                    let i = self.rng.us(bytes.len().max(1));
                    let x = 1 << self.rng.below(8);
                    if let Some(b) = bytes.get_mut(i) {
                        *b ^= x;
                    }
                }
                self.out.stat("fault:message_corrupted");
            } else if self.rng.chance(n.truncate, 1000) {
                let k = self.rng.us(bytes.len().max(1));
                bytes.truncate(k);
                self.out.stat("fault:message_truncated");
            }
        }
        if !calm && self.rng.chance(n.dup, 1000) {
            let d2 = d + self.rng.below(3 * n.jitter + 50);
            self.after(d2, Ev::Deliver { to, msg: m.clone() });
            self.out.stat("fault:message_duplicated");
        }
        self.after(d, Ev::Deliver { to, msg: m });
    }
    fn honest(&mut self, job: usize) -> Result<Vec<u8>, String> {
        if self.proved[job] >= 3 {
            return Ok(self.honest[job].clone().unwrap());
        }
        let p = self.inst[job].prove(&self.c.jobs[job].opts)?;
        self.out.stat("real_proofs_generated");
        self.proved[job] += 1;
        let b = catch(|| wire::encode(&self.inst[job].pi, &p))?;
        match &self.honest[job] {
            None => {
                self.honest[job] = Some(b.clone());
                self.proofs[job] = Some(p);
            }
            Some(h) => {
                if *h != b {
                    self.out.bad("retried-proof-differs", format!("job {job}: proving again after a failure gave other bytes"));
                }
            }
        }
        Ok(b)
    }
    fn verify(&mut self, job: usize, bytes: &[u8]) -> Verdict {
        let k = (job, hash_bytes(bytes));
        if let Some((v, n)) = self.verdicts.get_mut(&k) {
            *n += 1;
            if *n > 2 {
                return v.clone();
            }
        }
        let o = self.c.jobs[job].opts.clone();
        let (v, dec) = wire::receive(&self.inst[job].pi, bytes, &o);
        self.out.stat("real_verifications");
        let intact = self.honest[job].as_deref() == Some(bytes);
        match (&v, intact) {
            (Verdict::Panic(m), _) => {
                self.out.bad("verifier-down", format!("a delivered file took the verifier down: {m} (job {job}, intact {intact})"))
            }
            (Verdict::Reject, true) => self.out.bad("intact-rejected", format!("{:?}", self.c.jobs[job])),
            (Verdict::Accept, false) => {
                let (p, pi) = dec.unwrap();
                let orig = self.proofs[job].as_ref().unwrap();
                let own = &self.inst[job].pi;
                let same = wire::same_pi(&pi, own);
                if same && wire::equivalent(own, &p, orig, &o, self.inst[job].n()) {
                    self.out.stat("altered_encoding_of_same_proof");
                } else if let (false, Some(class)) = (same, wire::only_segments(&pi, own)) {
                    self.out.bad(class, format!("job {job}: a Cairo proof was accepted with another segment claimed in its file"));
                } else {
                    let d = first_diff(bytes, self.honest[job].as_ref().unwrap());
                    self.out.bad("altered-accepted", format!("job {job} kind {} first difference at byte {d}", own.kind()));
                }
            }
            (Verdict::Reject, false) => self.out.stat("altered_rejected"),
            (Verdict::Accept, true) => {
                if self.inst[job].n() > 256 {
                    self.out.stat("hundreds_of_rows");
                }
                if self.inst[job].n() > 16384 {
                    self.out.stat("giant");
                }
                if self.c.jobs[job].opts.b > 16 {
                    self.out.stat("wide_blowup");
                }
                self.out.stat("intact_accepted")
            }
        }
        if let Some((w, _)) = self.verdicts.get(&k) {
            if *w != v {
                self.out.bad("verdict-changed", format!("same file, {} then {}", w.s(), v.s()));
            }
        } else {
            self.verdicts.insert(k, (v.clone(), 1));
        }
        v
    }
    fn write(&mut self, node: usize, job: usize, bytes: &[u8]) -> bool {
        let n = &mut self.nodes[node];
        if std::mem::take(&mut n.full) {
            n.disk.remove(&job);
            self.out.stat("fault:disk_full");
            return false;
        }
        let mut b = bytes.to_vec();
        if let Some(k) = n.short.take() {
            b.truncate(bytes.len() * k as usize / 1000);
            self.out.stat("fault:short_write");
        }
        n.disk.insert(job, b);
        n.unsynced.insert(job, self.now);
        true
    }
    fn prover(&self, k: u64) -> usize {
        1 + (k as usize) % self.c.provers
    }
    fn step(&mut self, e: Ev) {
        let pr = self.c.provers;
        match e {
            Ev::Submit { job } => self.after(0, Ev::ClientTimer { job, n: 0 }),
            Ev::ClientTimer { job, n } => {
                if self.done[job].is_some() || n != self.tries[job] {
                    return;
                }
                self.tries[job] += 1;
                let to = self.prover(n + job as u64);
                self.send(CLIENT, to, Msg::Request { job, fresh: n % 3 == 2 });
                let back = 400 * (1 + n.min(4)) + self.rng.below(100);
                self.after(back, Ev::ClientTimer { job, n: n + 1 });
            }
            Ev::Deliver { to, msg } => {
                if !self.nodes[to].up {
                    self.out.stat("delivered_to_crashed_node");
                    return;
                }
                let lag = if self.nodes[to].stall > self.now { self.nodes[to].stall - self.now } else { 0 };
                match msg {
                    Msg::Request { job, fresh } => {
                        let ep = self.nodes[to].epoch;
                        if !fresh && self.nodes[to].disk.contains_key(&job) {
                            let bytes = self.nodes[to].disk[&job].clone();
                            self.out.stat("served_from_disk");
                            let v = 1 + pr + self.rng.us(self.c.verifiers);
                            self.send(to, v, Msg::Proof { job, bytes });
                        } else if self.nodes[to].busy.insert(job, ()).is_none() {
                            let d = (self.inst[job].n() as u64 / 2).min(5000) + 20 + lag + self.rng.below(30);
                            self.after(d, Ev::Proved { node: to, epoch: ep, job });
                        }
                    }
                    Msg::Proof { job, bytes } => {
                        let ep = self.nodes[to].epoch;
                        let d = 5 + lag + self.rng.below(10);
                        self.after(d, Ev::Verified { node: to, epoch: ep, job, bytes });
                    }
                    Msg::Verdict { job, ok } => {
                        if ok {
                            self.done[job].get_or_insert(self.now);
                        } else if self.done[job].is_none() {
                            // ask somebody to prove it again
                            let k = self.rng.below(16);
                            let p = self.prover(k);
                            self.send(CLIENT, p, Msg::Request { job, fresh: true });
                        }
                    }
                    Msg::ProveFailed { .. } => {}
                }
            }
            Ev::Proved { node, epoch, job } => {
                if self.nodes[node].epoch != epoch || !self.nodes[node].up {
                    self.out.stat("proving_lost_to_crash");
                    return;
                }
                self.nodes[node].busy.remove(&job);
                match self.honest(job) {
                    Err(m) => {
                        self.out.bad("honest-prover-failed", format!("{m}: {:?}", self.c.jobs[job]));
                        self.send(node, CLIENT, Msg::ProveFailed { job });
                    }
                    Ok(b) => {
                        if self.write(node, job, &b) {
                            // what goes out is what the disk gives back
                            let bytes = self.nodes[node].disk[&job].clone();
                            let v = 1 + pr + self.rng.us(self.c.verifiers);
                            self.send(node, v, Msg::Proof { job, bytes });
                        }
                    }
                }
            }
            Ev::Verified { node, epoch, job, bytes } => {
                if self.nodes[node].epoch != epoch || !self.nodes[node].up {
                    return;
                }
                let v = self.verify(job, &bytes);
                self.out.evs(&v.s());
                self.send(node, CLIENT, Msg::Verdict { job, ok: v == Verdict::Accept });
            }
            Ev::Up { node } => {
                self.nodes[node].up = true;
                self.out.stat("fault:node_restarted");
            }
            Ev::Fault(i) => {
                let nn = self.nodes.len();
                match self.c.faults[i].clone() {
                    Fault::Crash { node, down, .. } => {
                        let node = 1 + node % (nn - 1);
                        let now = self.now;
                        let n = &mut self.nodes[node];
                        if !n.up {
                            return;
                        }
                        n.up = false;
                        n.epoch += 1;
                        n.busy.clear();
                        // a crash tears writes that have not reached the disk
                        let torn: Vec<usize> = n.unsynced.iter().filter(|x| now - *x.1 < 150).map(|x| *x.0).collect();
                        n.unsynced.clear();
                        for j in torn {
                            let keep = self.rng.below(1001);
                            match self.rng.below(4) {
                                0 => {
                                    self.nodes[node].disk.remove(&j);
                                    self.out.stat("fault:lost_write");
                                }
                                _ => {
                                    let rng = &mut self.rng;
                                    if let Some(f) = self.nodes[node].disk.get_mut(&j) {
                                        let k = f.len() * keep as usize / 1000;
                                        if rng.chance(1, 3) {
                                            // blocks that never made it read as zeros
                                            f[k..].iter_mut().for_each(|b| *b = 0);
                                        } else {
                                            f.truncate(k);
                                        }
                                        self.out.stat("fault:torn_write");
                                    }
                                }
                            }
                        }
                        self.out.stat("fault:node_crashed");
                        self.after(down, Ev::Up { node });
                    }
                    Fault::Partition { mask, dur, .. } => {
                        self.parts.push((self.now, self.now + dur, mask));
                        self.out.stat("fault:partition");
                    }
                    Fault::ShortWrite { node, permille, .. } => self.nodes[1 + node % pr].short = Some(permille),
                    Fault::DiskFull { node, .. } => self.nodes[1 + node % pr].full = true,
                    Fault::BitRot { node, pos, xor, .. } => {
                        let n = &mut self.nodes[1 + node % pr];
                        let k = n.disk.len().max(1);
                        if let Some(f) = n.disk.values_mut().nth(pos as usize % k) {
                            if !f.is_empty() {
                                let p = mix(pos) as usize % f.len();
                                f[p] ^= xor.max(1);
                                self.out.stat("fault:stored_byte_changed");
                            }
                        }
                    }
                    Fault::Stall { node, dur, .. } => {
                        self.nodes[1 + node % (nn - 1)].stall = self.now + dur;
                        self.out.stat("fault:node_stalled");
                    }
                }
            }
        }
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run is one simulated deployment: 1-3 proving jobs (shipped AIRs, random AIRs, random Cairo programs; random options), \
                   1-3 provers, 1-2 verifiers, disks, network, and a random fault plan; non-trivial if at least one fault fired and one proof was verified",
            level: "exploration",
            real: &["prover", "verifier", "AIRs", "Cairo runner pipeline and trace builder", "proof and public input (de)serializers"],
            stub: &["lambdaworks-math / lambdaworks-crypto (own implementation, checked against a stored proof)", "cairo-vm (own implementation)", "network, disks, clients and clock (simulated)"],
            assumptions: &["the stand-ins for the missing dependencies behave like the pinned crates on what is used"],
            state_measure: "hash of (verdict, alteration, job kind, retry count) reached",
            time_unit: "simulated milliseconds",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4000 } else { 80000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &["fault:node_crashed", "fault:torn_write", "fault:message_lost", "fault:message_corrupted", "intact_accepted", "hundreds_of_rows", "wide_blowup", "giant", "altered_rejected"]
    }
    fn gen(&self, seed: u64, t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let big = t == Tier::Thorough && r.chance(1, 20);
        let long = idx % 80 == 33;
        let wide = idx % 40 == 13;
        let giant = idx % 800 == 400;
        let nj = if long || wide || giant { 1 } else { r.range(1, 3) as usize };
        let jobs = (0..nj)
            .map(|_| {
                if giant {
                    // more than 2^16 rows, or addresses
                    let opts = Opts { b: 4, q: r.range(1, 4) as usize, c: 3, g: 1 };
                    let stmt = zoo::giant_stmt(&mut r, idx / 800);
                    return Job { stmt, opts, at: 0 };
                }
                if long {
                    let mut opts = zoo::random_opts(&mut r);
                    opts.b = *r.pick(&[2, 4, 4, 8, 16]);
                    let stmt = zoo::big_stmt(&mut r, opts.b as usize);
                    if matches!(stmt, Stmt::Cairo(_)) {
                        opts.b = 4;
                    }
                    return Job { stmt, opts, at: 0 };
                }
                let mut opts = zoo::random_opts(&mut r);
                if wide {
                    opts.b = *r.pick(&[32, 32, 64, 128]);
                    let cairo = if opts.b == 32 { 3 } else { 0 };
                    return Job { stmt: zoo::random_stmt(&mut r, opts.b as usize, 4, cairo), opts, at: 0 };
                }
                let ml = if big { 9 } else { 6 };
                let mut stmt = zoo::random_stmt(&mut r, opts.b as usize, ml, 5);
                if r.chance(1, 60) {
                    stmt = Stmt::Fib { a0: 1, a1: 1, log: 1 + r.below(3) as u32 };
                }
                Job { stmt, opts, at: r.below(500) }
            })
            .collect();
        let (provers, verifiers) = if giant { (1, 1) } else { (r.range(1, 3) as usize, r.range(1, 2) as usize) };
        let nn = 1 + provers + verifiers;
        let quiet = r.chance(1, 8);
        let heal = if quiet { 0 } else { r.range(1500, 5000) };
        let lvl = |r: &mut Rng, x: u64| if r.chance(1, 2) { 0 } else { r.below(x) };
        let net = Net {
            drop: lvl(&mut r, 300),
            dup: lvl(&mut r, 300),
            corrupt: lvl(&mut r, 500),
            truncate: lvl(&mut r, 200),
            min: r.below(20),
            jitter: r.below(200),
        };
        let mut faults = vec![];
        if !quiet {
            for _ in 0..r.below(8) {
                let at = r.below(heal);
                let node = r.us(nn);
                faults.push(match r.below(12) {
                    0..=3 => Fault::Crash { at, node, down: r.range(20, 1500) },
                    4 | 5 => Fault::Partition { at, mask: r.below(1 << nn) as u32, dur: r.range(50, 1500) },
                    6 => Fault::ShortWrite { at, node, permille: r.below(1001) },
                    7 => Fault::DiskFull { at, node },
                    8..=10 => Fault::BitRot { at, node, pos: r.next(), xor: 1 << r.below(8) },
                    _ => Fault::Stall { at, node, dur: r.range(50, 1500) },
                });
            }
        }
        val(&Case { jobs, provers, verifiers, net, faults, heal, seed: r.next(), golden: idx == 0 })
    }
    fn exec(&self, case: &Value) -> RunOut {
        let c: Case = parse(case);
        let mut out = RunOut::default();
        if c.golden {
            golden(&mut out);
            segments(&mut out);
        }
        if c.jobs.is_empty() {
            return out;
        }
        let mut inst = vec![];
        for j in &c.jobs {
            match zoo::build(&j.stmt) {
                Ok(i) => inst.push(i),
                Err(m) => {
                    out.bad("honest-run-failed", format!("{m}: {:?}", j.stmt));
                    return out;
                }
            }
        }
        let nj = c.jobs.len();
        let nn = 1 + c.provers + c.verifiers;
        let mut w = World {
            c: &c,
            inst,
            honest: vec![None; nj],
            proofs: (0..nj).map(|_| None).collect(),
            proved: vec![0; nj],
            verdicts: BTreeMap::new(),
            now: 0,
            seq: 0,
            q: BinaryHeap::new(),
            evs: vec![],
            rng: Rng::new(c.seed),
            nodes: (0..nn).map(|_| Node { up: true, ..Default::default() }).collect(),
            parts: vec![],
            done: vec![None; nj],
            tries: vec![0; nj],
            out,
        };
        for (j, x) in c.jobs.iter().enumerate() {
            w.after(x.at, Ev::Submit { job: j });
        }
        for (i, f) in c.faults.iter().enumerate() {
            let at = match f {
                Fault::Crash { at, .. }
                | Fault::Partition { at, .. }
                | Fault::ShortWrite { at, .. }
                | Fault::DiskFull { at, .. }
                | Fault::BitRot { at, .. }
                | Fault::Stall { at, .. } => *at,
            };
            w.after(at, Ev::Fault(i));
        }
        // progress bound once faults have stopped (nodes are back 1.5 s later)
        let limit = c.heal + 60_000;
        let mut steps = 0u64;
        while let Some(Reverse((t, _, i))) = w.q.pop() {
            w.now = t;
            steps += 1;
            if t > limit || steps > 20_000 || w.done.iter().all(|d| d.is_some()) {
                break;
            }
            let e = w.evs[i].take().unwrap();
            let tag = match &e {
                Ev::Deliver { to, msg } => {
                    10 + *to as u64
                        + 100
                            * match msg {
                                Msg::Request { .. } => 1,
                                Msg::Proof { .. } => 2,
                                Msg::Verdict { ok, .. } => 3 + *ok as u64,
                                Msg::ProveFailed { .. } => 5,
                            }
                }
                Ev::Proved { .. } => 1,
                Ev::Verified { .. } => 2,
                Ev::ClientTimer { .. } => 3,
                Ev::Submit { .. } => 4,
                Ev::Fault(_) => 5,
                Ev::Up { .. } => 6,
            };
            w.out.ev(mix(t) ^ tag);
            w.step(e);
            let busy: u64 = w.nodes.iter().enumerate().map(|(i, n)| (n.up as u64 | (n.disk.len() as u64) << 1 | (n.busy.len() as u64) << 3) << (6 * i)).sum();
            let dn: u64 = w.done.iter().map(|d| d.is_some() as u64).sum();
            w.out.state(mix(busy ^ dn << 60 ^ mix(tag)));
            if w.out.violations.len() > 2 {
                break;
            }
        }
        if w.out.violations.is_empty() {
            for j in 0..nj {
                if w.done[j].is_none() {
                    w.out.bad("no-progress", format!("job {j} not accepted {} ms after faults stopped: {:?}", w.now.saturating_sub(c.heal), c.jobs[j]));
                }
            }
        }
        w.out.sim_time = w.now;
        w.out.add("events", steps);
        for i in &w.inst {
            w.out.stats.entry(format!("jobs:{}", i.pi.kind())).and_modify(|x| *x += 1).or_insert(1);
        }
        for h in w.honest.iter().flatten() {
            w.out.ev(hash_bytes(h));
        }
        w.out.states.sort();
        w.out.states.dedup();
        let faults: u64 = w.out.stats.iter().filter(|x| x.0.starts_with("fault:")).map(|x| *x.1).sum();
        w.out.nontrivial = faults > 0 && w.out.stats.contains_key("real_verifications");
        w.out.sample = format!(
            "{} jobs ({}), {} provers, {} verifiers, {} events, {} faults fired, done at {:?} ms",
            nj,
            w.inst.iter().map(|i| format!("{} n={}", i.pi.kind(), i.n())).collect::<Vec<_>>().join(", "),
            c.provers, c.verifiers, steps, faults, w.done
        );
        w.out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut o = vec![];
        let c: Case = parse(case);
        for f in [
            |c: &mut Case| c.net.drop = 0,
            |c: &mut Case| c.net.dup = 0,
            |c: &mut Case| c.net.corrupt = 0,
            |c: &mut Case| c.net.truncate = 0,
            |c: &mut Case| c.net.jitter = 0,
            |c: &mut Case| c.heal = 0,
            |c: &mut Case| c.provers = 1,
            |c: &mut Case| c.verifiers = 1,
            |c: &mut Case| c.golden = false,
        ] {
            let mut x = c.clone();
            f(&mut x);
            o.push(val(&x));
        }
        o.extend(shrink_arrays(case, &["jobs"]));
        o.extend(shrink_arrays(case, &["faults", "blocks"]));
        o
    }
}

/// A proof stored by an earlier build must still be accepted, and changed
/// copies of it rejected.
fn golden(out: &mut RunOut) {
    let Ok(b) = std::fs::read("/repo/benches/proofs/fibonacci_70000.proof") else {
        return;
    };
    let pi = zoo::Pi::Cairo(crate::cairo::empty_pi());
    let (v, _) = wire::receive(&pi, &b, &Opts::test());
    if v == Verdict::Reject && !crate::refproto::follows_protocol(&b) {
        // made under a protocol that is no longer the one of this tree
        out.stat("stored_proof_of_another_protocol");
        return;
    }
    if v != Verdict::Accept {
        out.bad("stored-proof-rejected", format!("benches/proofs/fibonacci_70000.proof: {}", v.s()));
    }
    out.stat("stored_proof_verified");
    for k in [b.len() / 3, b.len() / 2, 9000] {
        let mut x = b.clone();
        x[k] ^= 4;
        let (v, _) = wire::receive(&pi, &x, &Opts::test());
        if v != Verdict::Reject {
            out.bad("stored-proof-altered", format!("byte {k}: {}", v.s()));
        }
    }
}

/// The known gap: a file whose claimed segments changed on the way.
fn segments(out: &mut RunOut) {
    let spec = CairoSpec { blocks: vec![Blk::Rc(vec![70000, 5], 9), Blk::Push(3)], rc: true, out: false, pub_out: false, v1: false, end_jump: false };
    let o = Opts { b: 4, q: 3, c: 3, g: 1 };
    let Ok(i) = zoo::build(&Stmt::Cairo(spec)) else { return };
    let (Ok(p), zoo::Pi::Cairo(own)) = (i.prove(&o), &i.pi) else { return };
    let n = own.public_memory.len() as u64;
    for (kind, range, class) in [
        (MemorySegment::RangeCheck, 5..9, "segment-range-unbound:range_check"),
        (MemorySegment::Output, n - 1..n + 1, "segment-range-unbound:output"),
    ] {
        let mut q = own.clone();
        q.memory_segments.insert(kind, range);
        let (v, _) = wire::receive(&i.pi, &wire::encode(&zoo::Pi::Cairo(q), &p), &o);
        if v == Verdict::Accept {
            out.bad(class, "a Cairo proof was accepted with another segment claimed in its file");
        }
    }
}
