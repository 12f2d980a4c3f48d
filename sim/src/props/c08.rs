//! The receiving side survives anything: every byte string is decoded or
//! refused, every proof accepted or rejected, in memory and time bounded by
//! what was received.
use crate::core::*;
use crate::layout::{self, Bytes};
use crate::meter::measure;
use crate::mutate::{self, Mut};
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::{self, Pi, Stmt};
use lambdaworks_crypto::merkle_tree::proof::Proof as Path;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C08;

/// bytes a receiver may hold: this much for each byte received ...
const PER_BYTE: u64 = 64;
/// ... and this much in any case
const FIXED: u64 = 1 << 19;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    muts: Vec<Attack>,
}
/// What a faulty or hostile peer sends.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// noise, to every decoder
    Noise { style: u8, len: usize, seed: u64 },
    /// numbers of the stored form overwritten: (which, value)
    Numbers { part: u8, set: Vec<(u64, u64)>, cut: Option<u64> },
    /// the stored form ends early, near the border of a value
    Cut { part: u8, edge: u64, off: i8 },
    /// field elements outside the field
    Cells { part: u8, seed: u64 },
    /// random byte faults
    Faults { part: u8, muts: Vec<Mut> },
    /// a proof that claims 2^log rows, with everything the claim requires; `flaw` spoils something
    Claim { log: u32, flaw: u8, seed: u64 },
    /// the proof with scalars and lists changed
    Struct { muts: Vec<Mut> },
    /// a trace length
    Rows { rows: u64 },
    /// the frame as a list of `values` with a width
    Shape { values: usize, width: u64, seed: u64 },
    /// Cairo public inputs
    Inputs { how: Vec<(u8, u64)>, log: Option<u32> },
    /// another statement's proof
    Other { stmt: Stmt },
    Empty,
}

const EXTREME: &[u64] = &[
    0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 40, 63, 64, 65, 255, 256, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 58, 1 << 59, (1 << 59) - 1,
    1 << 60, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 8, u64::MAX - 31, u64::MAX - 8, u64::MAX - 7, u64::MAX - 1, u64::MAX,
];

pub fn extreme(r: &mut Rng) -> u64 {
    if r.chance(1, 6) {
        r.next()
    } else {
        *r.pick(EXTREME)
    }
}

fn random_attack(r: &mut Rng, stmt: &Stmt, opts: &Opts) -> Attack {
    let cairo = matches!(stmt, Stmt::Cairo(_));
    let part = |r: &mut Rng| r.below(if cairo { 6 } else { 5 }) as u8;
    match r.below(if cairo { 16 } else { 13 }) {
        0 => Attack::Noise { style: r.below(6) as u8, len: *r.pick(&[0, 1, 7, 8, 9, 15, 16, 31, 40, 100, 333, 1000, 5000]), seed: r.next() },
        1 | 2 | 3 => {
            let k = if r.chance(2, 3) { 1 } else { r.range(2, 4) };
            Attack::Numbers { part: part(r), set: (0..k).map(|_| (r.next(), extreme(r))).collect(), cut: r.chance(1, 8).then(|| r.next()) }
        }
        4 => Attack::Cut { part: part(r), edge: r.next(), off: *r.pick(&[-2, -1, 0, 0, 1, 2, 4]) },
        5 => Attack::Cells { part: part(r), seed: r.next() },
        6 => Attack::Faults { part: part(r), muts: (0..r.range(1, 4)).map(|_| byte_fault(r)).collect() },
        7 | 8 => {
            let top = 63 - opts.b.trailing_zeros();
            let log = match r.below(4) {
                0 => r.range(1, 8) as u32,
                1 => r.range(12, 18) as u32,
                2 => r.range(19, 40) as u32,
                _ => r.range(top as u64 - 3, top as u64 + 1) as u32,
            };
            Attack::Claim { log, flaw: if r.chance(1, 2) { 0 } else { r.range(1, 40) as u8 }, seed: r.next() }
        }
        9 => Attack::Struct { muts: (0..r.range(1, 4)).map(|_| struct_fault(r)).collect() },
        10 => Attack::Rows { rows: extreme(r) },
        11 => Attack::Shape { values: *r.pick(&[0, 1, 2, 3, 5, 8, 9, 50, 100]), width: extreme(r), seed: r.next() },
        12 => match r.below(3) {
            0 => Attack::Empty,
            _ => Attack::Other { stmt: zoo::random_stmt(r, opts.b as usize, 4, 0) },
        },
        _ => {
            let log = r.chance(1, 2).then(|| r.range(1, 61) as u32);
            Attack::Inputs { how: (0..r.range(1, 3)).map(|_| (r.below(32) as u8, r.next())).collect(), log }
        }
    }
}
fn byte_fault(r: &mut Rng) -> Mut {
    loop {
        let m = mutate::random_mut(r);
        if mutate::is_byte(&m) {
            return m;
        }
    }
}
fn struct_fault(r: &mut Rng) -> Mut {
    loop {
        let m = mutate::random_mut(r);
        if !mutate::is_byte(&m) {
            return m;
        }
    }
}

fn noise(style: u8, len: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut o = vec![];
    while o.len() < len {
        match style % 6 {
            0 => o.push(r.next() as u8),
            1 => o.push(0),
            2 => o.push(255),
            3 => o.extend(r.below(40).to_be_bytes()),
            4 => o.extend(extreme(&mut r).to_be_bytes()),
            _ => {
                o.extend(32u64.to_be_bytes());
                o.extend(r.below(3).to_be_bytes());
            }
        }
    }
    o.truncate(len);
    o
}

/// A proof of the right shape for any claim about the length of the trace.
fn claim(sh: &zoo::Shape, o: &Opts, log: u32, r: &mut Rng) -> Proof {
    let depth = log as usize + o.b.trailing_zeros() as usize;
    let com = |r: &mut Rng| r.bytes32();
    let path = |r: &mut Rng, l: usize| Path { merkle_path: (0..l).map(|_| r.bytes32()).collect::<Vec<_>>() };
    let felts = |r: &mut Rng, k: usize| (0..k).map(|_| fe_rand(r)).collect::<Vec<_>>();
    let l = log as usize;
    let roots = if sh.aux > 0 { 2 } else { 1 };
    StarkProof {
        trace_length: 1usize.checked_shl(log).unwrap_or(0),
        lde_trace_merkle_roots: (0..roots).map(|_| com(r)).collect(),
        trace_ood_frame_evaluations: Frame::new(felts(r, sh.cols * sh.offs.len()), sh.cols),
        composition_poly_root: com(r),
        composition_poly_even_ood_evaluation: fe_rand(r),
        composition_poly_odd_ood_evaluation: fe_rand(r),
        fri_layers_merkle_roots: (0..l).map(|_| com(r)).collect(),
        fri_last_value: fe_rand(r),
        query_list: (0..o.q)
            .map(|_| FriDecommitment {
                layers_auth_paths_sym: (0..l).map(|k| path(r, depth - k)).collect(),
                layers_evaluations_sym: felts(r, l),
                layers_auth_paths: (0..l).map(|k| path(r, depth - k)).collect(),
                layers_evaluations: felts(r, l),
            })
            .collect(),
        deep_poly_openings: (0..o.q)
            .map(|_| DeepPolynomialOpenings {
                lde_composition_poly_proof: path(r, depth),
                lde_composition_poly_even_evaluation: fe_rand(r),
                lde_composition_poly_odd_evaluation: fe_rand(r),
                lde_trace_merkle_proofs: (0..roots).map(|_| path(r, depth)).collect(),
                lde_trace_evaluations: felts(r, sh.cols),
            })
            .collect(),
        nonce: r.next(),
    }
}

/// Cairo public inputs with the fields a peer can choose pushed to extremes.
pub fn inputs(p: &PublicInputs, how: &[(u8, u64)]) -> PublicInputs {
    let mut p = p.clone();
    for (h, s) in how {
        let mut r = Rng::new(*s);
        let len = p.public_memory.len() as u64;
        match h % 32 {
            0 | 1 => p.num_steps = extreme(&mut r) as usize,
            2 => p.range_check_min = None,
            3 => p.range_check_max = None,
            4 => {
                p.range_check_min = Some(r.next() as u16);
                p.range_check_max = Some(r.next() as u16);
            }
            5 => p.public_memory.clear(),
            6 => {
                let a = extreme(&mut r);
                p.public_memory.insert(fe(a), fe_rand(&mut r));
            }
            7 => {
                p.public_memory.insert(fe_rand(&mut r), fe_rand(&mut r));
            }
            8 => {
                let mut k: Vec<FE> = p.public_memory.keys().cloned().collect();
                k.sort_by_key(|x| wire_key(x));
                if !k.is_empty() {
                    p.public_memory.remove(&k[r.us(k.len())]);
                }
            }
            9..=12 => {
                let (a, b) = (extreme(&mut r), extreme(&mut r));
                p.memory_segments.insert(MemorySegment::Output, a..b);
            }
            13 | 14 => {
                let (a, b) = (extreme(&mut r), extreme(&mut r));
                p.memory_segments.insert(MemorySegment::RangeCheck, a..b);
            }
            15 => p.memory_segments.clear(),
            16 | 17 => {
                // an output that is exactly, or almost, the end of the memory
                let k = r.below(len + 2);
                let at = *r.pick(&[len + 1, len, len + 1 - k.min(len), 1, 0, u64::MAX - k, 1 << 40]);
                p.memory_segments.insert(MemorySegment::Output, at..at.wrapping_add(k));
            }
            18 => p.pc_init = fe_rand(&mut r),
            19 => p.ap_init = fe_rand(&mut r),
            20 => {
                p.fp_init = fe_rand(&mut r);
                p.ap_init = p.fp_init;
            }
            21 => p.pc_final = fe_rand(&mut r),
            22 => p.ap_final = fe_rand(&mut r),
            23 => {
                // a long program
                for a in 1..=r.range(1, 300) {
                    p.public_memory.insert(fe(a), fe(a * 3));
                }
            }
            24 => {
                // an empty segment somewhere
                let a = extreme(&mut r);
                p.memory_segments.insert(if r.chance(1, 2) { MemorySegment::Output } else { MemorySegment::RangeCheck }, a..a);
            }
            25 => {
                p.public_memory.clear();
                p.memory_segments.clear();
            }
            26 => {
                // everything is output, including addresses of the program
                p.memory_segments.insert(MemorySegment::Output, 1..len + 1);
            }
            27 => {
                // memory replaced by as many unrelated cells
                p.public_memory = (0..len).map(|_| (fe_rand(&mut r), fe_rand(&mut r))).collect();
            }
            _ => p.num_steps = r.range(0, 70) as usize,
        }
    }
    p
}
fn wire_key(x: &FE) -> [u8; 32] {
    use lambdaworks_math::traits::ByteConversion;
    x.to_bytes_be().try_into().unwrap()
}

struct Ctx<'a> {
    pi: &'a Pi,
    opts: &'a Opts,
    out: &'a mut RunOut,
    what: String,
    n: usize,
    rap: bool,
}
impl Ctx<'_> {
    /// one call into the receiving side
    fn call<T>(&mut self, name: &str, received: usize, f: impl FnOnce() -> T) -> Option<T> {
        let (r, peak) = measure(|| catch(f));
        let bound = PER_BYTE * received as u64 + FIXED;
        // the one AIR whose context depends on the claimed length (known finding)
        let class = |c: &str| if self.rap { "rap-trace-length".to_string() } else { format!("{c}:{name}") };
        self.out.sim_time += 1;
        self.out.stat(&format!("call:{name}"));
        self.out.ev(peak.min(1 << 40).leading_zeros() as u64);
        let w = &self.what;
        if peak > bound {
            self.out.bad(&class("memory"), format!("{name} holds {peak} bytes for {received} received (bound {bound}); {w}"));
        }
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                let w = &self.what;
                self.out.bad(&class("panic"), format!("{name}: {m}; {w}"));
                None
            }
        }
    }
    fn verify(&mut self, p: &Proof, pi: &Pi) {
        let len = layout::proof(p).b.len() + if let Pi::Cairo(c) = pi { layout::public_inputs(c).b.len() } else { 0 };
        let o = self.opts.po();
        self.rap = matches!(self.pi, Pi::Rap(_)) && p.trace_length != self.n;
        if self.rap && p.trace_length > 1 << 9 {
            return self.out.stat("skipped");
        }
        let a = self.call("verify", len, || pi.verify(p, &o));
        let b = self.call("verify", len, || pi.verify(p, &o));
        self.rap = false;
        if let (Some(a), Some(b)) = (a, b) {
            self.out.ev(a as u64);
            self.out.stat(if a { "accepted" } else { "rejected" });
            if a != b {
                let w = self.what.clone();
                self.out.bad("unstable", format!("two verdicts on the same proof; {w}"));
            }
        }
    }
    /// hands bytes to a decoder, and what comes out to the verifier
    fn decode(&mut self, part: u8, b: &[u8], honest: &Proof) {
        match part {
            0 => {
                if let Some(Ok(p)) = self.call("StarkProof::deserialize", b.len(), || Proof::deserialize(b)) {
                    self.out.stat("decoded");
                    let pi = self.pi;
                    self.verify(&p, pi);
                }
            }
            1 => {
                if let Some(Ok(f)) = self.call("Frame::deserialize", b.len(), || Frame::<F>::deserialize(b)) {
                    self.out.stat("decoded");
                    let mut p = clone_proof(honest);
                    p.trace_ood_frame_evaluations = f;
                    let pi = self.pi;
                    self.verify(&p, pi);
                }
            }
            2 => {
                if let Some(Ok(q)) = self.call("FriDecommitment::deserialize", b.len(), || FriDecommitment::<F>::deserialize(b)) {
                    self.out.stat("decoded");
                    let mut p = clone_proof(honest);
                    p.query_list[0] = q;
                    let pi = self.pi;
                    self.verify(&p, pi);
                }
            }
            3 => {
                if let Some(Ok(d)) = self.call("DeepPolynomialOpenings::deserialize", b.len(), || DeepPolynomialOpenings::<F>::deserialize(b)) {
                    self.out.stat("decoded");
                    let mut p = clone_proof(honest);
                    p.deep_poly_openings[0] = d;
                    let pi = self.pi;
                    self.verify(&p, pi);
                }
            }
            _ => {
                if let Some(Ok(c)) = self.call("PublicInputs::deserialize", b.len(), || PublicInputs::deserialize(b)) {
                    self.out.stat("decoded");
                    if matches!(self.pi, Pi::Cairo(_)) {
                        self.verify(honest, &Pi::Cairo(c));
                    }
                }
            }
        }
    }
}

/// the stored form that an attack on a part starts from
fn stored(part: u8, p: &Proof, pi: &PublicInputs) -> Bytes {
    match part {
        0 => layout::proof(p),
        1 => layout::frame(p),
        2 => layout::query(&p.query_list[0]),
        3 => layout::opening(&p.deep_poly_openings[0]),
        _ => layout::public_inputs(pi),
    }
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run sends one receiving node a sequence of faulty messages for one random statement and configuration: noise, stored forms with their numbers at extremes or cut at the borders of \
                   values, proofs claiming up to 2^62 rows with everything the claim requires, misshapen proofs and public inputs; every call must answer, in memory bounded by the bytes received, the \
                   same both times; afterwards the honest proof must still be accepted; non-trivial if a faulty message got past a decoder to the verifier",
            level: "exploration",
            real: &["every decoder", "verifier", "AIRs, public input checks"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "the sender (own encoder)", "the allocator (meters each call and refuses it 1 GiB)"],
            assumptions: &["memory counted in bytes held at once", "a call without an answer within the watchdog time counts as endless"],
            state_measure: "hash of (kind of statement, attack, part attacked, outcome)",
            time_unit: "calls",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 10000 } else { 150000 }
    }
    fn hang_s(&self) -> u64 {
        30
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "decoded", "rejected", "honest_after", "attack:Noise", "attack:Numbers", "attack:Cut", "attack:Cells", "attack:Faults", "attack:Claim", "attack:Struct", "attack:Rows", "attack:Shape",
            "attack:Inputs", "attack:Other", "attack:Empty", "claim_past_2^40",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, _idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.b = *r.pick(&[2, 4, 4, 8]);
        opts.q = *r.pick(&[1, 1, 2, 3]);
        opts.g = 0;
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, 4, 2);
        if matches!(stmt, Stmt::Cairo(_)) {
            opts.b = 4;
        }
        let n = if matches!(stmt, Stmt::Cairo(_)) { 24 } else { 24 };
        let muts = (0..n).map(|_| random_attack(&mut r, &stmt, &opts)).collect();
        val(&Case { stmt, opts, muts })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        let inst = match zoo::build(&c.stmt) {
            Ok(i) => i,
            Err(e) => {
                out.evs(&e);
                return out;
            }
        };
        let honest = match inst.prove(&c.opts) {
            Ok(p) => p,
            Err(e) => {
                out.bad("prover-failed", e);
                return out;
            }
        };
        let kind = inst.pi.kind();
        let sh = inst.pi.shape(inst.n(), &c.opts.po());
        let cpi = if let Pi::Cairo(p) = &inst.pi { p.clone() } else { crate::cairo::empty_pi() };
        for m in &c.muts {
            let name = format!("{m:?}").split([' ', '(']).next().unwrap().to_string();
            let mut text = format!("{m:?}");
            text.truncate(400);
            out.stat(&format!("attack:{name}"));
            let before = (out.stats.get("decoded").copied(), out.stats.get("rejected").copied(), out.violations.len());
            let mut x = Ctx { pi: &inst.pi, opts: &c.opts, out: &mut out, what: format!("{kind}, {:?}, {text}", c.opts), n: inst.n(), rap: false };
            let mut part_name = 9;
            match m {
                Attack::Noise { style, len, seed } => {
                    let b = noise(*style, *len, *seed);
                    (0..5).for_each(|p| x.decode(p, &b, &honest));
                }
                Attack::Numbers { part, set, cut } => {
                    let part = *part % 6;
                    part_name = part;
                    let mut s = stored(part.min(4), &honest, &cpi);
                    for (w, v) in set {
                        let (at, what) = s.nums[(*w % s.nums.len() as u64) as usize];
                        s.b[at..at + 8].copy_from_slice(&v.to_be_bytes());
                        x.out.stat(&format!("number:{what}"));
                    }
                    if let Some(k) = cut {
                        let l = s.b.len() as u64;
                        s.b.truncate((k % l) as usize);
                    }
                    x.decode(part, &s.b, &honest);
                }
                Attack::Cut { part, edge, off } => {
                    let part = *part % 6;
                    part_name = part;
                    let mut s = stored(part.min(4), &honest, &cpi);
                    let e = s.edges[(*edge % s.edges.len() as u64) as usize] as i64 + *off as i64;
                    s.b.truncate(e.max(0) as usize);
                    x.decode(part, &s.b, &honest);
                }
                Attack::Cells { part, seed } => {
                    let part = *part % 6;
                    part_name = part;
                    let mut r = Rng::new(*seed);
                    let mut s = stored(part.min(4), &honest, &cpi);
                    for _ in 0..r.range(1, 3) {
                        let (at, l) = s.cells[r.us(s.cells.len())];
                        match r.below(3) {
                            0 => s.b[at..at + l].fill(255),
                            // the order of the field, and one more
                            1 => {
                                let mut p = [0u8; 32];
                                p[0] = 8;
                                p[7] = 17;
                                p[31] = 1 + r.below(2) as u8;
                                s.b[at..at + l].copy_from_slice(&p[..l]);
                            }
                            _ => s.b[at] |= 0xf8,
                        }
                    }
                    x.decode(part, &s.b, &honest);
                }
                Attack::Faults { part, muts } => {
                    let part = *part % 6;
                    part_name = part;
                    let mut b = stored(part.min(4), &honest, &cpi).b;
                    muts.iter().for_each(|m| {
                        mutate::apply_bytes(&mut b, m);
                    });
                    x.decode(part, &b, &honest);
                }
                Attack::Claim { log, flaw, seed } => {
                    let log = (*log).min(63);
                    let mut r = Rng::new(*seed);
                    let mut p = claim(&sh, &c.opts, log, &mut r);
                    if *flaw > 0 {
                        mutate::apply_struct(&mut p, &Mut::List { list: *flaw as u64, how: r.next() as u8, at: r.next(), salt: r.next() });
                    }
                    let pi = match &inst.pi {
                        Pi::Cairo(q) if r.chance(1, 2) => {
                            let mut q = q.clone();
                            q.num_steps = p.trace_length;
                            Pi::Cairo(q)
                        }
                        q => q.clone(),
                    };
                    if log > 40 && *flaw == 0 {
                        x.out.stat("claim_past_2^40");
                    }
                    x.verify(&p, &pi);
                    let b = layout::proof(&p).b;
                    x.decode(0, &b, &honest);
                }
                Attack::Struct { muts } => {
                    let mut p = clone_proof(&honest);
                    muts.iter().for_each(|m| {
                        mutate::apply_struct(&mut p, m);
                    });
                    x.verify(&p, &inst.pi);
                }
                Attack::Rows { rows } => {
                    let mut p = clone_proof(&honest);
                    p.trace_length = *rows as usize;
                    x.verify(&p, &inst.pi);
                }
                Attack::Shape { values, width, seed } => {
                    let mut r = Rng::new(*seed);
                    let mut p = clone_proof(&honest);
                    p.trace_ood_frame_evaluations = Frame::new((0..*values).map(|_| fe_rand(&mut r)).collect(), *width as usize);
                    x.call("Frame::serialize", 32 * values, || p.trace_ood_frame_evaluations.serialize());
                    x.verify_frame(&p);
                }
                Attack::Inputs { how, log } => {
                    let q = inputs(&cpi, how);
                    if let Pi::Cairo(_) = &inst.pi {
                        match log {
                            None => x.verify(&honest, &Pi::Cairo(q.clone())),
                            Some(l) => {
                                let mut r = Rng::new(how[0].1);
                                let p = claim(&sh, &c.opts, *l, &mut r);
                                x.verify(&p, &Pi::Cairo(q.clone()));
                            }
                        }
                        let b = layout::public_inputs(&q).b;
                        x.decode(4, &b, &honest);
                    }
                }
                Attack::Other { stmt } => {
                    if let Ok(i) = zoo::build(stmt) {
                        if let Ok(p) = i.prove(&c.opts) {
                            x.verify(&p, &inst.pi);
                        }
                    }
                }
                Attack::Empty => {
                    let p = claim(&zoo::Shape { cols: 0, aux: 0, offs: vec![] }, &Opts { q: 0, ..c.opts.clone() }, 0, &mut Rng::new(1));
                    x.verify(&p, &inst.pi);
                    let mut p = clone_proof(&p);
                    p.trace_length = inst.n();
                    x.verify(&p, &inst.pi);
                }
            }
            let after = (out.stats.get("decoded").copied(), out.stats.get("rejected").copied(), out.violations.len());
            if after.1 != before.1 {
                out.nontrivial = true;
            }
            out.state(hash_bytes(format!("{kind} {name} {part_name} {} {} {}", after.0 != before.0, after.1 != before.1, after.2).as_bytes()));
            if out.sample.is_empty() && after.0 != before.0 {
                out.sample = format!("{kind}: {text}: decoded and judged");
            }
            out.ev(mix(hash_bytes(name.as_bytes())));
        }
        let v = inst.pi.check(&honest, &c.opts.po());
        out.stat("honest_after");
        if v != Verdict::Accept {
            out.bad("honest-afterwards", format!("after {} faulty messages the honest proof gets: {}", c.muts.len(), v.s()));
        }
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["muts", "set", "how", "trs", "bnds", "blocks"])
    }
}

impl Ctx<'_> {
    fn verify_frame(&mut self, p: &Proof) {
        // misshapen frames cannot be walked row by row: count their bytes only
        let o = self.opts.po();
        let pi = self.pi;
        let len = wire::encode(pi, p).len();
        if let Some(v) = self.call("verify", len, || pi.verify(p, &o)) {
            self.out.stat(if v { "accepted" } else { "rejected" });
        }
    }
}
