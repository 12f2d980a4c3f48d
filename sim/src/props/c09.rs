//! What is stored is what is read back: stored proofs and public inputs keep
//! their values and their form, and damaged files are refused or read as what
//! they say.
use crate::core::*;
use crate::layout::{self, Read};
use crate::mutate::{self, Mut};
use crate::props::c08::{extreme, inputs};
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::{self, Pi, Stmt};
use lambdaworks_crypto::merkle_tree::proof::Proof as Path;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fmt::Debug;

pub struct C09;

type Query = FriDecommitment<F>;
type Opening = DeepPolynomialOpenings<F>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// stores and reads the session's values, changed like this
    Changed { muts: Vec<Mut>, pi: Vec<(u8, u64)> },
    /// stores and reads values of any shape
    Any { part: u8, seed: u64 },
    /// values one list of which is long
    Long { part: u8, list: u8, len: u32, seed: u64 },
    /// frames whose width does not fit their values
    Width { values: usize, width: u64, seed: u64 },
    /// a stored value damaged by the disk
    Disk { part: u8, any: Option<u64>, faults: Vec<Disk> },
    /// the proof file that the repository keeps
    Golden,
}
/// Positions are fractions of the file, in 2^-32.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Disk {
    /// the write stopped here (crash, full disk)
    Torn { at: u32 },
    /// a block never reached the disk: zeroes instead
    Lost { at: u32, len: u16 },
    /// a block was written where the next should be
    Twice { at: u32, len: u16 },
    /// two neighbouring blocks changed places
    Swapped { at: u32, len: u16 },
    /// a longer, older file was not truncated
    Stale { extra: u16, seed: u64 },
    Bit { at: u32, bit: u8 },
    /// one of the stored numbers
    Number { which: u64, value: u64 },
    /// the write stopped near the border of a value
    Edge { which: u64, off: i8 },
    /// one stored value replaced by noise
    Cell { which: u64, seed: u64 },
}

fn random_disk(r: &mut Rng) -> Disk {
    let at = r.next() as u32;
    let len = *r.pick(&[8, 8, 16, 32, 32, 40, 64, 512, 4096]);
    match r.below(12) {
        0 => Disk::Torn { at },
        1 => Disk::Lost { at, len },
        2 => Disk::Twice { at, len },
        3 => Disk::Swapped { at, len },
        4 => Disk::Stale { extra: *r.pick(&[1, 7, 8, 9, 32, 500]), seed: r.next() },
        5 | 6 => Disk::Bit { at, bit: r.below(8) as u8 },
        7 | 8 => {
            let value = if r.chance(1, 2) { extreme(r) } else { r.below(12) };
            Disk::Number { which: r.next(), value }
        }
        9 | 10 => Disk::Edge { which: r.next(), off: *r.pick(&[-1, 0, 0, 0, 1]) },
        _ => Disk::Cell { which: r.next(), seed: r.next() },
    }
}
fn damage(s: &layout::Bytes, faults: &[Disk]) -> Vec<u8> {
    let mut b = s.b.clone();
    for f in faults {
        let n = b.len();
        if n == 0 {
            break;
        }
        let pos = |at: u32| (at as u64 * n as u64 >> 32) as usize;
        match f {
            Disk::Torn { at } => b.truncate(pos(*at)),
            Disk::Lost { at, len } => {
                let p = pos(*at) / 8 * 8;
                let e = (p + *len as usize).min(n);
                b[p..e].fill(0);
            }
            Disk::Twice { at, len } => {
                let (p, l) = (pos(*at), *len as usize);
                let v = b[p..(p + l).min(n)].to_vec();
                let q = (p + l).min(n);
                let e = (q + v.len()).min(n);
                b[q..e].copy_from_slice(&v[..e - q]);
            }
            Disk::Swapped { at, len } => {
                let (p, l) = (pos(*at), *len as usize);
                if p + 2 * l <= n {
                    let (x, y) = b[p..p + 2 * l].split_at_mut(l);
                    x.swap_with_slice(y);
                }
            }
            Disk::Stale { extra, seed } => {
                let mut r = Rng::new(*seed);
                b.extend((0..*extra).map(|_| r.next() as u8));
            }
            Disk::Bit { at, bit } => b[pos(*at)] ^= 1 << (bit & 7),
            Disk::Number { which, value } => {
                let (o, _) = s.nums[(*which % s.nums.len() as u64) as usize];
                if o + 8 <= n {
                    b[o..o + 8].copy_from_slice(&value.to_be_bytes());
                }
            }
            Disk::Edge { which, off } => {
                let e = s.edges[(*which % s.edges.len() as u64) as usize] as i64 + *off as i64;
                b.truncate(e.max(0) as usize);
            }
            Disk::Cell { which, seed } => {
                if !s.cells.is_empty() {
                    let (o, l) = s.cells[(*which % s.cells.len() as u64) as usize];
                    if o + l <= n {
                        let v = Rng::new(*seed).bytes32();
                        b[o..o + l].copy_from_slice(&v[..l]);
                    }
                }
            }
        }
    }
    b
}

/// a random element, or one at the edge of some range
fn any_fe(r: &mut Rng) -> FE {
    match r.below(6) {
        0 => fe_i(r.below(3) as i64 - 1),
        1 => fe(extreme(r)),
        _ => fe_rand(r),
    }
}
fn any_com(r: &mut Rng) -> [u8; 32] {
    match r.below(8) {
        0 => [255; 32],
        1 => [0; 32],
        _ => r.bytes32(),
    }
}
fn any_u16(r: &mut Rng) -> u16 {
    match r.below(3) {
        0 => *r.pick(&[0, 0, 1, 255, 256, 0x7fff, 0x8000, 0xff00, u16::MAX]),
        _ => r.next() as u16,
    }
}
fn any_felts(r: &mut Rng) -> Vec<FE> {
    (0..*r.pick(&[0u64, 0, 1, 2, 5])).map(|_| any_fe(r)).collect()
}
fn any_coms(r: &mut Rng) -> Vec<[u8; 32]> {
    (0..*r.pick(&[0u64, 0, 1, 2, 4])).map(|_| any_com(r)).collect()
}
fn any_paths(r: &mut Rng) -> Vec<Path<[u8; 32]>> {
    (0..*r.pick(&[0u64, 0, 1, 2, 3])).map(|_| Path { merkle_path: any_coms(r) }).collect()
}
fn any_frame(r: &mut Rng) -> Frame<F> {
    let (h, w) = (*r.pick(&[0usize, 1, 2, 3]), *r.pick(&[1usize, 1, 2, 4, 40]));
    Frame::new((0..h * w).map(|_| any_fe(r)).collect(), w)
}
fn any_query(r: &mut Rng) -> Query {
    FriDecommitment { layers_auth_paths_sym: any_paths(r), layers_evaluations_sym: any_felts(r), layers_auth_paths: any_paths(r), layers_evaluations: any_felts(r) }
}
fn any_opening(r: &mut Rng) -> Opening {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: Path { merkle_path: any_coms(r) },
        lde_composition_poly_even_evaluation: any_fe(r),
        lde_composition_poly_odd_evaluation: any_fe(r),
        lde_trace_merkle_proofs: any_paths(r),
        lde_trace_evaluations: any_felts(r),
    }
}
fn any_proof(r: &mut Rng) -> Proof {
    StarkProof {
        trace_length: extreme(r) as usize,
        lde_trace_merkle_roots: any_coms(r),
        trace_ood_frame_evaluations: any_frame(r),
        composition_poly_root: any_com(r),
        composition_poly_even_ood_evaluation: any_fe(r),
        composition_poly_odd_ood_evaluation: any_fe(r),
        fri_layers_merkle_roots: any_coms(r),
        fri_last_value: any_fe(r),
        query_list: (0..r.below(3)).map(|_| any_query(r)).collect(),
        deep_poly_openings: (0..r.below(3)).map(|_| any_opening(r)).collect(),
        nonce: extreme(r),
    }
}
fn any_inputs(r: &mut Rng) -> PublicInputs {
    let mut p = crate::cairo::empty_pi();
    for f in [&mut p.pc_init, &mut p.ap_init, &mut p.fp_init, &mut p.pc_final, &mut p.ap_final] {
        *f = any_fe(r);
    }
    p.range_check_min = r.chance(2, 3).then(|| any_u16(r));
    p.range_check_max = r.chance(2, 3).then(|| any_u16(r));
    p.memory_segments.clear();
    p.public_memory.clear();
    for k in [MemorySegment::RangeCheck, MemorySegment::Output] {
        if r.chance(1, 2) {
            p.memory_segments.insert(k, extreme(r)..extreme(r));
        }
    }
    for _ in 0..*r.pick(&[0u64, 1, 3, 17]) {
        let a = match r.below(3) {
            0 => any_fe(r),
            1 => fe(extreme(r)),
            _ => fe(r.below(30)),
        };
        p.public_memory.insert(a, any_fe(r));
    }
    p.num_steps = extreme(r) as usize;
    p
}

/// How the values of one part are written, read and compared.
trait Part: Serializable + Deserializable + Sized {
    const NAME: &'static str;
    fn own(&self) -> layout::Bytes;
    fn read(b: &[u8], strict: bool) -> Result<Self, String>;
    fn same(&self, o: &Self) -> bool {
        self.own().b == o.own().b
    }
}
impl Part for Proof {
    const NAME: &'static str = "proof";
    fn own(&self) -> layout::Bytes {
        layout::proof(self)
    }
    fn read(b: &[u8], strict: bool) -> Result<Self, String> {
        Read::new(b, strict).proof()
    }
    fn same(&self, o: &Self) -> bool {
        // frames of any width, by their values
        self.trace_ood_frame_evaluations == o.trace_ood_frame_evaluations && {
            let cut = |p: &Proof| {
                let mut p = clone_proof(p);
                p.trace_ood_frame_evaluations = Frame::new(vec![], 1);
                proof_canon(&p)
            };
            cut(self) == cut(o)
        }
    }
}
impl Part for Frame<F> {
    const NAME: &'static str = "frame";
    fn own(&self) -> layout::Bytes {
        let mut p = any_proof(&mut Rng::new(0));
        p.trace_ood_frame_evaluations = self.clone();
        layout::frame(&p)
    }
    fn read(b: &[u8], strict: bool) -> Result<Self, String> {
        Read::new(b, strict).frame()
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Part for Query {
    const NAME: &'static str = "query";
    fn own(&self) -> layout::Bytes {
        layout::query(self)
    }
    fn read(b: &[u8], strict: bool) -> Result<Self, String> {
        Read::new(b, strict).query()
    }
}
impl Part for Opening {
    const NAME: &'static str = "opening";
    fn own(&self) -> layout::Bytes {
        layout::opening(self)
    }
    fn read(b: &[u8], strict: bool) -> Result<Self, String> {
        Read::new(b, strict).opening()
    }
}
impl Part for PublicInputs {
    const NAME: &'static str = "public inputs";
    fn own(&self) -> layout::Bytes {
        layout::public_inputs(self)
    }
    fn read(b: &[u8], strict: bool) -> Result<Self, String> {
        Read::new(b, strict).public_inputs()
    }
    fn same(&self, o: &Self) -> bool {
        wire::pi_canon(self) == wire::pi_canon(o)
    }
}

/// store, read back, store again
fn round<T: Part>(v: &T, form: bool, out: &mut RunOut, what: &str) {
    let n = T::NAME;
    out.sim_time += 1;
    out.stat(&format!("stored:{n}"));
    let b = match catch(|| v.serialize()) {
        Ok(b) => b,
        Err(m) => return out.bad(&format!("write-panic:{n}"), format!("{m}; {what}")),
    };
    out.ev(hash_bytes(&b));
    if form {
        let own = v.own().b;
        if own != b {
            let at = own.iter().zip(&b).take_while(|(x, y)| x == y).count();
            out.bad(&format!("form:{n}"), format!("the stored form of a {n} is not the one files have, from byte {at} of {} ({} written); {what}", own.len(), b.len()));
        }
    }
    if catch(|| v.serialize()).ok().as_ref() != Some(&b) {
        out.bad(&format!("unstable:{n}"), format!("the same {n} is stored as different bytes; {what}"));
    }
    match catch(|| T::deserialize(&b)) {
        Ok(Ok(w)) => {
            if !v.same(&w) {
                out.bad(&format!("value:{n}"), format!("a {n} changes when stored and read; {what}"));
            } else if catch(|| w.serialize()).ok().as_ref() != Some(&b) {
                out.bad(&format!("again:{n}"), format!("a {n} that was read is stored as other bytes; {what}"));
            }
        }
        Ok(Err(e)) => out.bad(&format!("unreadable:{n}"), format!("a stored {n} cannot be read: {e:?}; {what}")),
        Err(m) => out.bad(&format!("read-panic:{n}"), format!("{m}; {what}")),
    }
}
/// reads damaged bytes
fn damaged<T: Part>(b: &[u8], orig: &T, out: &mut RunOut, what: &str) {
    let n = T::NAME;
    out.sim_time += 1;
    let strict = T::read(b, true);
    let lenient = T::read(b, false);
    let fate = match catch(|| T::deserialize(b)) {
        Err(m) => {
            out.bad(&format!("read-panic:{n}"), format!("{m}; {what}"));
            "panic"
        }
        Ok(Err(_)) => {
            if strict.is_ok() {
                out.bad(&format!("refused:{n}"), format!("well-formed bytes are refused; {what}"));
            }
            "refused"
        }
        Ok(Ok(v)) => match lenient {
            Err(e) => {
                out.bad(&format!("made-up:{n}"), format!("bytes that hold no {n} ({e}) are read as one; {what}"));
                "made up"
            }
            Ok(w) => {
                if !v.same(&w) {
                    out.bad(&format!("misread:{n}"), format!("damaged bytes are read as values they do not hold; {what}"));
                }
                // what was read can be stored again
                round(&v, false, out, what);
                if v.same(orig) {
                    "unchanged"
                } else if strict.is_ok() {
                    "other value"
                } else {
                    "irregular"
                }
            }
        },
    };
    out.stat(&format!("damaged:{fate}"));
    out.state(hash_bytes(format!("{n} {fate} {}", general(what)).as_bytes()));
    out.evs(fate);
}
fn general(w: &str) -> String {
    w.chars().filter(|c| c.is_alphabetic() || *c == ' ').collect()
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run stores and reads many values: a real proof and its public inputs, altered ones, values of any shape, and stored bytes damaged by a disk that loses, repeats, swaps, tears and flips; \
                   an independent writer and reader of the stored form say what the bytes hold; non-trivial if a damaged file was refused and another was read",
            level: "exploration",
            real: &["all serializers and deserializers", "prover, verifier (for real values)"],
            stub: &["lambdaworks-math (field element bytes)", "the disk"],
            assumptions: &["the stored form is the one of the proof file in benches/proofs"],
            state_measure: "hash of (part, kinds of damage, outcome)",
            time_unit: "values stored or read",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 10000 } else { 300000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "stored:proof", "stored:frame", "stored:query", "stored:opening", "stored:public inputs", "damaged:refused", "damaged:unchanged", "damaged:other value", "damaged:irregular", "golden",
            "order_of_insertion", "long_list:8_bits", "long_list:16_bits", "verified_after_reading",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.b = *r.pick(&[2, 4, 4]);
        opts.q = *r.pick(&[1, 2, 3]);
        opts.g = 0;
        let stmt = zoo::random_stmt(&mut r, opts.b as usize, 4, 2);
        if matches!(stmt, Stmt::Cairo(_)) {
            opts.b = 4;
        }
        let mut ops = vec![Op::Changed { muts: vec![], pi: vec![] }];
        if idx % 256 == 3 {
            let len = *r.pick(&[65535u32, 65536, 65537, 70000]);
            ops.push(Op::Long { part: r.below(5) as u8, list: r.next() as u8, len, seed: r.next() });
        }
        if idx % 128 == 0 {
            ops.push(Op::Golden);
        }
        for _ in 0..24 {
            if r.chance(1, 40) {
                let len = *r.pick(&[255u32, 256, 257, 300, 511, 1000, 4097]);
                ops.push(Op::Long { part: r.below(5) as u8, list: r.next() as u8, len, seed: r.next() });
            }
            ops.push(match r.below(10) {
                0 | 1 => Op::Changed { muts: (0..r.range(1, 3)).map(|_| mutate::random_mut(&mut r)).filter(|m| !mutate::is_byte(m)).collect(), pi: (0..r.below(3)).map(|_| (r.below(32) as u8, r.next())).collect() },
                2 | 3 => Op::Any { part: r.below(5) as u8, seed: r.next() },
                4 => {
                    let width = if r.chance(1, 2) { extreme(&mut r) } else { r.below(20) };
                    Op::Width { values: r.us(12), width, seed: r.next() }
                }
                _ => {
                    let k = if r.chance(3, 4) { 1 } else { r.range(2, 3) };
                    Op::Disk { part: r.below(5) as u8, any: r.chance(1, 2).then(|| r.next()), faults: (0..k).map(|_| random_disk(&mut r)).collect() }
                }
            });
        }
        val(&Case { stmt, opts, ops })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        let inst = match zoo::build(&c.stmt) {
            Ok(i) => i,
            Err(e) => {
                out.evs(&e);
                return out;
            }
        };
        let honest = match inst.prove(&c.opts) {
            Ok(p) => p,
            Err(e) => {
                out.bad("prover-failed", e);
                return out;
            }
        };
        let cpi = if let Pi::Cairo(p) = &inst.pi { p.clone() } else { any_inputs(&mut Rng::new(hash_bytes(format!("{:?}", c.stmt).as_bytes()))) };
        for op in &c.ops {
            let what = {
                let mut s = format!("{op:?}");
                s.truncate(300);
                s
            };
            match op {
                Op::Changed { muts, pi } => {
                    let mut p = clone_proof(&honest);
                    muts.iter().for_each(|m| {
                        mutate::apply_struct(&mut p, m);
                    });
                    let f = &p.trace_ood_frame_evaluations;
                    let fits = f.num_columns() > 0 && f.has_shape(f.num_rows(), f.num_columns());
                    round(&p, fits, &mut out, &what);
                    round(&p.trace_ood_frame_evaluations, fits, &mut out, &what);
                    p.query_list.iter().take(2).for_each(|q| round(q, true, &mut out, &what));
                    p.deep_poly_openings.iter().take(2).for_each(|q| round(q, true, &mut out, &what));
                    let q = inputs(&cpi, pi);
                    round(&q, true, &mut out, &what);
                    orders(&q, &mut out, &what);
                    if muts.is_empty() && pi.is_empty() {
                        let b = wire::encode(&inst.pi, &honest);
                        let (v, _) = wire::receive(&inst.pi, &b, &c.opts);
                        out.stat("verified_after_reading");
                        if v != Verdict::Accept {
                            out.bad("stored-proof-rejected", format!("a proof that was stored and read: {}", v.s()));
                        }
                    }
                }
                Op::Any { part, seed } => {
                    let r = &mut Rng::new(*seed);
                    match part % 5 {
                        0 => round(&any_proof(r), true, &mut out, &what),
                        1 => round(&any_frame(r), true, &mut out, &what),
                        2 => round(&any_query(r), true, &mut out, &what),
                        3 => round(&any_opening(r), true, &mut out, &what),
                        _ => {
                            let q = any_inputs(r);
                            round(&q, true, &mut out, &what);
                            orders(&q, &mut out, &what);
                        }
                    }
                }
                Op::Long { part, list, len, seed } => {
                    let r = &mut Rng::new(*seed);
                    let n = *len as usize;
                    let what = format!("list {list} with {n} entries");
                    out.stat(if n > 65535 { "long_list:16_bits" } else { "long_list:8_bits" });
                    fn felts(r: &mut Rng, n: usize) -> Vec<FE> {
                        let x = fe_rand(r);
                        (0..n).map(|i| x + fe(i as u64)).collect()
                    }
                    let coms = |r: &mut Rng, n: usize| -> Vec<[u8; 32]> { (0..n).map(|_| r.bytes32()).collect() };
                    let paths = |r: &mut Rng, n: usize| -> Vec<Path<[u8; 32]>> { (0..n).map(|_| Path { merkle_path: (0..r.below(2)).map(|_| any_com(r)).collect() }).collect() };
                    let query = |r: &mut Rng, list: u8| {
                        let mut q = any_query(r);
                        match list % 6 {
                            0 => q.layers_auth_paths_sym = paths(r, n),
                            1 => q.layers_evaluations_sym = felts(r, n),
                            2 => q.layers_auth_paths = paths(r, n),
                            3 => q.layers_evaluations = felts(r, n),
                            4 => q.layers_auth_paths_sym.push(Path { merkle_path: coms(r, n) }),
                            _ => q.layers_auth_paths.push(Path { merkle_path: coms(r, n) }),
                        }
                        q
                    };
                    let opening = |r: &mut Rng, list: u8| {
                        let mut o = any_opening(r);
                        match list % 4 {
                            0 => o.lde_composition_poly_proof = Path { merkle_path: coms(r, n) },
                            1 => o.lde_trace_merkle_proofs = paths(r, n),
                            2 => o.lde_trace_evaluations = felts(r, n),
                            _ => o.lde_trace_merkle_proofs.push(Path { merkle_path: coms(r, n) }),
                        }
                        o
                    };
                    let frame = |r: &mut Rng, list: u8| {
                        let w = [1, 2, n / 2, n][list as usize % 4].max(1);
                        Frame::<F>::new(felts(r, n / w * w), w)
                    };
                    match part % 5 {
                        0 => {
                            let mut p = any_proof(r);
                            match list % 7 {
                                0 => p.lde_trace_merkle_roots = coms(r, n),
                                1 => p.fri_layers_merkle_roots = coms(r, n),
                                2 => p.query_list = (0..n).map(|_| FriDecommitment { layers_auth_paths_sym: vec![], layers_evaluations_sym: vec![], layers_auth_paths: vec![], layers_evaluations: vec![] }).collect(),
                                3 => {
                                    let o = any_opening(r);
                                    p.deep_poly_openings = vec![o; n];
                                }
                                4 => p.query_list.push(query(r, (*seed % 6) as u8)),
                                5 => p.deep_poly_openings.push(opening(r, (*seed % 4) as u8)),
                                _ => p.trace_ood_frame_evaluations = frame(r, (*seed % 4) as u8),
                            }
                            round(&p, true, &mut out, &what);
                        }
                        1 => round(&frame(r, *list), true, &mut out, &what),
                        2 => round(&query(r, *list), true, &mut out, &what),
                        3 => round(&opening(r, *list), true, &mut out, &what),
                        _ => {
                            let mut q = any_inputs(r);
                            let (a, v) = (if *list % 2 == 0 { fe(1) } else { any_fe(r) }, fe_rand(r));
                            for i in 0..n as u64 {
                                q.public_memory.insert(a + fe(i), v + fe(i));
                            }
                            round(&q, true, &mut out, &what);
                            orders(&q, &mut out, &what);
                        }
                    }
                }
                Op::Width { values, width, seed } => {
                    let mut r = Rng::new(*seed);
                    round(&Frame::<F>::new((0..*values).map(|_| fe_rand(&mut r)).collect(), *width as usize), false, &mut out, &what);
                }
                Op::Disk { part, any, faults } => {
                    let what = format!("{faults:?}");
                    macro_rules! go {
                        ($v:expr) => {{
                            let v = $v;
                            let b = damage(&v.own(), faults);
                            damaged(&b, &v, &mut out, &what);
                        }};
                    }
                    let r = &mut Rng::new(any.unwrap_or(0));
                    match (part % 5, any.is_some()) {
                        (0, true) => go!(any_proof(r)),
                        (0, _) => go!(clone_proof(&honest)),
                        (1, true) => go!(any_frame(r)),
                        (1, _) => go!(honest.trace_ood_frame_evaluations.clone()),
                        (2, true) => go!(any_query(r)),
                        (2, _) => go!(honest.query_list[0].clone()),
                        (3, true) => go!(any_opening(r)),
                        (3, _) => go!(honest.deep_poly_openings[0].clone()),
                        (_, true) => go!(any_inputs(r)),
                        _ => go!(cpi.clone()),
                    }
                }
                Op::Golden => golden(&mut out),
            }
            if out.sample.is_empty() && matches!(op, Op::Disk { .. }) {
                out.sample = format!("{}: {what}", inst.pi.kind());
            }
        }
        let has = |k: &str| out.stats.contains_key(k);
        out.nontrivial = has("damaged:refused") && (has("damaged:other value") || has("damaged:unchanged") || has("damaged:irregular"));
        out.ev(mix(7));
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["ops", "faults", "muts", "pi", "trs", "bnds", "blocks"])
    }
}

/// Equal public inputs, put together in another order, are stored as equal bytes.
fn orders(p: &PublicInputs, out: &mut RunOut, what: &str) {
    let Ok(b) = catch(|| p.serialize()) else { return };
    let mut cells: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (*a, *v)).collect();
    cells.sort_by_key(|x| layout::key(&x.0));
    for k in 0..2 {
        cells.reverse();
        let mut q = p.clone();
        q.public_memory = cells.iter().cloned().collect();
        q.memory_segments = [MemorySegment::Output, MemorySegment::RangeCheck].into_iter().filter_map(|s| p.memory_segments.get(&s).map(|r| (s, r.clone()))).collect();
        if k == 1 {
            q.public_memory.reserve(1000);
        }
        out.stat("order_of_insertion");
        if catch(|| q.serialize()).ok().as_ref() != Some(&b) {
            out.bad("unstable:public inputs", format!("equal public inputs are stored as different bytes; {what}"));
        }
    }
}

/// A file that an earlier version wrote.
fn golden(out: &mut RunOut) {
    let Ok(b) = std::fs::read("/repo/benches/proofs/fibonacci_70000.proof") else { return };
    if b.len() < 8 {
        return;
    }
    let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    if b.len() < 8 + n {
        return;
    }
    let (p, q) = (&b[8..8 + n], &b[8 + n..]);
    out.stat("golden");
    out.sim_time += 1;
    let Ok(own) = Read::new(p, true).proof() else {
        out.harness_error = Some("the proof file in benches/proofs does not have the stored form".into());
        return;
    };
    match catch(|| (Proof::deserialize(p), PublicInputs::deserialize(q))) {
        Ok((Ok(x), Ok(y))) => {
            if !x.same(&own) {
                out.bad("old-file", "the proof file in benches/proofs is read as other values");
            }
            let v = Pi::Cairo(y.clone()).check(&x, &Opts::test().po());
            if v == Verdict::Reject && !crate::refproto::follows_protocol(&b) {
                out.stat("golden_of_another_protocol");
            } else if v != Verdict::Accept {
                out.bad("old-file", format!("the proof file in benches/proofs: {}", v.s()));
            }
            if catch(|| x.serialize()).ok().as_deref() != Some(p) {
                out.bad("old-file", "the proof file in benches/proofs is stored as other bytes");
            }
        }
        r => out.bad("old-file", format!("the proof file in benches/proofs cannot be read: {}", short(&r))),
    }
}
fn short(x: &impl Debug) -> String {
    let mut s = format!("{x:?}");
    s.truncate(200);
    s
}
