//! The runner hands over the execution that took place, or an error.
use crate::cairo::{self, CairoSpec};
use crate::core::*;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::Trace;
use bincode::enc::write::Writer;
use cairo_vm::sim::{set_plan, Fault, Plan, Run};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::errors::CairoImportError;
use lambdaworks_stark::cairo::execution_trace::{build_cairo_execution_trace, build_main_trace};
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::cairo::runner::file_writer::FileWriter;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion, Error};
use lambdaworks_stark::cairo::runner::vec_writer::VecWriter;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::ops::Range;

pub struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: CairoSpec,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// an undisturbed run
    Run,
    /// the machine fails: kind, and where (2^-16 of the steps)
    Vm { kind: u8, at: u16 },
    /// the program was damaged before it was run
    Program { faults: Vec<Damage> },
    /// trace and memory go through files
    Files { cap: u16, limit: Option<u32>, crash: bool, cut: i32, flip: Option<u32>, seed: u64 },
    /// files that are not there
    NoFile { kind: u8 },
    /// registers and memory of a run nobody ran: any instruction, anywhere
    Made { near: bool, seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// torn after this part (2^-16)
    Torn(u16),
    /// one bit of the file
    Bit(u32),
    /// one bit of a word of the program
    WordBit { word: u16, bit: u8 },
    /// a flag of one of the conditional jumps
    Jump { which: u16, bit: u8 },
    /// a word replaced
    Word { word: u16, value: u64 },
    /// the last words are missing
    Short(u16),
    Prime,
    NoMain,
    Builtin(u8),
    NotJson(u8),
    Value(u16, u8),
    /// an unknown hint
    Hint(u16),
}

fn u64le(b: &[u8; 32]) -> Option<u64> {
    b[8..].iter().all(|v| *v == 0).then(|| u64::from_le_bytes(b[..8].try_into().unwrap()))
}
fn felt(b: &[u8; 32]) -> FE {
    FE::from_bytes_le(b).unwrap()
}

pub fn ver(v1: bool) -> CairoVersion {
    if v1 { CairoVersion::V1 } else { CairoVersion::V0 }
}

/// The instruction has no defined meaning.
fn undefined(w: u64) -> bool {
    let f = w >> 48;
    f >> 9 & 1 == 1 && f & (0b11 << 5 | 1 << 10 | 0b111 << 12) != 0
}

/// What the trace has to hold for one step, up to the product; None where anything will do.
/// Second: the cells it reads.
#[allow(clippy::type_complexity)]
fn row(w: u64, (pc, ap, fp): (u64, u64, u64), mem: &dyn Fn(u64) -> Option<FE>) -> Option<(Vec<Option<FE>>, [(u64, FE); 4])> {
    let bit = |k: usize| w >> (48 + k) & 1;
    let off = [w & 0xffff, w >> 16 & 0xffff, w >> 32 & 0xffff];
    let at = |base: u64, o: u64| base.wrapping_add(o).wrapping_sub(32768);
    let dst_a = at(if bit(0) == 1 { fp } else { ap }, off[0]);
    let op0_a = at(if bit(1) == 1 { fp } else { ap }, off[1]);
    let op0 = mem(op0_a)?;
    let op1_a = match (bit(2), bit(3), bit(4)) {
        (1, 0, 0) => at(pc, off[2]),
        (0, 1, 0) => at(fp, off[2]),
        (0, 0, 1) => at(ap, off[2]),
        _ => at(fe_u64(&op0)?, off[2]),
    };
    let (dst, op1) = (mem(dst_a)?, mem(op1_a)?);
    let jnz = bit(9) == 1;
    let res = match (bit(5), bit(6)) {
        _ if jnz && dst == FE::zero() => None,
        _ if jnz => Some(dst.inv()),
        (1, 0) => Some(op0 + op1),
        (0, 1) => Some(op0 * op1),
        _ => Some(op1),
    };
    let mut want: Vec<Option<FE>> = (0..16).map(|k| Some(fe(bit(k)))).collect();
    want.push(res);
    want.extend([ap, fp, pc, dst_a, op0_a, op1_a].map(|v| Some(fe(v))));
    want.extend([fe(w), dst, op0, op1].map(Some));
    want.extend(off.map(|v| Some(fe(v))));
    let t0 = if jnz { dst } else { FE::zero() };
    want.push(Some(t0));
    want.push(res.map(|r| t0 * r));
    want.push(Some(op0 * op1));
    Some((want, [(pc, fe(w)), (dst_a, dst), (op0_a, op0), (op1_a, op1)]))
}

/// An instruction: Some(true) has a meaning, Some(false) has none, None: opinions differ.
fn meaning(w: u64) -> Option<bool> {
    let f = w >> 48;
    let one_of = |v: u64| v & v.wrapping_sub(1) == 0;
    let (op1, res, pc, ap, opc) = (f >> 2 & 7, f >> 5 & 3, f >> 7 & 7, f >> 10 & 3, f >> 12 & 7);
    if ![op1, res, pc, ap, opc].into_iter().all(one_of) || undefined(w) {
        return Some(false);
    }
    if f >> 15 == 1 || opc == 1 && ap != 0 {
        return None;
    }
    Some(true)
}
fn random_word(r: &mut Rng, near: bool) -> u64 {
    let one = |r: &mut Rng, bits: u64| match r.below(bits + 1) {
        0 => 0,
        k => 1 << (k - 1),
    };
    let mut f = r.below(4) | one(r, 3) << 2 | one(r, 2) << 5 | one(r, 3) << 7 | one(r, 2) << 10 | one(r, 3) << 12;
    if f >> 9 & 1 == 1 {
        f &= !(0b11 << 5 | 1 << 10 | 0b111 << 12);
    }
    if f >> 12 & 7 == 1 {
        f &= !(3 << 10);
    }
    let mut w = f;
    for _ in 0..3 {
        let o = match r.below(4) {
            _ if near => 0x8000 + r.below(120) - 60,
            0 => *r.pick(&[0, 1, 0xff, 0x100, 0x7f00, 0x7fff, 0x8000, 0x8001, 0x80ff, 0x8100, 0xff00, 0xffff]),
            _ => r.below(1 << 16),
        };
        w = w << 16 | o;
    }
    w
}

/// A run nobody ran: registers and memory that fit together.
fn made(r: &mut Rng, near: bool) -> (Run, std::collections::BTreeMap<u64, FE>, u64) {
    let codelen = if near { r.range(1, 12) } else { r.below(4) };
    let place = |r: &mut Rng| match r.below(6) {
        _ if near => r.range(80, 300),
        0 => r.range(32768, 33000),
        1 => (1 << 32) + r.below(100) - 50,
        2 => (1 << 63) + r.below(100) - 50,
        3 => r.range(65400, 65700),
        _ => r.range(40000, u64::MAX - 70000),
    };
    let val = |r: &mut Rng| match r.below(5) {
        0 => FE::zero(),
        1 => fe(r.below(400)),
        2 => fe_i(-(r.below(400) as i64)),
        _ => fe_rand(r),
    };
    let mut cells = std::collections::BTreeMap::new();
    let mut steps = vec![];
    let n = r.range(1, 8);
    for _ in 0..40 {
        if steps.len() as u64 == n {
            break;
        }
        let mut c = cells.clone();
        let pc = if near { r.range(1, codelen) } else { place(r) };
        let (ap, fp) = (place(r), place(r));
        let w = match c.get(&pc) {
            Some(v) => match fe_u64(v) {
                Some(w) if meaning(w) == Some(true) => w,
                _ => continue,
            },
            None => random_word(r, near),
        };
        c.insert(pc, fe(w));
        let bit = |k: usize| w >> (48 + k) & 1;
        let at = |base: u64, o: u64| (base as u128 + (o & 0xffff) as u128).checked_sub(32768).and_then(|a| u64::try_from(a).ok()).filter(|a| *a > 0);
        let (Some(dst_a), Some(op0_a)) = (at(if bit(0) == 1 { fp } else { ap }, w), at(if bit(1) == 1 { fp } else { ap }, w >> 16)) else { continue };
        let call = bit(12) == 1;
        let back = fe(pc + 1 + bit(2));
        let target = place(r);
        let deref = bit(2) + bit(3) + bit(4) == 0;
        let op0 = *c.entry(op0_a).or_insert_with(|| match (call, deref) {
            (true, _) => back,
            (_, true) => fe((target + 32768).wrapping_sub(w >> 32 & 0xffff)),
            _ => val(r),
        });
        let base = match (bit(2), bit(3), bit(4)) {
            (1, ..) => Some(pc),
            (_, 1, _) => Some(fp),
            (.., 1) => Some(ap),
            _ => fe_u64(&op0),
        };
        let Some(op1_a) = base.and_then(|b| at(b, w >> 32)) else { continue };
        if near && op1_a > 900 {
            continue;
        }
        let op1 = *c.entry(op1_a).or_insert_with(|| val(r));
        let res = match (bit(5), bit(6)) {
            (1, _) => op0 + op1,
            (_, 1) => op0 * op1,
            _ => op1,
        };
        let assert = bit(14) == 1;
        let dst = *c.entry(dst_a).or_insert_with(|| match (call, assert) {
            (true, _) => fe(fp),
            (_, true) => res,
            _ => val(r),
        });
        if call && (op0 != back || dst != fe(fp)) || assert && dst != res {
            continue;
        }
        cells = c;
        steps.push((pc, ap, fp));
    }
    for a in 1..=codelen {
        cells.entry(a).or_insert_with(|| val(r));
    }
    let range_check = r.chance(1, 2).then(|| {
        let (b, l) = (place(r).max(1), r.below(steps.len() as u64 + 1));
        for a in b..b + l {
            cells.entry(a).or_insert_with(|| fe(r.next()) * fe(1 << 32) * fe(1 << 32) + fe(r.next()));
        }
        (b, l)
    });
    // values of more than 128 bits are no range checked values
    let range_check = range_check.filter(|(b, l)| (*b..*b + *l).all(|a| cells[&a].to_bytes_be()[..16].iter().all(|x| *x == 0)));
    let mut memory = vec![];
    if near {
        memory = vec![None; 1 + *cells.keys().max().unwrap() as usize];
        for (a, v) in &cells {
            memory[*a as usize] = Some(v.to_bytes_le().try_into().unwrap());
        }
    }
    (Run { steps, memory, range_check, output: None }, cells, codelen)
}

/// Everything in which registers and memory differ from the run.
fn differs_raw(run: &Run, regs: &RegisterStates, mem: &CairoMemory) -> Option<String> {
    if regs.rows.len() != run.steps.len() {
        return Some(format!("{} steps instead of {}", regs.rows.len(), run.steps.len()));
    }
    for (i, (a, b)) in regs.rows.iter().zip(&run.steps).enumerate() {
        if (a.pc, a.ap, a.fp) != *b {
            return Some(format!("registers of step {i}: {a:?} instead of {b:?}"));
        }
    }
    let n = run.memory.iter().flatten().count();
    if mem.data.len() != n {
        return Some(format!("{} memory cells instead of {n}", mem.data.len()));
    }
    for (a, v) in run.memory.iter().enumerate() {
        if let Some(v) = v {
            if mem.get(&(a as u64)) != Some(&felt(v)) {
                return Some(format!("memory cell {a}"));
            }
        }
    }
    None
}

/// In what trace and public inputs differ from the run.
fn differs(run: &Run, words: &[FE], out: &Option<Range<u64>>, m: &Trace, p: &PublicInputs, stat: &mut dyn FnMut(&str)) -> Option<String> {
    let steps = run.steps.len();
    let mem = |a: u64| run.memory.get(a as usize).and_then(|c| c.as_ref()).map(felt);
    let inst = |a: u64| run.memory.get(a as usize).and_then(|c| c.as_ref()).and_then(u64le);
    // public inputs
    let (s0, sl) = (run.steps[0], run.steps[steps - 1]);
    for (name, got, want) in [
        ("pc_init", p.pc_init, s0.0),
        ("ap_init", p.ap_init, s0.1),
        ("fp_init", p.fp_init, s0.2),
        ("pc_final", p.pc_final, sl.0),
        ("ap_final", p.ap_final, sl.1),
    ] {
        if got != fe(want) {
            return Some(format!("{name}: {} instead of {want}", cairo::hexs(&got)));
        }
    }
    if p.num_steps != steps {
        return Some(format!("num_steps: {} instead of {steps}", p.num_steps));
    }
    let mut public: HashMap<FE, FE> = words.iter().enumerate().map(|(i, w)| (fe(i as u64 + 1), *w)).collect();
    if let Some(o) = out {
        for a in o.clone() {
            public.insert(fe(a), mem(a)?);
        }
    }
    if p.public_memory != public {
        return Some(format!("public memory: {} cells, {} expected, or other values", p.public_memory.len(), public.len()));
    }
    let mut segs = HashMap::new();
    if let Some((b, l)) = run.range_check {
        segs.insert(MemorySegment::RangeCheck, b..b + l);
    }
    if let Some(o) = out {
        segs.insert(MemorySegment::Output, o.clone());
    }
    if p.memory_segments.len() != segs.len() || segs.iter().any(|(k, v)| p.memory_segments.get(k) != Some(v)) {
        return Some(format!("memory segments: {:?} instead of {segs:?}", p.memory_segments));
    }
    // executed rows
    let rc = run.range_check;
    let cols = if rc.is_some() { 43 } else { 34 };
    if m.n_cols != cols || !m.n_rows().is_power_of_two() || m.n_rows() < steps {
        return Some(format!("trace of {} columns and {} rows", m.n_cols, m.n_rows()));
    }
    let (mut omin, mut omax) = (u16::MAX, 0u16);
    let mut accesses: HashMap<u64, FE> = HashMap::new();
    for (i, (pc, ap, fp)) in run.steps.iter().enumerate() {
        let w = inst(*pc)?;
        let bit = |k: usize| w >> (48 + k) & 1;
        for o in [w, w >> 16, w >> 32] {
            omin = omin.min(o as u16);
            omax = omax.max(o as u16);
        }
        let (mut want, touched) = row(w, (*pc, *ap, *fp), &mem)?;
        want.push(Some(fe((i + 1 < steps) as u64)));
        if let Some((b, l)) = rc {
            let v = if (i as u64) < l { mem(b + i as u64)? } else { FE::zero() };
            let bytes = v.to_bytes_be();
            for k in 0..8 {
                want.push(Some(fe(u16::from_be_bytes([bytes[30 - 2 * k], bytes[31 - 2 * k]]) as u64)));
            }
            want.push(Some(v));
        }
        for (c, x) in want.iter().enumerate() {
            if let Some(x) = x {
                if m.get(i, c) != *x {
                    return Some(format!("row {i} column {c}: {} instead of {}", cairo::hexs(&m.get(i, c)), cairo::hexs(x)));
                }
            }
        }
        accesses.extend(touched);
        for (k, name) in [(9, "jnz"), (10, "ap_add"), (12, "call"), (13, "ret"), (14, "assert"), (6, "mul"), (5, "add"), (7, "jmp_abs"), (8, "jmp_rel")] {
            if bit(k) == 1 {
                stat(&format!("executed:{name}"));
            }
        }
    }
    if let Some((_, l)) = rc {
        if l > steps as u64 {
            return Some(format!("{l} range checked values in {steps} rows"));
        }
    }
    if (p.range_check_min, p.range_check_max) != (Some(omin), Some(omax)) {
        return Some(format!("range of offsets: {:?}..{:?} instead of {omin}..{omax}", p.range_check_min, p.range_check_max));
    }
    // the rows after the run say nothing about it
    let mut seen: HashSet<u64> = accesses.keys().copied().collect();
    let mut dummies = 0;
    let mut offs = HashSet::new();
    for i in 0..m.n_rows() {
        for k in 27..30 {
            offs.insert(fe_u64(&m.get(i, k)).filter(|v| *v < 1 << 16)?);
        }
        if i < steps {
            continue;
        }
        if m.get(i, 33) != FE::zero() {
            return Some(format!("row {i} after the run counts as a step"));
        }
        for k in 0..4 {
            let (a, v) = (fe_u64(&m.get(i, 19 + k))?, m.get(i, 23 + k));
            if a == 0 {
                if v != FE::zero() {
                    return Some(format!("row {i}: address 0 holds a value"));
                }
                dummies += 1;
                continue;
            }
            seen.insert(a);
            let known = accesses.get(&a).or_else(|| public.get(&fe(a)));
            if known.is_some_and(|x| *x != v) {
                return Some(format!("row {i}: address {a} holds another value than in the run"));
            }
        }
    }
    if dummies < public.len() {
        return Some(format!("{dummies} places for {} public cells", public.len()));
    }
    seen.extend(public.keys().filter_map(fe_u64));
    let top = seen.iter().max().copied().unwrap_or(0);
    if let Some(a) = (1..=top).find(|a| !seen.contains(a)) {
        return Some(format!("address {a} is missing below {top}"));
    }
    if let Some(o) = (omin..=omax).find(|o| !offs.contains(&(*o as u64))) {
        return Some(format!("offset {o} is missing between {omin} and {omax}"));
    }
    if offs.iter().any(|o| !(omin as u64..=omax as u64).contains(o)) && m.n_rows() > 0 {
        // dummy rows may only repeat what is in range
        return Some("an offset outside the range".into());
    }
    None
}

/// The words of a program file.
fn words(bytes: &[u8], v1: bool) -> Option<Vec<FE>> {
    let v: Value = serde_json::from_slice(bytes).ok()?;
    v[if v1 { "bytecode" } else { "data" }].as_array()?.iter().map(|s| cairo_vm::felt::Felt252::from_str_any(s.as_str()?).map(|f| felt(&f.to_le_bytes()))).collect()
}

pub fn damage(bytes: &[u8], v1: bool, faults: &[Damage]) -> Vec<u8> {
    let mut b = bytes.to_vec();
    let key = if v1 { "bytecode" } else { "data" };
    for f in faults {
        let n = b.len().max(1);
        let mut js: Option<Value> = serde_json::from_slice(&b).ok();
        let mut done = false;
        if let Some(v) = js.as_mut().filter(|v| v[key].as_array().is_some_and(|a| !a.is_empty())) {
            done = true;
            let len = v[key].as_array().map_or(1, |a| a.len()).max(1);
            match f {
                Damage::WordBit { word, bit } => {
                    let w = &mut v[key][*word as usize % len];
                    if let Some(x) = w.as_str().and_then(cairo_vm::felt::Felt252::from_str_any) {
                        let mut y = x.to_le_bytes();
                        y[(*bit as usize % 252) / 8] ^= 1 << (bit % 8);
                        *w = json!(format!("0x{}", cairo::hexs(&felt(&y))));
                    }
                }
                Damage::Jump { which, bit } => {
                    let is = |x: &Value| x.as_str().and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok()).filter(|w| w >> 57 & 1 == 1 && w >> 63 == 0);
                    let at: Vec<usize> = (0..len).filter(|i| is(&v[key][*i]).is_some()).collect();
                    if !at.is_empty() {
                        let i = at[*which as usize % at.len()];
                        let w = is(&v[key][i]).unwrap() ^ 1 << (48 + bit % 15);
                        v[key][i] = json!(format!("{w:#x}"));
                    }
                }
                Damage::Word { word, value } => v[key][*word as usize % len] = json!(format!("{value:#x}")),
                Damage::Short(k) => {
                    if let Some(a) = v[key].as_array_mut() {
                        a.truncate(len.saturating_sub(*k as usize));
                    }
                }
                Damage::Prime => v["prime"] = json!("0x7fffffff"),
                Damage::NoMain => {
                    v["identifiers"] = json!({"__main__.other": {"pc": 0}});
                    v["entry_points_by_type"] = json!(null);
                }
                Damage::Builtin(k) => v["builtins"] = [json!(["ecdsa"]), json!(["nothing"]), json!([]), json!(["range_check", "pedersen"]), json!(7)][*k as usize % 5].clone(),
                Damage::Value(w, k) => {
                    v[key][*w as usize % len] =
                        [json!("xyz"), json!(""), json!(5), json!(null), json!("-1"), json!("0x8000000000000110000000000000000000000000000000000000000000000010")][*k as usize % 6].clone()
                }
                Damage::Hint(w) => {
                    let code = json!([{"code": "unknown_hint()", "accessible_scopes": [], "flow_tracking_data": {}}]);
                    v["hints"] = if v1 { json!([[*w as usize % len, [{"Unknown": 1}]]]) } else { json!({format!("{}", *w as usize % len): code}) };
                }
                _ => done = false,
            }
        }
        if done {
            b = js.unwrap().to_string().into_bytes();
            continue;
        }
        match f {
            Damage::Torn(at) => b.truncate(*at as usize * n >> 16),
            Damage::Bit(at) => {
                if !b.is_empty() {
                    b[(*at as usize >> 3) % n] ^= 1 << (at & 7);
                }
            }
            Damage::NotJson(k) => b = [&b""[..], b"null", b"[]", b"\xff\xfe", b"{}", b"\"\""][*k as usize % 6].to_vec(),
            _ => {}
        }
    }
    b
}

pub fn random_damage(r: &mut Rng) -> Damage {
    let word = if r.chance(1, 2) { r.below(12) as u16 } else { r.next() as u16 };
    match r.below(18) {
        16 | 17 => Damage::Jump { which: r.next() as u16, bit: *r.pick(&[0, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14]) },
        0 => Damage::Torn(r.next() as u16),
        1 => Damage::Bit(r.next() as u32),
        2..=6 => Damage::WordBit { word, bit: if r.chance(3, 4) { r.range(48, 64) as u8 } else { r.next() as u8 } },
        7 | 8 => Damage::Word { word, value: r.next() >> 1 },
        9 => Damage::Short(r.range(1, 6) as u16),
        10 => Damage::Prime,
        11 => Damage::NoMain,
        12 => Damage::Builtin(r.next() as u8),
        13 => Damage::NotJson(r.next() as u8),
        14 => Damage::Value(word, r.next() as u8),
        _ => Damage::Hint(word),
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
/// No regular file grows beyond this: the disk is full.
fn disk_limit(n: u64) {
    unsafe {
        signal(25, 1); // SIGXFSZ: report instead of dying
        setrlimit(1, &[n, u64::MAX]);
    }
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = root().join("target").join("scratch").join(std::process::id().to_string());
        let _ = std::fs::create_dir_all(&d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub const GUARD: Plan = Plan { step_limit: Some(4000), fault: None, memory_limit: Some(9000) };

fn run_all(bytes: &[u8], v1: bool, out: &Option<Range<u64>>, plan: Plan) -> (Result<Result<(Trace, PublicInputs), Error>, String>, Option<Run>, usize) {
    set_plan(plan);
    let r = catch(|| generate_prover_args(bytes, &ver(v1), out));
    let fired = cairo_vm::sim::fired();
    let run = cairo_vm::sim::last_run();
    set_plan(Plan::default());
    (r, run, fired)
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run executes one program through the runner, undisturbed and under faults of the machine, the program file and the disk; trace and public inputs are compared cell by cell with \
                   what an independent decoder derives from the machine's own record, failures must be reported; non-trivial if a fault took effect",
            level: "exploration",
            real: &["run_program, generate_prover_args", "trace building, instruction decoding, public inputs", "VecWriter, FileWriter, CairoMemory and RegisterStates readers"],
            stub: &["cairo-vm (stand-in machine with fault seam and record of the run)", "lambdaworks-math", "bincode Writer trait"],
            assumptions: &["the stand-in machine keeps to the interface of cairo-vm"],
            state_measure: "hash of program, fault and outcome",
            time_unit: "machine steps",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 24000 } else { 1000000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "vm_step_error", "vm_trace_lost", "vm_crash", "vm_out_of_steps", "vm_out_of_memory", "vm_fault_after_end", "rerun_after_crash", "program_refused", "program_still_runs", "program_undefined",
            "v1_exact", "v1_refused", "v1_vm_fault", "exact", "with_range_checks", "with_public_output", "with_private_output", "holes", "disk_full_reported", "disk_fine", "crash_before_flush", "file_cut_refused",
            "file_cut_exact", "file_changed_exact", "no_file", "executed:jnz", "executed:ap_add", "executed:call", "executed:ret", "executed:assert", "executed:mul", "executed:add", "executed:jmp_abs",
            "executed:jmp_rel", "decoded", "no_instruction", "made_near", "made_far", "long_run", "entry_point", "encoded", "encoded_far",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut spec = cairo::random_spec(&mut r);
        if r.chance(1, 16) {
            spec = CairoSpec { blocks: vec![], rc: false, out: false, pub_out: false, v1: true, end_jump: false };
        }
        if idx % 4000 == 77 {
            // more steps, rows and addresses than fit into 16 bits
            spec.v1 = false;
            spec.blocks.retain(|b| !matches!(b, cairo::Blk::Rc(..)));
            spec.blocks.retain(|b| !matches!(b, cairo::Blk::Out(..)));
            (spec.out, spec.pub_out) = (false, false);
            // no cell from before the gap is within reach after it
            spec.blocks.push(cairo::Blk::Long(r.range(32800, 40000) as u32));
            spec.blocks.push(cairo::Blk::Far(r.range(34000, 90000) as u32));
            return val(&Case { spec, ops: vec![Op::Run] });
        }
        let mut ops = vec![Op::Run];
        for _ in 0..r.range(1, 3) {
            ops.push(Op::Made { near: r.chance(1, 3), seed: r.next() });
        }
        for _ in 0..r.range(2, 6) {
            ops.push(match r.below(10) {
                0..=2 => Op::Vm { kind: r.below(5) as u8, at: r.next() as u16 },
                3..=6 => Op::Program { faults: (0..r.range(1, 3)).map(|_| random_damage(&mut r)).collect() },
                7 | 8 => Op::Files {
                    cap: *r.pick(&[1, 7, 8, 40, 64, 512, 8192]),
                    limit: r.chance(1, 2).then(|| r.next() as u32),
                    crash: r.chance(1, 4),
                    cut: if r.chance(1, 2) { *r.pick(&[0, 0, 1, 8, 24, 40, -1, -7, -24, -40, -8]) } else { r.below(200) as i32 - 100 },
                    flip: r.chance(1, 3).then(|| r.next() as u32),
                    seed: r.next(),
                },
                _ => Op::NoFile { kind: r.below(3) as u8 },
            });
        }
        val(&Case { spec, ops })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        set_plan(Plan::default());
        let bytes = cairo::program(&c.spec);
        let v1 = c.spec.v1;
        let b = match cairo::build(&c.spec) {
            Ok(b) => b,
            Err(e) if e.contains("assemble") => return out,
            Err(e) => {
                out.bad("valid-program-failed", format!("{e}; {:?}", c.spec));
                return out;
            }
        };
        let steps = b.regs.rows.len();
        let range = b.out_range.clone();
        let ws = words(&bytes, v1).unwrap();
        out.sample = format!("{steps} steps, {:?}", c.ops);
        out.sample.truncate(300);
        for op in &c.ops {
            let before = out.violations.len();
            let mut effect = false;
            match op {
                Op::Run => self.undisturbed(&c.spec, &bytes, &ws, &range, &mut out),
                Op::Vm { kind, at } => {
                    let at = *at as usize * (steps + 2) >> 16;
                    let mut plan = Plan::default();
                    match kind {
                        0 => plan.fault = Some((at, Fault::StepError)),
                        1 => plan.fault = Some((at, Fault::TraceLost)),
                        2 => plan.fault = Some((at, Fault::Crash)),
                        3 => plan.step_limit = Some(at),
                        _ => plan.memory_limit = Some(1 + at),
                    }
                    let (r, _, fired) = run_all(&bytes, v1, &range, plan);
                    let strikes = match kind {
                        0 | 2 => at < steps,
                        1 => true,
                        3 => at < steps,
                        _ => false,
                    };
                    effect = strikes;
                    out.sim_time += at as u64;
                    out.state(mix(hash_bytes(&bytes)) ^ mix(*kind as u64 * 1000003 + at as u64));
                    match (&r, strikes) {
                        (Err(_), true) if *kind == 2 && fired > 0 => {
                            out.stat("vm_crash");
                            // started again, it works again
                            self.undisturbed(&c.spec, &bytes, &ws, &range, &mut out);
                            out.stat("rerun_after_crash");
                        }
                        (Err(e), _) => out.bad("panic", format!("{e}, the machine failed with {plan:?}; {steps} steps")),
                        (Ok(Ok(_)), true) => out.bad("failure-hidden", format!("the machine failed with {plan:?}, and yet there is a trace; {steps} steps")),
                        (Ok(Err(_)), true) => {
                            out.stat(["vm_step_error", "vm_trace_lost", "", "vm_out_of_steps"][*kind as usize]);
                            if v1 {
                                out.stat("v1_vm_fault");
                            }
                        }
                        (Ok(Err(_)), false) if *kind == 4 => {
                            effect = true;
                            out.stat("vm_out_of_memory");
                        }
                        (Ok(Err(e)), false) => out.bad("valid-program-failed", format!("{e}, the fault {plan:?} came after the end; {steps} steps")),
                        (Ok(Ok((t, p))), false) => {
                            out.stat("vm_fault_after_end");
                            if t.table != b.trace.table || crate::wire::pi_canon(p) != crate::wire::pi_canon(&b.pi) {
                                out.bad("run-differs", format!("a fault after the end changed the trace: {plan:?}"));
                            }
                        }
                    }
                }
                Op::Program { faults } => {
                    let d = damage(&bytes, v1, faults);
                    if d == bytes {
                        continue;
                    }
                    let (r, run, _) = run_all(&d, v1, &None, GUARD);
                    out.state(hash_bytes(&d));
                    out.sim_time += run.as_ref().map_or(0, |r| r.steps.len() as u64);
                    effect = true;
                    let strange = run.as_ref().is_some_and(|r| r.steps.iter().any(|s| r.memory[s.0 as usize].as_ref().and_then(u64le).is_some_and(undefined)));
                    match r {
                        Err(e) => out.bad("panic", format!("{e}, for a damaged program: {faults:?}")),
                        Ok(Ok((t, p))) => match (&run, words(&d, v1)) {
                            (Some(run), Some(ws)) => {
                                out.stat("program_still_runs");
                                if strange {
                                    out.bad("undefined", format!("a trace with an instruction of undefined behaviour: {faults:?}"));
                                } else if let Some(e) = differs(run, &ws, &None, &t, &p, &mut |_| {}) {
                                    out.bad("run-differs", format!("{e}; {faults:?}"));
                                }
                            }
                            _ => out.bad("failure-hidden", format!("a trace, but no run: {faults:?}")),
                        },
                        Ok(Err(_)) if strange => out.stat("program_undefined"),
                        // a run that was finished and is well defined must be provable
                        Ok(Err(e)) if run.is_some() => out.bad("valid-program-failed", format!("{e}, although the machine finished: {faults:?}")),
                        Ok(Err(_)) => out.stat(if v1 { "v1_refused" } else { "program_refused" }),
                    }
                }
                Op::Files { cap, limit, crash, cut, flip, seed } => {
                    effect = true;
                    self.files(&b, *cap, *limit, *crash, *cut, *flip, *seed, &mut out);
                }
                Op::Made { near, seed } => {
                    effect = true;
                    self.made(*near, *seed, &mut out);
                }
                Op::NoFile { kind } => {
                    let s = Scratch::new();
                    let p = match kind {
                        0 => s.0.join("missing"),
                        1 => s.0.clone(),
                        _ => {
                            let f = s.0.join("file");
                            let _ = std::fs::write(&f, b"");
                            f.join("x")
                        }
                    };
                    let p = p.to_str().unwrap();
                    let a = catch(|| RegisterStates::from_file(p));
                    let m = catch(|| CairoMemory::from_file(p));
                    if !matches!(a, Ok(Err(CairoImportError::FileError(_)))) || !matches!(m, Ok(Err(CairoImportError::FileError(_)))) {
                        out.bad("failure-hidden", format!("no error for the unreadable file of kind {kind}: {a:?}, {m:?}"));
                    }
                    out.stat("no_file");
                    effect = true;
                }
            }
            out.nontrivial |= effect;
            out.ev(mix(hash_bytes(format!("{op:?}").as_bytes())) ^ (out.violations.len() - before) as u64);
        }
        set_plan(Plan::default());
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["ops", "faults", "blocks"])
    }
}

impl C12 {
    fn undisturbed(&self, spec: &CairoSpec, bytes: &[u8], ws: &[FE], range: &Option<Range<u64>>, out: &mut RunOut) {
        let v1 = spec.v1;
        let (r, run, _) = run_all(bytes, v1, range, Plan::default());
        let (t, p) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return out.bad("valid-program-failed", format!("{e}; {spec:?}")),
            Err(e) => return out.bad("panic", format!("{e}; {spec:?}")),
        };
        let Some(run) = run else { return out.bad("failure-hidden", "a trace, but no run") };
        out.sim_time += run.steps.len() as u64;
        out.state(hash_bytes(bytes));
        out.ev(hash_bytes(&crate::wire::pi_canon(&p)));
        let mut ex = vec![];
        if let Some(e) = differs(&run, ws, range, &t, &p, &mut |s| ex.push(s.to_string())) {
            out.bad("run-differs", format!("{e}; {spec:?}"));
        } else {
            out.stat(if v1 { "v1_exact" } else { "exact" });
        }
        ex.sort();
        ex.dedup();
        ex.iter().for_each(|s| out.stat(s));
        let l = if v1 { CairoLayout::Plain } else { CairoLayout::Small };
        set_plan(Plan::default());
        match catch(|| run_program(None, l, bytes, &ver(v1))) {
            Ok(Ok((regs, mem, len, rc))) => {
                if let Some(e) = differs_raw(&run, &regs, &mem) {
                    out.bad("run-differs", format!("run_program: {e}; {spec:?}"));
                }
                if len != ws.len() || rc != run.range_check.map(|(b, l)| b..b + l) {
                    out.bad("run-differs", format!("run_program: program of {len} words, range checks {rc:?}; expected {} and {:?}", ws.len(), run.range_check));
                }
            }
            o => out.bad("valid-program-failed", format!("run_program: {:?}", o.map(|r| r.is_ok()))),
        }
        // other entry points: one that is not there, and main under another name
        if !v1 {
            match catch(|| run_program(Some("absent"), CairoLayout::Small, bytes, &ver(v1))) {
                Ok(Err(_)) => {}
                o => out.bad("failure-hidden", format!("run_program with a missing entry point: {:?}", o.map(|r| r.is_ok()))),
            }
            let renamed = String::from_utf8_lossy(bytes).replace("__main__.main", "__main__.begin").into_bytes();
            match catch(|| (run_program(Some("begin"), CairoLayout::Small, &renamed, &ver(v1)), run_program(None, CairoLayout::Small, &renamed, &ver(v1)))) {
                Ok((Ok((regs, mem, _, _)), Err(_))) => {
                    if let Some(e) = differs_raw(&run, &regs, &mem) {
                        out.bad("run-differs", format!("run_program from another entry point: {e}; {spec:?}"));
                    }
                    out.stat("entry_point");
                }
                Ok((a, b)) => out.bad(if b.is_ok() { "failure-hidden" } else { "valid-program-failed" }, format!("run_program where main has another name: {} and by default {}", a.is_ok(), b.is_ok())),
                Err(e) => out.bad("panic", format!("{e}; run_program where main has another name")),
            }
        }
        if run.range_check.is_some_and(|x| x.1 > 0) {
            out.stat("with_range_checks");
        }
        if range.is_some() {
            out.stat("with_public_output");
        } else if spec.out {
            out.stat("with_private_output");
        }
        if t.n_rows() > 65536 {
            out.stat("long_run");
        }
        if t.n_rows() > 2 * run.steps.len() {
            out.stat("holes");
        }
    }
    /// values at the edges, and cells far from the start
    fn encoded(&self, r: &mut Rng, out: &mut RunOut) {
        let n = match r.below(20) {
            0 => r.range(65530, 70000),
            1 => r.range(250, 600),
            _ => r.below(12),
        };
        let any = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX]) } else { r.next() };
        let steps: Vec<_> = (0..r.below(4)).map(|_| cairo_vm::vm::trace::trace_entry::TraceEntry { pc: any(r) as usize, ap: any(r) as usize, fp: any(r) as usize }).collect();
        let cells: Vec<Option<FE>> = (0..n).map(|i| (i + 3 > n || r.chance(1, 2)).then(|| if r.chance(1, 4) { fe(any(r)) } else { fe_rand(r) })).collect();
        let (mut trace, mut memory) = (vec![], vec![]);
        for s in &steps {
            for v in [s.ap, s.fp, s.pc] {
                trace.extend((v as u64).to_le_bytes());
            }
        }
        for (a, v) in cells.iter().enumerate() {
            if let Some(v) = v {
                memory.extend((a as u64).to_le_bytes());
                memory.extend(v.to_bytes_le());
            }
        }
        let (mut vt, mut vm) = (vec![], vec![]);
        let mut w = VecWriter::new(&mut vt);
        w.write_encoded_trace(&steps);
        let _ = w.flush();
        let mut w = VecWriter::new(&mut vm);
        w.write_encoded_memory(&cells.iter().map(|c| c.map(|v| cairo_vm::felt::Felt252::from_bytes_be(&v.to_bytes_be()))).collect::<Vec<_>>());
        let _ = w.flush();
        if vt != trace || vm != memory {
            out.bad("run-differs", format!("the encoded form of {} steps and {n} cells does not hold their values", steps.len()));
        }
        match (catch(|| RegisterStates::from_bytes_le(&trace)), catch(|| CairoMemory::from_bytes_le(&memory))) {
            (Ok(Ok(t)), Ok(Ok(m))) => {
                let same = t.rows.len() == steps.len() && t.rows.iter().zip(&steps).all(|(a, b)| (a.pc, a.ap, a.fp) == (b.pc as u64, b.ap as u64, b.fp as u64));
                if !same || m.len() != cells.iter().flatten().count() || cells.iter().enumerate().any(|(a, v)| m.get(&(a as u64)) != v.as_ref()) {
                    out.bad("file-differs", format!("{} steps and {n} cells are not read as they were written", steps.len()));
                }
            }
            o => out.bad("file-differs", format!("{} steps and {n} cells can not be read: {}", steps.len(), matches!(o.0, Ok(Ok(_))))),
        }
        out.stat(if n > 65536 { "encoded_far" } else { "encoded" });
    }
    fn made(&self, near: bool, seed: u64, out: &mut RunOut) {
        let mut r = Rng::new(seed);
        // any word: what has no meaning is reported
        for _ in 0..8 {
            let mut w = random_word(&mut r, false);
            if r.chance(1, 2) {
                w ^= 1 << r.range(48, 62);
            }
            let a = r.next();
            let regs = RegisterStates { rows: vec![RegistersState { pc: a, fp: r.next(), ap: r.next() }] };
            let got = catch(|| regs.flags_and_offsets(&CairoMemory::new(HashMap::from([(a, fe(w))]))));
            match (&got, meaning(w)) {
                (Err(e), _) => out.bad("panic", format!("{e}, decoding {w:#x}")),
                (Ok(Ok(_)), Some(false)) => out.bad("undefined", format!("{w:#x} is decoded, but it is no instruction")),
                (Ok(Err(e)), Some(true)) => out.bad("valid-program-failed", format!("{e:?} for {w:#x}")),
                (Ok(Ok(v)), Some(true)) => {
                    let bits: Vec<u64> = v[0].0.to_trace_representation().iter().map(|b| fe_u64(b).unwrap_or(9)).collect();
                    let off: [FE; 3] = v[0].1.to_trace_representation();
                    let raw = [v[0].1.off_dst, v[0].1.off_op0, v[0].1.off_op1];
                    for k in 0..16 {
                        if v.len() != 1 || bits[k] != w >> (48 + k) & 1 {
                            out.bad("run-differs", format!("flag {k} of {w:#x}"));
                        }
                    }
                    for k in 0..3 {
                        let o = w >> (16 * k) & 0xffff;
                        if off[k] != fe(o) || raw[k] as i64 != o as i64 - 32768 {
                            out.bad("run-differs", format!("offset {k} of {w:#x}"));
                        }
                    }
                    out.stat("decoded");
                }
                (Ok(Err(_)), Some(false)) => out.stat("no_instruction"),
                _ => {}
            }
            let empty = catch(|| regs.flags_and_offsets(&CairoMemory::new(HashMap::from([(a ^ 1, fe(w))]))));
            if !matches!(empty, Ok(Err(_))) {
                out.bad("failure-hidden", format!("an instruction is decoded where there is none: {empty:?}"));
            }
        }
        let (run, cells, codelen) = made(&mut r, near);
        if run.steps.is_empty() {
            return;
        }
        let what = || format!("{run:?}, cells {:?}", cells.iter().map(|(a, v)| (*a, cairo::hexs(v))).collect::<Vec<_>>());
        out.sim_time += run.steps.len() as u64;
        out.state(hash_bytes(format!("{:?}", run.steps).as_bytes()));
        let mem = CairoMemory::new(cells.iter().map(|(a, v)| (*a, *v)).collect());
        let regs = RegisterStates { rows: run.steps.iter().map(|s| RegistersState { pc: s.0, ap: s.1, fp: s.2 }).collect() };
        let mut segs = HashMap::new();
        if let Some((b, l)) = run.range_check {
            segs.insert(MemorySegment::RangeCheck, b..b + l);
        }
        let mut p = match catch(|| PublicInputs::from_regs_and_mem(&regs, &mem, codelen as usize, &segs)) {
            Ok(p) => p,
            Err(e) => return out.bad("panic", format!("{e}; {}", what())),
        };
        if near {
            let ws: Vec<FE> = (1..=codelen).map(|a| cells[&a]).collect();
            match catch(|| build_main_trace(&regs, &mem, &mut p)) {
                Ok(t) => match differs(&run, &ws, &None, &t, &p, &mut |_| {}) {
                    Some(e) => out.bad("run-differs", format!("{e}; {}", what())),
                    None => out.stat("made_near"),
                },
                Err(e) => out.bad("panic", format!("{e}; {}", what())),
            }
            return;
        }
        let t = match catch(|| build_cairo_execution_trace(&regs, &mem, &p)) {
            Ok(t) => t,
            Err(e) => return out.bad("panic", format!("{e}; {}", what())),
        };
        let get = |a: u64| cells.get(&a).copied();
        if t.n_rows() != run.steps.len() {
            return out.bad("run-differs", format!("{} rows for {} steps", t.n_rows(), run.steps.len()));
        }
        for (i, s) in run.steps.iter().enumerate() {
            let Some((want, _)) = get(s.0).and_then(|w| row(fe_u64(&w)?, *s, &get)) else { continue };
            for (c, x) in want.iter().enumerate() {
                if x.is_some_and(|x| t.get(i, c) != x) {
                    return out.bad("run-differs", format!("row {i} column {c}: {}; {}", cairo::hexs(&t.get(i, c)), what()));
                }
            }
        }
        out.stat("made_far");
    }
    #[allow(clippy::too_many_arguments)]
    fn files(&self, b: &cairo::Built, cap: u16, limit: Option<u32>, crash: bool, cut: i32, flip: Option<u32>, seed: u64, out: &mut RunOut) {
        let mut r = Rng::new(seed);
        let mut run = {
            set_plan(Plan::default());
            let l = if b.v1 { CairoLayout::Plain } else { CairoLayout::Small };
            let _ = run_program(None, l, &b.program, &ver(b.v1));
            cairo_vm::sim::last_run().unwrap_or_default()
        };
        run.steps.truncate(300);
        run.memory.truncate(300);
        self.encoded(&mut r, out);
        // what the stored form has to be
        let mut trace = vec![];
        for (pc, ap, fp) in &run.steps {
            for v in [ap, fp, pc] {
                trace.extend(v.to_le_bytes());
            }
        }
        let mut memory = vec![];
        for (a, v) in run.memory.iter().enumerate() {
            if let Some(v) = v {
                memory.extend((a as u64).to_le_bytes());
                memory.extend(v);
            }
        }
        let mut vt = vec![];
        let mut w = VecWriter::new(&mut vt);
        let entries: Vec<_> =
            run.steps.iter().map(|s| cairo_vm::vm::trace::trace_entry::TraceEntry { pc: s.0 as usize, ap: s.1 as usize, fp: s.2 as usize }).collect();
        w.write_encoded_trace(&entries);
        let _ = w.flush();
        let mut vm = vec![];
        let mut w = VecWriter::new(&mut vm);
        let cells: Vec<_> = run.memory.iter().map(|c| c.as_ref().map(|v| cairo_vm::felt::Felt252::from_bytes_be(&v.iter().rev().copied().collect::<Vec<_>>()))).collect();
        w.write_encoded_memory(&cells);
        let _ = w.flush();
        if vt != trace || vm != memory {
            out.bad("run-differs", "the encoded trace or memory does not hold the values of the run");
            return;
        }
        let scratch = Scratch::new();
        for (is_trace, data) in [(true, trace), (false, memory)] {
            let row = if is_trace { 24 } else { 40 };
            let path = scratch.0.join(if is_trace { "trace" } else { "memory" });
            let limit = limit.map(|l| l as u64 % (data.len() as u64 + 40));
            let Ok(f) = std::fs::File::create(&path) else {
                out.harness_error = Some("no scratch file".into());
                return;
            };
            disk_limit(limit.unwrap_or(u64::MAX));
            let mut w = FileWriter::new(std::io::BufWriter::with_capacity(cap as usize, f));
            let mut ok = true;
            let mut at = 0;
            while at < data.len() && ok {
                let n = (r.range(1, 60) as usize).min(data.len() - at);
                ok = w.write(&data[at..at + n]).is_ok();
                at += n;
            }
            if crash {
                // dies with what is in its buffer
                std::mem::forget(w);
                out.stat("crash_before_flush");
            } else {
                ok &= w.flush().is_ok();
                drop(w);
            }
            disk_limit(u64::MAX);
            let mut got = std::fs::read(&path).unwrap_or_default();
            if !data.starts_with(&got) {
                out.bad("file-differs", format!("{} bytes in the file are not what was written", got.len()));
                return;
            }
            let full = limit.is_some_and(|l| l < data.len() as u64);
            if !crash {
                if ok && got.len() != data.len() {
                    out.bad("failure-hidden", format!("the disk took {} of {} bytes and no error was reported (buffer {cap}, full at {limit:?})", got.len(), data.len()));
                } else if !ok && !full {
                    out.bad("file-differs", format!("an error, but the disk took everything ({} bytes)", data.len()));
                } else {
                    out.stat(if ok { "disk_fine" } else { "disk_full_reported" });
                }
            }
            // what a disk does to it afterwards
            if cut < 0 {
                got.truncate(got.len().saturating_sub(-cut as usize));
            } else {
                got.extend((0..cut).map(|_| r.next() as u8 & 3));
            }
            if let (Some(f), false) = (flip, got.is_empty()) {
                let k = f as usize % got.len();
                // stay below the field's modulus
                if is_trace || !(36..40).contains(&(k % 40)) {
                    got[k] ^= 1 << (f >> 29);
                    out.stat("file_changed_exact");
                }
            }
            let _ = std::fs::write(&path, &got);
            let p = path.to_str().unwrap();
            let whole = got.len() % row == 0;
            out.state(hash_bytes(&got));
            let verdict = if is_trace {
                let both = (catch(|| RegisterStates::from_file(p)), catch(|| RegisterStates::from_bytes_le(&got)));
                match both {
                    (Ok(Ok(a)), Ok(Ok(b))) if whole => {
                        let want: Vec<(u64, u64, u64)> = got.chunks(24).map(|c| (n8(&c[..8]), n8(&c[8..16]), n8(&c[16..]))).collect();
                        let f = |s: &RegisterStates| s.rows.iter().map(|x| (x.ap, x.fp, x.pc)).collect::<Vec<_>>();
                        if f(&a) == want && f(&b) == want { Some("file_cut_exact") } else { None }
                    }
                    (Ok(Err(CairoImportError::IncorrectNumberOfBytes)), Ok(Err(CairoImportError::IncorrectNumberOfBytes))) if !whole => Some("file_cut_refused"),
                    _ => None,
                }
            } else {
                let both = (catch(|| CairoMemory::from_file(p)), catch(|| CairoMemory::from_bytes_le(&got)));
                match both {
                    (Ok(Ok(a)), Ok(Ok(b))) if whole => {
                        let mut want: HashMap<u64, Vec<FE>> = HashMap::new();
                        for c in got.chunks(40) {
                            want.entry(n8(&c[..8])).or_default().push(felt(c[8..].try_into().unwrap()));
                        }
                        let good = |m: &CairoMemory| m.data.len() == want.len() && m.data.iter().all(|(k, v)| want.get(k).is_some_and(|w| w.contains(v)));
                        if good(&a) && good(&b) { Some("file_cut_exact") } else { None }
                    }
                    (Ok(Err(CairoImportError::IncorrectNumberOfBytes)), Ok(Err(CairoImportError::IncorrectNumberOfBytes))) if !whole => Some("file_cut_refused"),
                    _ => None,
                }
            };
            match verdict {
                Some(s) => out.stat(s),
                None => out.bad("file-differs", format!("a {} file of {} bytes is not read as what it says", if is_trace { "trace" } else { "memory" }, got.len())),
            }
        }
    }
}
fn n8(b: &[u8]) -> u64 {
    u64::from_le_bytes(b.try_into().unwrap())
}
