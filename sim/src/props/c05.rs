//! Faults in the prover's memory: cells of the trace and of the auxiliary
//! columns, registers, accesses and public inputs change before the prover
//! commits. Whatever breaks a condition of the statement must be rejected.
use crate::cairo::{self, Blk, CairoSpec};
use crate::core::*;
use crate::props::c13 as diag;
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::zoo::{self, Pi, Stmt, Trace};
use lambdaworks_stark::cairo::air::{CairoRAPChallenges, MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::register_states::RegisterStates;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mut {
    kind: String,
    r: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stmt: Stmt,
    opts: Opts,
    /// the execution stops after this share (in 1/1000) of its steps
    cut: Option<u64>,
    muts: Vec<Mut>,
}

const CAIRO: &[&str] = &[
    "none", "flag", "inst", "dst_addr", "op0_addr", "op1_addr", "last_ap", "last_fp", "last_pc", "t0", "t1", "mul", "res", "memory", "rcb", "mem_jump",
    "mem_conflict", "mem_scale", "mem_scale_all", "rc_jump", "rc_scale", "rc_scale_all", "pi", "pi_memory", "cell", "cell_stale", "aux", "row", "steps", "elsewhere", "high_bit",
];
/// conditions a Cairo run must meet that the constraint system leaves out
const GAPS: &[&str] = &["gap_mem_start", "gap_selector", "gap_fp", "gap_rc_range", "gap_rc_link"];
const OTHER: &[&str] = &["none", "cell", "cell_carried", "cell_stale", "aux", "aux_carried", "row", "tail", "two_cells"];

/// what happens to the auxiliary columns after they were computed
#[derive(Clone, Debug)]
enum AuxFault {
    None,
    Mem(usize, usize),
    Range(usize, usize),
    /// sorted offsets of another trace, the running product goes wrong at one step only
    RangeBreak(usize, Trace),
    Cell(usize, usize, FE),
    /// columns of another memory, running product restarted so that it ends right
    Restart(Trace),
    /// columns computed for other public inputs
    Other(Box<PublicInputs>),
    /// the repository's own columns of the honest trace
    Stale,
}
struct Fault {
    main: Trace,
    pi: PublicInputs,
    aux: AuxFault,
}

fn one_of(r: &mut Rng, f: impl FnOnce(&mut Rng) -> Vec<FE>) -> FE {
    let v = f(r);
    *r.pick(&v)
}
/// a row, often the first or the last
fn edge(r: &mut Rng, lo: usize, hi: usize) -> usize {
    match r.below(4) {
        0 => lo,
        1 => hi - 1,
        _ => lo + r.us(hi - lo),
    }
}
fn set(t: &mut Trace, r: usize, c: usize, v: FE) {
    let n = t.n_cols;
    t.table[r * n + c] = v;
}
fn rows(t: &Trace) -> usize {
    t.n_rows()
}
type Acc = Vec<(usize, usize, FE, FE)>;
fn accesses(m: &Trace) -> Acc {
    (0..rows(m)).flat_map(|i| (0..4).map(move |k| (i, k, m.get(i, 19 + k), m.get(i, 23 + k)))).collect()
}
fn uses(m: &Trace) -> BTreeMap<Vec<u8>, usize> {
    let mut u = BTreeMap::new();
    for a in accesses(m) {
        *u.entry(a.2.to_bytes_be()).or_insert(0) += 1;
    }
    u
}
/// slots of padding rows that may hold any access of the memory
fn free_slots(m: &Trace, p: &PublicInputs) -> Vec<(usize, usize)> {
    let u = uses(m);
    let mut taken: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut o = vec![];
    let all = accesses(m);
    let zeros = all.iter().filter(|x| x.2 == FE::zero() && x.3 == FE::zero()).count();
    let mut spare = zeros.saturating_sub(p.public_memory.len());
    for (i, k, a, v) in all.into_iter().rev() {
        if i < p.num_steps {
            continue;
        }
        if a == FE::zero() {
            if v == FE::zero() && spare > 0 {
                spare -= 1;
                o.push((i, k));
            }
            continue;
        }
        let t = taken.entry(a.to_bytes_be()).or_insert(0);
        if *t + 1 < u[&a.to_bytes_be()] {
            *t += 1;
            o.push((i, k));
        }
    }
    o
}
/// Gives addresses that lost their last access one in the padding.
fn repair(before: &Trace, m: &mut Trace, p: &PublicInputs) -> Option<()> {
    let now = uses(m);
    let mut lost: BTreeMap<Vec<u8>, (FE, FE)> = BTreeMap::new();
    for (_, _, a, v) in accesses(before) {
        if !now.contains_key(&a.to_bytes_be()) && !p.public_memory.contains_key(&a) && a != FE::zero() {
            lost.insert(a.to_bytes_be(), (a, v));
        }
    }
    let slots = free_slots(m, p);
    if slots.len() < lost.len() {
        return None;
    }
    for ((i, k), (_, (a, v))) in slots.into_iter().zip(lost) {
        set(m, i, 19 + k, a);
        set(m, i, 23 + k, v);
    }
    Some(())
}
/// another address holding the value `v`
fn same_value(m: &Trace, p: &PublicInputs, v: FE, not: FE, r: &mut Rng) -> Option<FE> {
    let mut o: Vec<FE> = accesses(m).into_iter().filter(|a| a.3 == v && a.2 != not && a.2 != FE::zero()).map(|a| a.2).collect();
    o.extend(p.public_memory.iter().filter(|(a, x)| **x == v && **a != not).map(|(a, _)| *a));
    o.sort_by_key(|x| x.to_bytes_be());
    o.dedup();
    (!o.is_empty()).then(|| *r.pick(&o))
}
fn name(v: &str) -> &str {
    v.split(" row ").next().unwrap_or(v)
}
fn names(v: &[String]) -> BTreeSet<String> {
    v.iter().map(|x| name(x).to_string()).collect()
}
fn enabled(m: &Trace, p: &PublicInputs) -> Vec<usize> {
    (0..rows(m).min(p.num_steps)).filter(|i| m.get(*i, 33) == FE::one()).collect()
}

fn fault(kind: &str, r: &mut Rng, h: &Trace, p: &PublicInputs) -> Option<Fault> {
    let n = rows(h);
    let rc = p.memory_segments.contains_key(&MemorySegment::RangeCheck);
    let mut m = h.clone();
    let mut pi = p.clone();
    let mut aux = AuxFault::None;
    let on = enabled(h, p);
    let size = |i: usize| h.get(i, 2) + fe(1);
    let tail = p.num_steps - 1;
    let mut todo: Vec<usize> = on.clone();
    // random order
    for i in (1..todo.len()).rev() {
        todo.swap(i, r.us(i + 1));
    }
    // the last executed step, or the first, before all others
    if let Some(x) = match r.below(4) {
        0 => on.last().cloned(),
        1 => on.first().cloned(),
        _ => None,
    } {
        todo.retain(|i| *i != x);
        todo.insert(0, x);
    }
    match kind {
        "none" => {}
        "flag" => {
            let i = edge(r, tail, n);
            let v = one_of(r, |r| vec![fe(2), fe_i(-1), fe_rand(r), fe(3)]);
            let k = r.us(16);
            set(&mut m, i, k, if k == 15 { *r.pick(&[v, fe(1)]) } else { v });
        }
        "inst" => {
            let i = todo.into_iter().find(|i| h.get(*i, 17) == h.get(*i, 18))?;
            for k in 0..2 {
                if k == 0 || r.chance(1, 2) {
                    let k = r.us(2);
                    set(&mut m, i, k, fe(1) - h.get(i, k));
                }
            }
        }
        "dst_addr" | "op0_addr" | "op1_addr" => {
            let k = match kind {
                "dst_addr" => 1,
                "op0_addr" => 2,
                _ => 3,
            };
            for i in todo {
                if let Some(a) = same_value(h, p, h.get(i, 23 + k), h.get(i, 19 + k), r) {
                    set(&mut m, i, 19 + k, a);
                    break;
                }
            }
            repair(h, &mut m, p)?;
        }
        "last_ap" | "last_fp" => {
            let c = if kind == "last_ap" { 17 } else { 18 };
            let d = one_of(r, |r| vec![fe(1), fe_i(-1), fe(2), fe_rand(r)]);
            set(&mut m, tail, c, h.get(tail, c) + d);
            pi.ap_final = m.get(tail, 17);
        }
        "last_pc" => {
            let mut a: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (*a, *v)).collect();
            a.sort_by_key(|x| x.0.to_bytes_be());
            a.retain(|x| x.0 != h.get(tail, 19));
            let (pc, ins) = *a.get(r.us(a.len().max(1)))?;
            set(&mut m, tail, 19, pc);
            set(&mut m, tail, 23, ins);
            pi.pc_final = pc;
            repair(h, &mut m, p)?;
        }
        "t0" => {
            let i = todo.into_iter().find(|i| h.get(*i, 9) == fe(0) && h.get(i + 1, 19) == h.get(*i, 19) + h.get(*i, 26) && h.get(i + 1, 19) == h.get(*i, 19) + size(*i))?;
            let v = fe_rand(r);
            set(&mut m, i, 30, v);
            set(&mut m, i, 31, v * h.get(i, 16));
        }
        "t1" => {
            let i = todo.into_iter().find(|i| h.get(i + 1, 19) == h.get(*i, 19) + size(*i))?;
            set(&mut m, i, 31, h.get(i, 31) + fe_rand(r));
        }
        "mul" => {
            let i = todo.into_iter().find(|i| h.get(*i, 6) == fe(0))?;
            set(&mut m, i, 32, h.get(i, 32) + fe_rand(r));
        }
        "res" => {
            let i = todo.into_iter().find(|i| [7, 8, 9, 10, 14].iter().all(|k| h.get(*i, *k) == fe(0)))?;
            set(&mut m, i, 16, h.get(i, 16) + one_of(r, |r| vec![fe(1), fe_rand(r)]));
        }
        "memory" => {
            let mut best: Option<(usize, Trace)> = None;
            for _ in 0..12 {
                let i = *r.pick(&on);
                // calls first: they are rare
                let i = if r.chance(1, 2) { on.iter().cloned().find(|i| h.get(*i, 12) == fe(1) && r.chance(1, 2)).unwrap_or(i) } else { i };
                let k = r.range(1, 3) as usize;
                let a = h.get(i, 19 + k);
                if p.public_memory.contains_key(&a) || a == FE::zero() {
                    continue;
                }
                let v = h.get(i, 23 + k) + one_of(r, |r| vec![fe(1), fe_rand(r)]);
                let mut x = h.clone();
                for (j, l, b, _) in accesses(h) {
                    if b == a {
                        set(&mut x, j, 23 + l, v);
                    }
                }
                for j in &on {
                    let v = x.get(*j, 25) * x.get(*j, 26);
                    set(&mut x, *j, 32, v);
                    if h.get(*j, 9) == fe(1) {
                        let v = x.get(*j, 24);
                        set(&mut x, *j, 30, v);
                        let v = v * x.get(*j, 16);
                        set(&mut x, *j, 31, v);
                    }
                }
                let bad = names(&cairo::reference_violations(p, &x, None, &[])).len();
                if bad > 0 && best.as_ref().is_none_or(|b| bad < b.0) {
                    best = Some((bad, x));
                }
                if bad == 1 {
                    break;
                }
            }
            m = best?.1;
        }
        "rcb" => {
            if !rc {
                return None;
            }
            let i = edge(r, 0, n);
            let c = 34 + r.us(9);
            set(&mut m, i, c, h.get(i, c) + one_of(r, |r| vec![fe(1), fe_rand(r)]));
        }
        "mem_jump" => {
            let top = accesses(h).into_iter().filter_map(|a| fe_u64(&a.2).map(|x| (x, a.3))).max_by_key(|a| a.0)?;
            let slots: Vec<_> = free_slots(h, p).into_iter().filter(|(i, k)| fe_u64(&h.get(*i, 19 + k)) != Some(top.0)).collect();
            let copies = r.range(1, 4) as usize;
            let by = *r.pick(&[2, 3, 5, 1000]);
            if slots.len() < copies {
                return None;
            }
            for (i, k) in slots.into_iter().take(copies) {
                set(&mut m, i, 19 + k, fe(top.0 + by));
                set(&mut m, i, 23 + k, top.1);
            }
        }
        "mem_conflict" => {
            let all = accesses(h);
            let (_, _, mut a, mut v) = all[r.us(all.len())];
            let mut copies = 1;
            if r.chance(1, 2) {
                // the highest address: sorted into the last row
                (a, v) = all.iter().filter_map(|x| fe_u64(&x.2).map(|u| (u, x.2, x.3))).max_by_key(|x| x.0).map(|x| (x.1, x.2))?;
                copies = r.range(1, 4) as usize;
            }
            if a == FE::zero() {
                return None;
            }
            let slots: Vec<_> = free_slots(h, p).into_iter().filter(|(i, k)| h.get(*i, 19 + k) != a).collect();
            if slots.len() < copies {
                return None;
            }
            let w = v + one_of(r, |r| vec![fe(1), fe_i(-1), fe_rand(r)]);
            for _ in 0..copies {
                let (i, k) = slots[if copies == 1 { r.us(slots.len()) } else { 0 }];
                let (i, k) = if copies == 1 { (i, k) } else { *slots.iter().find(|(i, k)| m.get(*i, 19 + k) != a).unwrap() };
                set(&mut m, i, 19 + k, a);
                set(&mut m, i, 23 + k, w);
            }
        }
        "mem_scale" => {
            // the start of the product is free: this breaks a single step
            if r.chance(1, 2) {
                aux = AuxFault::Mem(0, if r.chance(1, 2) { 4 * n - 1 - r.us(5) } else { 1 + r.us(4 * n - 1) });
                return Some(Fault { main: m, pi, aux });
            }
            let i = r.us(4 * n - 6);
            aux = AuxFault::Mem(i, i + 4 * r.range(1, ((4 * n - 2 - i) / 4) as u64).max(1) as usize);
        }
        "mem_scale_all" => aux = AuxFault::Mem(0, 4 * n),
        "rc_jump" => {
            let top = (0..n).flat_map(|i| (27..30).map(move |c| (i, c))).filter_map(|(i, c)| fe_u64(&h.get(i, c))).max()?;
            let by = *r.pick(&[2u64, 3, 7]);
            let copies = r.range(1, 3) as usize;
            // offsets of padding rows are copies of others
            for k in 0..copies {
                set(&mut m, n - 1, 27 + k, fe(top + by));
            }
            pi.range_check_max = u16::try_from(top + by).ok();
            pi.range_check_max?;
            let have: BTreeSet<u64> = (0..n).flat_map(|i| (27..30).map(move |c| (i, c))).filter_map(|(i, c)| fe_u64(&m.get(i, c))).collect();
            let lo = *have.iter().next()?;
            pi.range_check_min = u16::try_from(lo).ok();
        }
        "rc_scale" => {
            if r.chance(1, 2) && n > p.num_steps {
                // an offset of the padding, replaced by another one in use
                let (i, c) = (p.num_steps + r.us(n - p.num_steps), 27 + r.us(3));
                let v = h.get(r.us(n), 27 + r.us(3));
                if v == h.get(i, c) {
                    return None;
                }
                set(&mut m, i, c, v);
                let at = match r.below(3) {
                    0 => r.us(3),
                    1 => 3 * n - 1 - r.us(4),
                    _ => r.us(3 * n),
                };
                return Some(Fault { main: m, pi, aux: AuxFault::RangeBreak(at, h.clone()) });
            }
            let i = r.us(3 * n - 5);
            aux = AuxFault::Range(i, i + 3 * r.range(1, ((3 * n - 1 - i) / 3).max(1) as u64) as usize);
        }
        "rc_scale_all" => aux = AuxFault::Range(0, 3 * n),
        "pi" => {
            let d = one_of(r, |r| vec![fe(1), fe_i(-1), fe_rand(r)]);
            match r.below(6) {
                0 => pi.pc_init = pi.pc_init + d,
                1 => pi.ap_init = pi.ap_init + d,
                2 => pi.pc_final = pi.pc_final + d,
                3 => pi.ap_final = pi.ap_final + d,
                4 => pi.range_check_min = pi.range_check_min.map(|x| x.wrapping_add(1 + r.below(3) as u16)),
                _ => pi.range_check_max = pi.range_check_max.map(|x| x.wrapping_sub(1 + r.below(3) as u16)),
            }
            aux = AuxFault::Other(Box::new(p.clone()));
        }
        "pi_memory" => {
            let mut a: Vec<FE> = pi.public_memory.keys().cloned().collect();
            a.sort_by_key(|x| x.to_bytes_be());
            let k = *a.get(r.us(a.len().max(1)))?;
            let v = pi.public_memory[&k];
            match r.below(4) {
                0 => {
                    pi.public_memory.insert(k, v + one_of(r, |r| vec![fe(1), fe(1 << 48), fe_rand(r)]));
                }
                1 => {
                    pi.public_memory.remove(&k);
                }
                2 => {
                    pi.public_memory.remove(&k);
                    pi.public_memory.insert(k + fe(1 << 40), v);
                }
                _ => {
                    let top = accesses(h).into_iter().filter_map(|a| fe_u64(&a.2)).max()?;
                    pi.public_memory.insert(fe(top + 1 + r.below(2)), fe_rand(r));
                }
            }
            aux = AuxFault::Other(Box::new(p.clone()));
        }
        "cell" | "cell_stale" => {
            for _ in 0..if r.chance(1, 4) { r.range(2, 4) } else { 1 } {
                let lim = if r.chance(1, 2) { n } else { p.num_steps };
                let (i, c) = (edge(r, 0, lim), r.us(m.n_cols));
                let x = m.get(i, c);
                let y = match r.below(5) {
                    0 => FE::zero(),
                    1 => x + fe(1),
                    2 => m.get((i + 1) % n, c),
                    3 => x + fe(1 << r.below(16)),
                    _ => fe_rand(r),
                };
                set(&mut m, i, c, y);
            }
            if kind == "cell_stale" {
                aux = AuxFault::Stale;
            }
        }
        "aux" => aux = AuxFault::Cell(edge(r, 0, n), r.us(18), one_of(r, |r| vec![fe(1), fe_rand(r)])),
        "row" => {
            let (i, j) = (r.us(n), r.us(n));
            for c in 0..m.n_cols {
                let (x, y) = (m.get(i, c), m.get(j, c));
                set(&mut m, i, c, y);
                if r.clone().chance(1, 2) {
                    set(&mut m, j, c, x);
                }
            }
        }
        "steps" => {
            let k = match r.below(8) {
                0 => p.num_steps + 1,
                1 => p.num_steps - 1,
                2 => n,
                // rows come again beyond the end of the trace
                3 => n + 1,
                4 => *r.pick(&[0, n + 2, 2 * n, n + p.num_steps, (1usize << 32) + p.num_steps, (1usize << 63) + p.num_steps]),
                _ => r.range(1, n as u64) as usize,
            };
            pi.num_steps = k;
            // with the registers found there
            let row = k.wrapping_sub(1) % n;
            if r.chance(3, 4) {
                pi.pc_final = m.get(row, 19);
            }
            if r.chance(3, 4) {
                pi.ap_final = m.get(row, 17);
            }
            aux = AuxFault::Other(Box::new(p.clone()));
        }
        "elsewhere" => {
            // a claimed register is that of another row
            let k = match r.below(5) {
                0 => 1,
                1 => p.num_steps,
                2 => n - 1,
                3 => p.num_steps.saturating_sub(2),
                _ => r.us(n),
            }
            .min(n - 1);
            let c = if r.chance(1, 2) { 17 } else { 19 };
            // the rows after the last step may hold any ap
            if c == 17 && r.chance(1, 2) {
                let d = one_of(r, |r| vec![fe(1), fe_i(-1), fe_rand(r)]);
                for i in p.num_steps..n {
                    let v = m.get(i, 17) + d;
                    set(&mut m, i, 17, v);
                }
            }
            let v = m.get(k, c);
            match (c, r.chance(1, 4)) {
                (17, true) => pi.ap_init = v,
                (17, false) => pi.ap_final = v,
                (_, true) => pi.pc_init = v,
                _ => pi.pc_final = v,
            }
        }
        "high_bit" => {
            // an instruction of the program has a bit no instruction may have
            let i = *r.pick(&todo);
            let (pc, word) = (h.get(i, 19), h.get(i, 23));
            let bit = fe(1 << 63);
            if !p.public_memory.contains_key(&pc) {
                return None;
            }
            pi.public_memory.insert(pc, word + bit);
            for j in 0..n {
                for k in 0..4 {
                    if h.get(j, 19 + k) == pc {
                        set(&mut m, j, 23 + k, word + bit);
                    }
                }
                if h.get(j, 23) == word && h.get(j, 19) == pc {
                    set(&mut m, j, 15, fe(1));
                }
            }
            // rows of the padding still hold its flags
            for j in p.num_steps..n {
                if m.get(j, 23) == word + bit && m.get(j, 19) == pc {
                    set(&mut m, j, 15, fe(1));
                }
            }
        }
        // ------------------------------------------------ what is left open
        "gap_mem_start" => {
            let slots = free_slots(h, p);
            let (i, k) = *slots.get(r.us(slots.len().max(1)))?;
            set(&mut m, i, 23 + k, h.get(i, 23 + k) + fe_rand(r));
            aux = AuxFault::Restart(h.clone());
        }
        "gap_selector" => {
            let i = *r.pick(&on);
            set(&mut m, i, 33, FE::zero());
            set(&mut m, i, 16, h.get(i, 16) + fe_rand(r));
        }
        "gap_fp" => {
            if p.num_steps != 2 || h.get(0, 1) != fe(1) || h.get(0, 0) != fe(0) || h.get(0, 3) != fe(0) {
                return None;
            }
            for i in 0..2 {
                set(&mut m, i, 18, h.get(i, 18) + fe(1));
            }
            let a = h.get(0, 21) + fe(1);
            let v = accesses(h).into_iter().find(|x| x.2 == a)?.3;
            set(&mut m, 0, 21, a);
            set(&mut m, 0, 25, v);
            set(&mut m, 0, 32, v * h.get(0, 26));
            repair(h, &mut m, p)?;
        }
        "gap_rc_range" => {
            if !rc {
                return None;
            }
            let i = r.us(n);
            let t = fe(1 + r.below(1 << 20));
            set(&mut m, i, 34, h.get(i, 34) + t * fe(1 << 16));
            set(&mut m, i, 35, h.get(i, 35) - t);
        }
        "gap_rc_link" => {
            if !rc {
                return None;
            }
            let i = (0..n).find(|i| h.get(*i, 42) != FE::zero())?;
            for c in 34..43 {
                set(&mut m, i, c, FE::zero());
            }
        }
        k => panic!("unknown fault {k}"),
    }
    Some(Fault { main: m, pi, aux })
}

fn cairo_aux(f: &Fault, ch: &[FE], r: &mut Rng) -> Option<Trace> {
    let src = match &f.aux {
        AuxFault::Restart(t) | AuxFault::RangeBreak(_, t) => t.clone(),
        _ => f.main.clone(),
    };
    let p = match &f.aux {
        AuxFault::Other(p) => p,
        _ => &f.pi,
    };
    let mut a = cairo::own_aux(p, &src, ch)?;
    let n = a.n_rows();
    match &f.aux {
        AuxFault::Mem(i, j) => {
            let s = fe_rand(r);
            for x in *i..*j {
                let (row, c) = (x / 4, 11 + x % 4);
                let v = a.get(row, c);
                set(&mut a, row, c, v * s);
            }
        }
        AuxFault::Range(i, j) => {
            let s = fe_rand(r);
            for x in *i..*j {
                let (row, c) = (x / 3, 15 + x % 3);
                let v = a.get(row, c);
                set(&mut a, row, c, v * s);
            }
        }
        AuxFault::RangeBreak(at, _) => {
            let z = ch[2];
            let m = &f.main;
            let mut p = FE::one();
            for x in 0..3 * n {
                let (i, k) = (x / 3, x % 3);
                p = p * (z - m.get(i, 27 + k)) * (z - a.get(i, k)).inv();
                set(&mut a, i, 15 + k, p);
            }
            let s = p.inv();
            for x in *at..3 * n {
                let (i, k) = (x / 3, x % 3);
                let v = a.get(i, 15 + k);
                set(&mut a, i, 15 + k, v * s);
            }
        }
        AuxFault::Cell(i, c, d) => {
            let v = a.get(*i, *c);
            set(&mut a, *i, *c, v + *d);
        }
        AuxFault::Restart(_) => {
            // same sorted columns, products of the real accesses, restarted
            let (al, z) = (ch[0], ch[1]);
            let m = &f.main;
            let end = a.get(n - 1, 14);
            let mut p = FE::one();
            for i in 0..n {
                for k in 0..4 {
                    p = p * (z - (m.get(i, 19 + k) + al * m.get(i, 23 + k))) * (z - (a.get(i, 3 + k) + al * a.get(i, 7 + k))).inv();
                    set(&mut a, i, 11 + k, p);
                }
            }
            let s = end * p.inv();
            for i in 0..n {
                for c in 11..15 {
                    let v = a.get(i, c);
                    set(&mut a, i, c, v * s);
                }
            }
        }
        _ => {}
    }
    Some(a)
}

fn challenges(c: &dyn Any) -> Vec<FE> {
    if let Some(c) = c.downcast_ref::<CairoRAPChallenges>() {
        return vec![c.alpha_memory, c.z_memory, c.z_range_check];
    }
    if let Some(c) = c.downcast_ref::<FE>() {
        return vec![*c];
    }
    vec![]
}

/// Faults for all other statements.
fn plain_fault(kind: &str, r: &mut Rng, stmt: &Stmt, h: &Trace) -> Option<Trace> {
    let (n, w) = (rows(h), h.n_cols);
    let mut m = h.clone();
    let (i, c) = (edge(r, 0, n), r.us(w));
    let d = one_of(r, |r| vec![fe(1), fe_i(-1), fe_rand(r)]);
    match kind {
        "cell" | "cell_stale" => set(&mut m, i, c, h.get(i, c) + d),
        "two_cells" => {
            set(&mut m, i, c, h.get(i, c) + d);
            let (j, e) = (r.us(n), r.us(w));
            set(&mut m, j, e, h.get(j, e) + d);
        }
        "row" => {
            let j = r.us(n);
            for c in 0..w {
                set(&mut m, i, c, h.get(j, c));
                set(&mut m, j, c, h.get(i, c));
            }
        }
        "tail" => {
            for c in 0..w {
                for k in i..n {
                    set(&mut m, k, c, h.get(k - i, c));
                }
            }
        }
        // the fault happens during the computation: everything later follows it
        "cell_carried" => carry(stmt, h, i, c, d, &mut m)?,
        _ => return None,
    }
    Some(m)
}
fn carry(stmt: &Stmt, h: &Trace, i: usize, c: usize, d: FE, m: &mut Trace) -> Option<()> {
    let n = rows(h);
    set(m, i, c, h.get(i, c) + d);
    match stmt {
        Stmt::Fib { .. } => {
            for k in (i + 1).max(2)..n {
                let v = m.get(k - 1, 0) + m.get(k - 2, 0);
                set(m, k, 0, v);
            }
        }
        Stmt::Dummy { .. } if c == 1 => {
            for k in (i + 1).max(2)..n {
                let v = m.get(k - 1, 1) + m.get(k - 2, 1);
                set(m, k, 1, v);
            }
        }
        Stmt::Fib2 { .. } => {
            if c == 0 {
                let v = if i == 0 { m.get(0, 1) } else { m.get(i - 1, 1) + m.get(i, 0) };
                set(m, i, 1, v);
            }
            for k in i + 1..n {
                let v = m.get(k - 1, 0) + m.get(k - 1, 1);
                set(m, k, 0, v);
                let v = v + m.get(k - 1, 1);
                set(m, k, 1, v);
            }
        }
        Stmt::Quad { .. } => {
            for k in i + 1..n {
                let v = m.get(k - 1, 0);
                set(m, k, 0, v * v);
            }
        }
        Stmt::Gen(s) => {
            let cols: Vec<usize> = (0..s.cols).collect();
            for k in i..n {
                for e in &cols {
                    if (k, *e) <= (i, c) || (s.aux && *e == 1) {
                        continue;
                    }
                    for t in s.trs.iter().filter(|t| t.col == *e) {
                        let l = s.offs[t.lead];
                        if k < l || k - l >= n - t.e {
                            continue;
                        }
                        let mut acc = FE::zero();
                        for (co, vs) in &t.terms {
                            let mut p = fe_i(*co);
                            for (o, q) in vs {
                                p = p * m.get((k - l + s.offs[*o]) % n, *q);
                            }
                            acc = acc + p;
                        }
                        set(m, k, *e, acc);
                    }
                }
            }
            // keep the permuted column a permutation
            if s.aux {
                let mut left: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
                for k in 0..n {
                    left.entry(h.get(k, 0).to_bytes_be()).or_default().push(k);
                }
                for k in 0..n {
                    if let Some(j) = left.get_mut(&h.get(k, 1).to_bytes_be()).and_then(|v| v.pop()) {
                        let v = m.get(j, 0);
                        set(m, k, 1, v);
                    }
                }
            }
        }
        _ => return None,
    }
    Some(())
}

fn class_of(v: &str) -> String {
    let n = name(v);
    let n = n.trim_end_matches(|c: char| c.is_ascii_digit() || c == ' ' || c == ',');
    n.to_string()
}

fn judge(out: &mut RunOut, kind: &str, what: &str, pi: &Pi, main: &Trace, aux: Option<&Trace>, ch: &[FE], v: &Verdict) {
    let bad = zoo::reference_violations(pi, main, aux, ch);
    let gaps = match pi {
        Pi::Cairo(p) => cairo::unenforced_violations(p, main, aux, ch),
        _ => vec![],
    };
    let set = names(&bad);
    out.evs(&v.s());
    out.state(mix(hash_bytes(format!("{} {what} {set:?} {}", pi.kind(), *v == Verdict::Accept).as_bytes())));
    if set.is_empty() && gaps.is_empty() {
        out.stat("harmless_fault");
        if *v != Verdict::Accept {
            out.bad("satisfied-but-rejected", format!("{kind}: after the fault {what} every condition holds, yet: {}", v.s()));
        } else if what != "none" {
            out.stat("harmless_fault_accepted");
        }
        return;
    }
    if set.is_empty() {
        let g = names(&gaps);
        out.stat(&format!("gap:{}", g.iter().cloned().collect::<Vec<_>>().join("+")));
        if *v == Verdict::Accept {
            for g in &g {
                out.bad(&format!("unenforced:{g}"), format!("{kind}: after the fault {what} the trace violates {g} and nothing else, and was accepted"));
            }
        }
        return;
    }
    out.stat("harmful_fault");
    if set.len() == 1 {
        let s = set.iter().next().unwrap();
        if matches!(pi, Pi::Cairo(_)) {
            out.stat(&format!("isolated:{s}"));
            if bad.len() == 1 {
                let row = bad[0].rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0usize);
                if row + 1 == rows(main) {
                    out.stat(&format!("isolated_last_row:{s}"));
                }
            }
        } else if bad.len() == 1 {
            out.stat(&format!("isolated:{}:{}", pi.kind(), class_of(s)));
        }
    }
    if *v == Verdict::Accept {
        let first = if set.len() == 1 { class_of(&bad[0]) } else { "several".into() };
        out.bad(&format!("violated-but-accepted:{first}"), format!("{kind}: after the fault {what} the committed trace violates {:?}, and the proof was accepted", bad.iter().take(4).collect::<Vec<_>>()));
    } else {
        out.stat("harmful_fault_rejected");
    }
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run builds one execution (Cairo executions may be cut short), injects one fault at a time into the prover's memory (trace cells, registers, memory accesses, range-check offsets, running products, \
                   public inputs), proves with the real prover and judges with the real verifier; an independent checker lists the violated conditions of the committed trace; \
                   non-trivial if a harmful fault was judged",
            level: "exploration",
            real: &["prover", "verifier", "AIRs and their constraints", "execution trace construction", "runner"],
            stub: &["lambdaworks-math / lambdaworks-crypto", "cairo-vm", "auxiliary columns of Cairo under faults are computed by the simulator"],
            assumptions: &["a violated condition survives the verifier's random checks with negligible probability"],
            state_measure: "hash of (kind of statement, fault kind, set of violated conditions, verdict)",
            time_unit: "proofs",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4500 } else { 150000 }
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "harmless_fault_accepted", "harmful_fault_rejected",
            "isolated:flag0", "isolated:flag7", "isolated:flag14", "isolated:flag15", "isolated:inst", "isolated:dst_addr", "isolated:op0_addr", "isolated:op1_addr",
            "isolated:next_ap", "isolated:next_fp", "isolated:next_pc_1", "isolated:next_pc_2", "isolated:t0", "isolated:t1", "isolated:mul_1", "isolated:mul_2",
            "isolated:call_1", "isolated:call_2", "isolated:assert_eq", "isolated:rc_builtin",
            "isolated:mem_increasing0", "isolated:mem_increasing1", "isolated:mem_increasing2", "isolated:mem_increasing3",
            "isolated:mem_consistency0", "isolated:mem_consistency1", "isolated:mem_consistency2", "isolated:mem_consistency3",
            "isolated:mem_perm0", "isolated:mem_perm1", "isolated:mem_perm2", "isolated:mem_perm3", "isolated:perm_final",
            "isolated:rc_increasing0", "isolated:rc_increasing1", "isolated:rc_increasing2", "isolated:rc_perm0", "isolated:rc_perm1", "isolated:rc_perm2",
            "isolated_last_row:mem_perm0", "isolated_last_row:mem_perm1", "isolated_last_row:mem_perm2",
            "isolated_last_row:rc_perm0", "isolated_last_row:rc_perm1", "isolated_last_row:rc_perm2",
            "isolated_last_row:mem_increasing0", "isolated_last_row:mem_increasing1", "isolated_last_row:mem_increasing2",
            "isolated_last_row:mem_consistency0", "isolated_last_row:mem_consistency1", "isolated_last_row:mem_consistency2",
            "isolated_last_row:rc_increasing0", "isolated_last_row:rc_increasing1", "isolated_last_row:flag3", "isolated_last_row:flag15", "isolated_last_row:rc_builtin",
            "isolated:rc_perm_final", "isolated:rc_min", "isolated:rc_max", "isolated:pc_init", "isolated:ap_init", "isolated:pc_final", "isolated:ap_final",
            "isolated:generated_air:transition", "isolated:generated_air:boundary", "isolated:generated_air:aux step", "isolated:generated_air:aux initial",
            "isolated:simple_fibonacci:step", "isolated:fibonacci_2_columns:step", "isolated:quadratic:step", "isolated:quadratic:initial",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut opts = zoo::random_opts(&mut r);
        opts.q = *r.pick(&[3, 5, 8, 20]);
        opts.g = *r.pick(&[0, 1, 3]);
        // a bad proof that is far from any good one fails each query with a
        // probability of 1 - 1/blowup: small blowups need many queries
        opts.b = *r.pick(&[4, 4, 8, 16]);
        opts.q = opts.q.max(80 / (opts.b as f64).log2() as usize);
        let (stmt, cut, kinds): (Stmt, Option<u64>, Vec<&str>) = if idx % 5 != 4 {
            let mut s = loop {
                let s = cairo::random_spec(&mut r);
                if !s.v1 || r.chance(1, 8) {
                    break s;
                }
            };
            s.blocks.truncate(5);
            s.rc = s.rc || r.chance(1, 3);
            s.blocks.retain(|b| s.rc || !matches!(b, Blk::Rc(..)));
            // what some faults need
            for _ in 0..r.range(1, 3) {
                let a = r.us(64);
                let b = match r.below(9) {
                    0 => Blk::Push(2),
                    1 => Blk::AddImm(a, 2),
                    2 => Blk::Nop(a, r.below(100)),
                    3 => Blk::JnzZero,
                    4 => Blk::Copy(a),
                    5 => Blk::CallAbs(3),
                    6 => Blk::Fact(1),
                    7 if s.rc => Blk::Rc(vec![r.next(), r.below(70000)], r.next()),
                    _ => Blk::Jnz(a),
                };
                let at = r.us(s.blocks.len() + 1);
                s.blocks.insert(at, b);
            }
            if s.v1 {
                s.blocks.clear();
            }
            let cut = if s.v1 {
                Some(r.below(30))
            } else if r.chance(1, 4) {
                // right after a jump not taken, or a call
                Some(1000 * r.range(1, 2) + r.below(10))
            } else if r.chance(2, 3) {
                Some(r.range(1, 999))
            } else {
                None
            };
            let mut k = vec![];
            // every kind comes round; the rest is drawn
            k.push(CAIRO[(idx as usize / 5 * 4 + idx as usize % 5) % CAIRO.len()]);
            for _ in 0..3 {
                k.push(*r.pick(CAIRO));
            }
            (Stmt::Cairo(s), cut, k)
        } else {
            let st = loop {
                let s = zoo::random_stmt(&mut r, opts.b as usize, 4, 0);
                if !matches!(s, Stmt::Cairo(_)) {
                    break s;
                }
            };
            let k = (0..8).map(|_| *r.pick(OTHER)).collect();
            (st, None, k)
        };
        let (stmt, cut, kinds) = if idx < 5 {
            // the gaps that are known findings
            let s = CairoSpec {
                blocks: vec![Blk::Rc(vec![70000, 5], 99), Blk::Push(3), Blk::Copy(0)],
                rc: true,
                out: false,
                pub_out: false,
                v1: false,
                end_jump: false,
            };
            (Stmt::Cairo(s), if idx == 2 { Some(1) } else { None }, vec![GAPS[idx as usize]])
        } else {
            (stmt, cut, kinds)
        };
        let muts = kinds.iter().map(|k| Mut { kind: k.to_string(), r: r.next() }).collect();
        val(&Case { stmt, opts, cut, muts })
    }
    fn exec(&self, case: &Value) -> RunOut {
        inject(case, false)
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["muts", "blocks"])
    }
}

/// Injects the faults of a case one after the other. `diagnose` judges what
/// prover and verifier say about it (C13) instead of the verdict.
pub(super) fn inject(case: &Value, diagnose: bool) -> RunOut {
        let c: Case = parse(case);
        let mut out = RunOut::default();
        let po = c.opts.po();
        let (pi, main) = match &c.stmt {
            Stmt::Cairo(s) => {
                let Ok(Ok(b)) = catch(|| cairo::build(s)) else {
                    out.stat("no_statement");
                    return out;
                };
                match c.cut {
                    None => (Pi::Cairo(b.pi), b.trace),
                    Some(cut) => {
                        let all = b.regs.rows.len();
                        let after: Vec<usize> = (0..all.saturating_sub(2))
                            .filter(|i| match cut / 1000 {
                                1 => b.trace.get(*i, 9) == fe(1) && b.trace.get(*i, 24) == fe(0),
                                2 => b.trace.get(*i, 12) == fe(1),
                                _ => false,
                            })
                            .collect();
                        let k = if after.is_empty() { 2 + (cut % 1000) as usize * (all - 2) / 1000 } else { after[cut as usize % 1000 % after.len()] + 2 };
                        let k = k.min(all);
                        let regs = RegisterStates { rows: b.regs.rows[..k].to_vec() };
                        let size = b.pi.public_memory.len()
                            - b.pi.memory_segments.get(&MemorySegment::Output).map_or(0, |r| (r.end - r.start) as usize);
                        let mut pi = PublicInputs::from_regs_and_mem(&regs, &b.mem, size, &b.pi.memory_segments);
                        let t = build_main_trace(&regs, &b.mem, &mut pi);
                        out.stat("cut_short");
                        (Pi::Cairo(pi), t)
                    }
                }
            }
            s => {
                let Ok(i) = zoo::build(s) else {
                    out.stat("no_statement");
                    return out;
                };
                (i.pi, i.trace)
            }
        };
        let kind = pi.kind();
        for mu in &c.muts {
            let mut r = Rng::new(mu.r);
            let (main2, pi2, f) = match &pi {
                Pi::Cairo(p) => match catch(|| fault(&mu.kind, &mut r, &main, p)) {
                    // the trace alone can not show this one
                    Ok(Some(f)) if diagnose && !(1..=main.n_rows()).contains(&f.pi.num_steps) => continue,
                    Ok(Some(f)) => (f.main.clone(), Pi::Cairo(f.pi.clone()), Some(f)),
                    Ok(None) => {
                        out.stat(&format!("no_room_for:{}", mu.kind));
                        continue;
                    }
                    Err(m) => {
                        out.harness_error = Some(m);
                        return out;
                    }
                },
                _ => {
                    let m = if mu.kind.starts_with("aux") || mu.kind == "none" { Some(main.clone()) } else { plain_fault(&mu.kind, &mut r, &c.stmt, &main) };
                    match m {
                        Some(m) => (m, pi.clone(), None),
                        None => {
                            out.stat(&format!("no_room_for:{}", mu.kind));
                            continue;
                        }
                    }
                }
            };
            out.stat(&format!("fault:{}", mu.kind));
            let seen: Rc<RefCell<Option<(Option<Trace>, Vec<FE>)>>> = Rc::default();
            let s2 = seen.clone();
            let kind2 = mu.kind.clone();
            let mut r2 = r.fork();
            let hook = Box::new(move |_m: &Trace, honest: Trace, ch: &dyn Any| -> Trace {
                let ch = challenges(ch);
                let aux = match &f {
                    Some(f) if !matches!(f.aux, AuxFault::Stale) => match cairo_aux(f, &ch, &mut r2) {
                        Some(a) => a,
                        None => honest,
                    },
                    _ => {
                        let mut a = honest;
                        if a.n_cols > 0 && kind2.starts_with("aux") {
                            let (i, c) = (r2.us(a.n_rows()), r2.us(a.n_cols));
                            if kind2 == "aux" {
                                let v = a.get(i, c) + fe_rand(&mut r2);
                                set(&mut a, i, c, v);
                            } else {
                                let s = fe_rand(&mut r2);
                                for k in i..a.n_rows() {
                                    let v = a.get(k, c) * s;
                                    set(&mut a, k, c, v);
                                }
                            }
                        }
                        a
                    }
                };
                *s2.borrow_mut() = Some((if aux.n_cols > 0 { Some(aux.clone()) } else { None }, ch));
                aux
            });
            // the repository computes its columns from the honest trace where
            // the simulator or a stale copy supplies them
            let honest = match (&pi, mu.kind.as_str()) {
                (Pi::Cairo(_), _) | (_, "cell_stale") => Some(main.clone()),
                _ => None,
            };
            diag::start();
            let p = pi2.prove_hooked(&main2, honest, &po, hook);
            let said = diag::stop();
            let got = seen.borrow_mut().take();
            if diagnose {
                let (aux, ch) = got.unwrap_or((None, vec![]));
                diag::judge(&mut out, kind, &mu.kind, &pi2, &main2, aux.as_ref(), &ch, &po, p, said);
                continue;
            }
            let (p, (aux, ch)) = match (p, got) {
                (Ok(p), Some(g)) => (p, g),
                (Ok(p), None) => (p, (None, vec![])),
                (Err(_), g) => {
                    out.stat("prover_gave_up");
                    if let Some((aux, ch)) = g {
                        // a trace that satisfies everything has to be provable
                        judge(&mut out, kind, &mu.kind, &pi2, &main2, aux.as_ref(), &ch, &Verdict::Reject);
                    }
                    continue;
                }
            };
            out.sim_time += 1;
            let v = pi2.check(&p, &po);
            out.ev(hash_bytes(&proof_canon(&p)));
            let aux = aux.as_ref();
            judge(&mut out, kind, &mu.kind, &pi2, &main2, aux, &ch, &v);
            out.nontrivial = true;
        }
        out.sample = format!("{kind} n={} {:?} cut {:?}: {:?}", main.n_rows(), c.opts, c.cut, c.muts.iter().map(|m| m.kind.as_str()).collect::<Vec<_>>());
        out
    }
