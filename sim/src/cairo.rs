//! Random Cairo programs (own assembler), runs through the repository's
//! runner pipeline, and an independent reference for the Cairo constraints.
use crate::core::*;
use crate::rng::Rng;
use crate::zoo::Trace;
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::RegisterStates;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
use serde::{Deserialize, Serialize};
use std::ops::Range;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CairoSpec {
    pub blocks: Vec<Blk>,
    pub rc: bool,
    pub out: bool,
    /// pass the output segment as public memory
    pub pub_out: bool,
    pub v1: bool,
    /// main ends with a jump instead of a return: nothing reads [fp - 2]
    #[serde(default)]
    pub end_jump: bool,
}

/// Program building blocks. Operand fields are indices into the cells known
/// so far (taken modulo their number), so dropping blocks keeps a program valid.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Blk {
    Push(u64),
    PushBig(u64),
    Copy(usize),
    Add(usize, usize),
    Mul(usize, usize),
    AddImm(usize, i64),
    MulImm(usize, i64),
    /// a loop of many rounds, and a wide gap in the memory
    Long(u32),
    Far(u32),
    /// dst known, op0 deduced by the machine
    Sub(usize, usize),
    Div(usize, usize),
    AssertImm(usize),
    AssertSum(usize, usize),
    /// writes a cell ahead of ap, leaving a gap
    Ahead(u8, u64),
    ApAdd(u8),
    ApAddCell(u8),
    JmpRel(u8),
    JmpAbs(u8),
    /// conditional jump on a known cell
    Jnz(usize),
    JnzZero,
    Loop(u8),
    Fib(u64, u64, u8),
    Fact(u8),
    CallAbs(u64),
    /// relative call whose distance is in a cell
    CallRel(u64),
    /// double dereference through a pointer to the caller's frame
    Deref(usize),
    DerefIndirect(usize, i8),
    Rc(Vec<u64>, u64),
    Out(Vec<usize>),
    /// an instruction without effect: its result is used by nothing
    Nop(usize, u64),
}

pub fn random_spec(r: &mut Rng) -> CairoSpec {
    if r.chance(1, 40) {
        return CairoSpec { blocks: vec![], rc: false, out: false, pub_out: false, v1: true, end_jump: false };
    }
    let rc = r.chance(2, 5);
    let out = r.chance(2, 5);
    let n = r.range(2, 14);
    let mut blocks = vec![];
    for _ in 0..n {
        let a = r.us(64);
        let b = r.us(64);
        blocks.push(match r.below(32) {
            0 => Blk::Push(r.below(1 << 20)),
            1 => Blk::PushBig(r.next()),
            2 => Blk::Copy(a),
            3 | 4 => Blk::Add(a, b),
            5 | 6 => Blk::Mul(a, b),
            7 => Blk::AddImm(a, r.below(200) as i64 - 100),
            8 => Blk::MulImm(a, r.below(200) as i64 - 100),
            9 | 10 => Blk::Sub(a, b),
            11 => Blk::Div(a, b),
            12 => Blk::AssertImm(a),
            13 => Blk::AssertSum(a, b),
            14 => Blk::Ahead(r.range(1, 30) as u8, r.below(1000)),
            15 => Blk::ApAdd(r.range(1, 20) as u8),
            16 => Blk::ApAddCell(r.range(1, 12) as u8),
            17 => Blk::JmpRel(r.below(6) as u8),
            18 => Blk::JmpAbs(r.below(6) as u8),
            19 => Blk::Jnz(a),
            20 => Blk::JnzZero,
            21 => Blk::Loop(r.range(1, 12) as u8),
            22 => Blk::Fib(r.below(9), r.below(9), r.below(12) as u8),
            23 => Blk::Fact(r.below(8) as u8),
            24 => Blk::CallAbs(r.below(100)),
            25 => Blk::Deref(a),
            26 => Blk::DerefIndirect(a, r.below(5) as i8 - 2),
            27 if rc => Blk::Rc((0..r.range(1, 4)).map(|_| r.next()).collect(), r.next()),
            28 if rc => Blk::Rc(vec![r.below(1 << 16)], 0),
            27 | 28 if out => Blk::Out((0..r.range(1, 3)).map(|_| r.us(64)).collect()),
            29 if out => Blk::Out(vec![a]),
            30 => Blk::Nop(a, r.below(1000)),
            31 => Blk::CallRel(r.below(100)),
            _ => Blk::Push(r.below(50)),
        });
    }
    if out && !blocks.iter().any(|b| matches!(b, Blk::Out(_))) && r.chance(3, 4) {
        blocks.push(Blk::Out(vec![0]));
    }
    if out && r.chance(1, 4) {
        // a gap right after the program, and a long output
        blocks.insert(0, Blk::ApAdd(r.range(1, 9) as u8));
        for _ in 0..r.range(2, 6) {
            blocks.push(Blk::Out((0..r.range(2, 4)).map(|_| r.us(64)).collect()));
        }
    }
    // keeping the output private is only sound to exercise now and then
    let pub_out = out && r.chance(4, 5);
    CairoSpec { blocks, rc, out, pub_out, v1: false, end_jump: r.chance(1, 5) }
}

// ------------------------------------------------------------- assembler
const DST_FP: u64 = 1;
const OP0_FP: u64 = 2;
const OP1_IMM: u64 = 4;
const OP1_FP: u64 = 8;
const OP1_AP: u64 = 16;
const ADD: u64 = 32;
const MUL: u64 = 64;
const JABS: u64 = 128;
const JREL: u64 = 256;
const JNZ: u64 = 512;
const APADD: u64 = 1024;
const AP1: u64 = 2048;
const CALL: u64 = 4096;
const RET: u64 = 8192;
const AEQ: u64 = 16384;

fn enc(d: i64, o0: i64, o1: i64, fl: u64) -> FE {
    let b = |x: i64| {
        assert!((-32768..32768).contains(&x));
        (x + 32768) as u64
    };
    fe(b(d) | b(o0) << 16 | b(o1) << 32 | fl << 48)
}

struct Asm {
    code: Vec<FE>,
    /// ap relative to main's fp
    ap: i64,
    /// cells with known values, relative to main's fp
    cells: Vec<(i64, FE)>,
    /// (position of call target word, function)
    fix: Vec<(usize, Fun)>,
    /// (word, code position the pointer refers to) of absolute calls
    abs: Vec<(usize, i64)>,
    n_rc: usize,
    n_out: usize,
    has_rc: bool,
    has_out: bool,
}
#[derive(Clone, Copy, PartialEq)]
enum Fun {
    Fib,
    Fact,
    GetFp,
    GetPc,
    Inc,
}

#[derive(Clone, Copy)]
struct Ref {
    fp: bool,
    off: i64,
}

impl Asm {
    fn at(&self, pos: i64, prefer_fp: bool) -> Ref {
        if prefer_fp && pos.abs() < 90 {
            Ref { fp: true, off: pos }
        } else if (pos - self.ap).abs() < 30000 {
            Ref { fp: false, off: pos - self.ap }
        } else {
            Ref { fp: true, off: pos }
        }
    }
    fn cell(&self, i: usize) -> (i64, FE) {
        self.cells[i % self.cells.len()]
    }
    fn emit(&mut self, w: FE) {
        self.code.push(w);
    }
    fn known(&mut self, pos: i64, v: FE) {
        self.cells.push((pos, v));
    }
    /// [ap] = imm; ap++
    fn push_imm(&mut self, v: FE) {
        self.emit(enc(0, -1, 1, OP0_FP | OP1_IMM | AP1 | AEQ));
        self.emit(v);
        self.known(self.ap, v);
        self.ap += 1;
    }
    /// [ap] = a (op) b; ap++
    fn push_bin(&mut self, a: Ref, b: Ref, op: u64) {
        let f = if a.fp { OP0_FP } else { 0 } | if b.fp { OP1_FP } else { OP1_AP };
        self.emit(enc(0, a.off, b.off, f | op | AP1 | AEQ));
        self.ap += 1;
    }
    fn call(&mut self, f: Fun) {
        self.emit(enc(0, 1, 1, OP1_IMM | JREL | CALL));
        self.fix.push((self.code.len(), f));
        self.emit(FE::zero());
        self.ap += 2;
    }
    fn block(&mut self, blk: &Blk) {
        match blk {
            Blk::Push(v) => self.push_imm(fe(*v)),
            Blk::PushBig(s) => {
                let v = fe_rand(&mut Rng::new(*s));
                self.push_imm(v)
            }
            Blk::Copy(a) => {
                let (p, v) = self.cell(*a);
                let r = self.at(p, *a & 1 == 0);
                self.emit(enc(0, -1, r.off, OP0_FP | if r.fp { OP1_FP } else { OP1_AP } | AP1 | AEQ));
                self.known(self.ap, v);
                self.ap += 1;
            }
            Blk::Add(a, b) => self.bin(*a, *b, false),
            Blk::Mul(a, b) => self.bin(*a, *b, true),
            Blk::AddImm(a, k) | Blk::MulImm(a, k) => {
                let mul = matches!(blk, Blk::MulImm(..));
                let (p, v) = self.cell(*a);
                let r = self.at(p, a & 1 == 1);
                let op = if mul { MUL } else { ADD };
                self.emit(enc(0, r.off, 1, if r.fp { OP0_FP } else { 0 } | OP1_IMM | op | AP1 | AEQ));
                self.emit(fe_i(*k));
                self.known(self.ap, if mul { v * fe_i(*k) } else { v + fe_i(*k) });
                self.ap += 1;
            }
            Blk::Sub(a, b) | Blk::Div(a, b) => {
                // a = [ap] (op) b
                let div = matches!(blk, Blk::Div(..));
                let (pa, va) = self.cell(*a);
                let (pb, vb) = self.cell(*b);
                if div && vb == FE::zero() {
                    return;
                }
                let (ra, rb) = (self.at(pa, a & 1 == 0), self.at(pb, b & 1 == 0));
                let f = if ra.fp { DST_FP } else { 0 } | if rb.fp { OP1_FP } else { OP1_AP };
                self.emit(enc(ra.off, 0, rb.off, f | if div { MUL } else { ADD } | AP1 | AEQ));
                self.known(self.ap, if div { va * vb.inv() } else { va - vb });
                self.ap += 1;
            }
            Blk::AssertImm(a) => {
                let (p, v) = self.cell(*a);
                let r = self.at(p, a & 1 == 0);
                self.emit(enc(r.off, -1, 1, if r.fp { DST_FP } else { 0 } | OP0_FP | OP1_IMM | AEQ));
                self.emit(v);
            }
            Blk::AssertSum(a, b) => {
                let (pa, va) = self.cell(*a);
                let (pb, vb) = self.cell(*b);
                self.push_imm(va + vb);
                let (ra, rb) = (self.at(pa, false), self.at(pb, true));
                let f = if ra.fp { OP0_FP } else { 0 } | if rb.fp { OP1_FP } else { OP1_AP };
                self.emit(enc(-1, ra.off, rb.off, f | ADD | AEQ));
            }
            Blk::Ahead(k, v) => {
                let k = (*k).max(1) as i64;
                self.emit(enc(k, -1, 1, OP0_FP | OP1_IMM | AEQ));
                self.emit(fe(*v));
                self.known(self.ap + k, fe(*v));
                // move past it so that nothing overwrites it
                self.emit(enc(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | APADD));
                self.emit(fe_i(k + 1));
                self.ap += k + 1;
            }
            Blk::ApAdd(k) => {
                self.emit(enc(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | APADD));
                self.emit(fe(*k as u64));
                self.ap += *k as i64;
            }
            Blk::Far(k) => {
                self.emit(enc(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | APADD));
                self.emit(fe(*k as u64));
                self.emit(enc(0, -1, 1, OP0_FP | OP1_IMM | AP1 | AEQ));
                self.emit(fe(*k as u64));
                self.ap += *k as i64 + 1;
            }
            Blk::ApAddCell(k) => {
                self.push_imm(fe(*k as u64));
                self.emit(enc(-1, -1, -1, DST_FP | OP0_FP | OP1_AP | APADD));
                self.ap += *k as i64;
            }
            Blk::JmpRel(k) => {
                self.emit(enc(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | JREL));
                self.emit(fe(2 + *k as u64));
                for i in 0..*k {
                    self.emit(fe(0xdead0000 + i as u64));
                }
            }
            Blk::JmpAbs(k) => {
                self.call(Fun::GetPc);
                // [ap-1] = address of the instruction after the call
                let here = self.code.len() as i64;
                self.ap += 1;
                // [ap] = [ap-1] + d; ap++
                self.emit(enc(0, -1, 1, OP1_IMM | ADD | AP1 | AEQ));
                let fixup = self.code.len();
                self.emit(FE::zero());
                self.ap += 1;
                // jmp abs [ap-1]
                self.emit(enc(-1, -1, -1, DST_FP | OP0_FP | OP1_AP | JABS));
                for i in 0..*k {
                    self.emit(fe(0xbeef0000 + i as u64));
                }
                self.code[fixup] = fe_i(self.code.len() as i64 - here);
            }
            Blk::Jnz(a) => {
                let (p, v) = self.cell(*a);
                let r = self.at(p, a & 1 == 0);
                // jmp rel 4 if cell != 0; skipped: one push-sized junk pair
                self.emit(enc(r.off, -1, 1, if r.fp { DST_FP } else { 0 } | OP0_FP | OP1_IMM | JNZ));
                self.emit(fe(4));
                // executed only when the cell is zero: assert fp[-1]-style no-op jump over nothing
                if v == FE::zero() {
                    self.emit(enc(-1, -1, 1, DST_FP | OP0_FP | OP1_IMM | JREL));
                    self.emit(fe(2));
                } else {
                    self.emit(fe(0xfeed0000));
                    self.emit(fe(0xfeed0001));
                }
            }
            Blk::JnzZero => {
                self.push_imm(FE::zero());
                self.emit(enc(-1, -1, 1, OP0_FP | OP1_IMM | JNZ | AP1));
                self.emit(fe(100));
                self.ap += 1;
            }
            Blk::Loop(_) | Blk::Long(_) => {
                let k = match blk {
                    Blk::Loop(k) => *k as i64,
                    Blk::Long(k) => *k as i64,
                    _ => 0,
                }
                .max(1);
                self.push_imm(fe_i(k));
                // loop: [ap] = [ap-1] + (-1); ap++
                self.emit(enc(0, -1, 1, OP1_IMM | ADD | AP1 | AEQ));
                self.emit(fe_i(-1));
                self.emit(enc(-1, -1, 1, OP0_FP | OP1_IMM | JNZ));
                self.emit(fe_i(-2));
                for i in 1..=k {
                    self.known(self.ap, fe_i(k - i));
                    self.ap += 1;
                }
            }
            Blk::Fib(a, b, n) => {
                let n = (*n).min(40);
                self.push_imm(fe(*a));
                self.push_imm(fe(*b));
                self.push_imm(fe(n as u64));
                self.call(Fun::Fib);
                self.ap += 5 * n as i64 + 1;
                let (mut x, mut y) = (fe(*a), fe(*b));
                for _ in 0..n {
                    (x, y) = (y, x + y);
                }
                self.known(self.ap - 1, x);
            }
            Blk::Fact(n) => {
                let n = (*n).min(20) as u64;
                self.push_imm(fe(n));
                self.call(Fun::Fact);
                self.ap += 4 * n as i64 + 1;
                self.known(self.ap - 1, fe((1..=n).product::<u64>().max(1)));
            }
            Blk::CallAbs(v) => {
                // a pointer to the code after the call, then an absolute call
                self.push_imm(fe(*v));
                self.call(Fun::GetPc);
                let here = self.code.len();
                self.ap += 1;
                self.emit(enc(0, -1, 1, OP1_IMM | ADD | AP1 | AEQ));
                self.abs.push((self.code.len(), here as i64));
                self.emit(FE::zero());
                self.ap += 1;
                // [ap] = v (copy of the argument), then call abs [ap-2]
                self.emit(enc(0, -1, -5, OP0_FP | OP1_AP | AP1 | AEQ));
                self.known(self.ap, fe(*v));
                self.ap += 1;
                self.emit(enc(0, 1, -2, OP1_AP | JABS | CALL));
                self.ap += 2;
                // Inc: [ap] = [fp-3] + 1; ap++; ret
                self.ap += 1;
                self.known(self.ap - 1, fe(*v) + FE::one());
            }
            Blk::CallRel(v) => {
                // the distance, then call rel [ap-2]
                self.emit(enc(0, -1, 1, OP0_FP | OP1_IMM | AP1 | AEQ));
                self.abs.push((self.code.len(), self.code.len() as i64 + 3));
                self.emit(FE::zero());
                self.ap += 1;
                self.push_imm(fe(*v));
                self.emit(enc(0, 1, -2, OP1_AP | JREL | CALL));
                self.ap += 3;
                self.known(self.ap - 1, fe(*v) + FE::one());
            }
            Blk::Deref(a) => {
                let (p, v) = self.cell(*a);
                if p.abs() > 30000 {
                    return;
                }
                self.call(Fun::GetFp);
                self.ap += 1;
                // [ap] = [[ap-1] + p]; ap++
                self.emit(enc(0, -1, p, AP1 | AEQ));
                self.known(self.ap, v);
                self.ap += 1;
            }
            Blk::DerefIndirect(a, k) => {
                let (p, v) = self.cell(*a);
                self.call(Fun::GetFp);
                self.ap += 1;
                // [ap] = [ap-1] + (p - k); ap++ ; cell = [[ap-1] + k]
                self.emit(enc(0, -1, 1, OP1_IMM | ADD | AP1 | AEQ));
                self.emit(fe_i(p - *k as i64));
                self.ap += 1;
                let r = self.at(p, a & 1 == 0);
                self.emit(enc(r.off, -1, *k as i64, if r.fp { DST_FP } else { 0 } | AEQ));
                let _ = v;
            }
            Blk::Rc(lows, hi) => {
                if !self.has_rc {
                    return;
                }
                for l in lows {
                    if self.n_rc > 60 {
                        return;
                    }
                    let v = fe(*l) + fe(*hi) * fe(1 << 32) * fe(1 << 32);
                    self.push_imm(v);
                    // assert [ap-1] = [[fp-3] + i]
                    self.emit(enc(-1, -3, self.n_rc as i64, OP0_FP | AEQ));
                    self.n_rc += 1;
                }
            }
            Blk::Nop(a, k) => {
                let (p, _) = self.cell(*a);
                let r = self.at(p, a & 1 == 0);
                let op = [0, ADD, MUL][*k as usize % 3];
                self.emit(enc(-1, r.off, 1, DST_FP | if r.fp { OP0_FP } else { 0 } | OP1_IMM | op));
                self.emit(fe(*k));
            }
            Blk::Out(ix) => {
                if !self.has_out {
                    return;
                }
                for a in ix {
                    if self.n_out > 40 {
                        return;
                    }
                    let (p, v) = self.cell(*a);
                    let r = self.at(p, a & 1 == 0);
                    let o = if self.has_rc { -4 } else { -3 };
                    self.emit(enc(r.off, o, self.n_out as i64, if r.fp { DST_FP } else { 0 } | OP0_FP | AEQ));
                    let _ = v;
                    self.n_out += 1;
                }
            }
        }
    }
    fn bin(&mut self, a: usize, b: usize, mul: bool) {
        let (pa, va) = self.cell(a);
        let (pb, vb) = self.cell(b);
        let (ra, rb) = (self.at(pa, a & 2 == 0), self.at(pb, b & 2 == 0));
        let pos = self.ap;
        self.push_bin(ra, rb, if mul { MUL } else { ADD });
        self.known(pos, if mul { va * vb } else { va + vb });
    }
}

/// Program JSON in the V0 format.
pub fn assemble(s: &CairoSpec) -> String {
    let mut a = Asm {
        code: vec![],
        ap: 0,
        cells: vec![],
        fix: vec![],
        abs: vec![],
        n_rc: 0,
        n_out: 0,
        has_rc: s.rc,
        has_out: s.out,
    };
    a.push_imm(fe(7));
    for b in &s.blocks {
        // frame-relative addressing stays within 16-bit offsets
        if matches!(b, Blk::Far(_)) || a.ap < 12000 && a.code.len() < 3000 {
            a.block(b);
        }
    }
    // final builtin pointers, in stack order
    for (on, off, n) in [(s.out, if s.rc { -4 } else { -3 }, a.n_out), (s.rc, -3, a.n_rc)] {
        if on {
            a.emit(enc(0, off, 1, OP0_FP | OP1_IMM | ADD | AP1 | AEQ));
            a.emit(fe(n as u64));
            a.ap += 1;
        }
    }
    let ret = enc(-2, -1, -1, DST_FP | OP0_FP | OP1_FP | JABS | RET);
    // jmp abs [fp - 1]
    a.emit(if s.end_jump { enc(-1, -1, -1, DST_FP | OP0_FP | OP1_FP | JABS) } else { ret });
    // library functions
    let mut start = std::collections::BTreeMap::new();
    let lib = [Fun::GetFp, Fun::GetPc, Fun::Inc, Fun::Fib, Fun::Fact];
    for f in lib {
        let used = a.fix.iter().any(|x| x.1 == f) || (f == Fun::Inc && !a.abs.is_empty());
        if !used {
            continue;
        }
        start.insert(f as u8, a.code.len());
        match f {
            // [ap] = [fp-2]; ap++; ret
            Fun::GetFp => {
                a.emit(enc(0, -1, -2, OP0_FP | OP1_FP | AP1 | AEQ));
                a.emit(ret);
            }
            Fun::GetPc => {
                a.emit(enc(0, -1, -1, OP0_FP | OP1_FP | AP1 | AEQ));
                a.emit(ret);
            }
            Fun::Inc => {
                a.emit(enc(0, -3, 1, OP0_FP | OP1_IMM | ADD | AP1 | AEQ));
                a.emit(FE::one());
                a.emit(ret);
            }
            Fun::Fib => {
                let s0 = a.code.len();
                // jmp rel 4 if [fp-3] != 0
                a.emit(enc(-3, -1, 1, DST_FP | OP0_FP | OP1_IMM | JNZ));
                a.emit(fe(4));
                // [ap] = [fp-5]; ap++; ret
                a.emit(enc(0, -1, -5, OP0_FP | OP1_FP | AP1 | AEQ));
                a.emit(ret);
                // [ap] = [fp-4]; ap++
                a.emit(enc(0, -1, -4, OP0_FP | OP1_FP | AP1 | AEQ));
                // [ap] = [fp-5] + [fp-4]; ap++
                a.emit(enc(0, -5, -4, OP0_FP | OP1_FP | ADD | AP1 | AEQ));
                // [ap] = [fp-3] + (-1); ap++
                a.emit(enc(0, -3, 1, OP0_FP | OP1_IMM | ADD | AP1 | AEQ));
                a.emit(fe_i(-1));
                a.emit(enc(0, 1, 1, OP1_IMM | JREL | CALL));
                let p = a.code.len() as i64 - 1;
                a.emit(fe_i(s0 as i64 - p));
                a.emit(ret);
            }
            Fun::Fact => {
                let s0 = a.code.len();
                a.emit(enc(-3, -1, 1, DST_FP | OP0_FP | OP1_IMM | JNZ));
                a.emit(fe(5));
                a.emit(enc(0, -1, 1, OP0_FP | OP1_IMM | AP1 | AEQ));
                a.emit(FE::one());
                a.emit(ret);
                a.emit(enc(0, -3, 1, OP0_FP | OP1_IMM | ADD | AP1 | AEQ));
                a.emit(fe_i(-1));
                a.emit(enc(0, 1, 1, OP1_IMM | JREL | CALL));
                let p = a.code.len() as i64 - 1;
                a.emit(fe_i(s0 as i64 - p));
                // [ap] = [ap-1] * [fp-3]; ap++; ret
                a.emit(enc(0, -1, -3, OP1_FP | MUL | AP1 | AEQ));
                a.emit(ret);
            }
        }
    }
    for (p, f) in a.fix.clone() {
        let ins = p as i64 - 1;
        a.code[p] = fe_i(start[&(f as u8)] as i64 - ins);
    }
    for (p, here) in a.abs.clone() {
        a.code[p] = fe_i(start[&(Fun::Inc as u8)] as i64 - here);
    }
    let data: Vec<String> = a.code.iter().map(|x| format!("\"0x{}\"", hexs(x))).collect();
    let mut bs = vec![];
    if s.out {
        bs.push("\"output\"");
    }
    if s.rc {
        bs.push("\"range_check\"");
    }
    format!(
        "{{\"prime\":\"0x800000000000011000000000000000000000000000000000000000000000001\",\"builtins\":[{}],\"data\":[{}],\"identifiers\":{{\"__main__.main\":{{\"pc\":0}}}},\"hints\":{{}}}}",
        bs.join(","),
        data.join(",")
    )
}
pub fn hexs(x: &FE) -> String {
    let h: String = x.to_bytes_be().iter().map(|b| format!("{b:02x}")).collect();
    let t = h.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

pub struct Built {
    pub trace: Trace,
    pub pi: PublicInputs,
    pub regs: RegisterStates,
    pub mem: CairoMemory,
    pub out_range: Option<Range<u64>>,
    pub program: Vec<u8>,
    pub v1: bool,
}

pub fn empty_pi() -> PublicInputs {
    PublicInputs {
        pc_init: FE::zero(),
        ap_init: FE::zero(),
        fp_init: FE::zero(),
        pc_final: FE::zero(),
        ap_final: FE::zero(),
        range_check_min: None,
        range_check_max: None,
        memory_segments: Default::default(),
        public_memory: Default::default(),
        num_steps: 0,
    }
}

pub fn v1_program() -> Vec<u8> {
    include_bytes!("/repo/cairo_programs/cairo1/fibonacci_cairo1.casm").to_vec()
}

pub fn program(s: &CairoSpec) -> Vec<u8> {
    if s.v1 {
        v1_program()
    } else {
        assemble(s).into_bytes()
    }
}

pub fn out_count(s: &CairoSpec) -> usize {
    if !s.out {
        return 0;
    }
    let mut n = 0usize;
    for b in &s.blocks {
        if let Blk::Out(ix) = b {
            for _ in ix {
                if n <= 40 {
                    n += 1;
                }
            }
        }
    }
    n
}

pub fn build(s: &CairoSpec) -> Result<Built, String> {
    let program = program(s);
    let ver = if s.v1 { CairoVersion::V1 } else { CairoVersion::V0 };
    let lay = if s.v1 { CairoLayout::Plain } else { CairoLayout::Small };
    let (regs, mem, _, _) = run_program(None, lay, &program, &ver).map_err(|e| format!("run: {e}"))?;
    let out_range = if s.out && s.pub_out && out_count(s) > 0 {
        let fp = regs.rows[0].fp;
        let base = mem.get(&(fp - if s.rc { 4 } else { 3 })).and_then(fe_u64).ok_or("no output pointer")?;
        Some(base..base + out_count(s) as u64)
    } else {
        None
    };
    let (trace, pi) = generate_prover_args(&program, &ver, &out_range).map_err(|e| format!("args: {e}"))?;
    Ok(Built { trace, pi, regs, mem, out_range, program, v1: s.v1 })
}

// ------------------------------------------------- independent reference

/// Every condition the Cairo AIR is documented to enforce, evaluated on a full
/// trace. `ch` = [alpha_memory, z_memory, z_range_check].
pub fn reference_violations(p: &PublicInputs, m: &Trace, aux: Option<&Trace>, ch: &[FE]) -> Vec<String> {
    let n = m.n_rows();
    let one = FE::one();
    let two = fe(2);
    let zero = FE::zero();
    let rc = p.memory_segments.contains_key(&MemorySegment::RangeCheck);
    let mut bad = vec![];
    let mut put = |name: &str, row: usize, v: FE| {
        if v != zero {
            bad.push(format!("{name} row {row}"));
        }
    };
    let b15 = fe(1 << 15);
    for i in 0..n {
        let g = |c: usize| m.get(i, c);
        let nx = |c: usize| m.get((i + 1) % n, c);
        let last = i == n - 1;
        for k in 0..15 {
            put(&format!("flag{k}"), i, g(k) * (g(k) - one));
        }
        put("flag15", i, g(15));
        let sel = g(33);
        let (res, ap, fp, pc) = (g(16), g(17), g(18), g(19));
        let (da, a0, a1) = (g(20), g(21), g(22));
        let (ins, dst, op0, op1) = (g(23), g(24), g(25), g(26));
        let (od, o0, o1) = (g(27), g(28), g(29));
        let (t0, t1, mul) = (g(30), g(31), g(32));
        let mut fl = zero;
        for k in (0..15).rev() {
            fl = g(k) + two * fl;
        }
        let size = g(2) + one;
        let s = |v: FE| sel * v;
        put("inst", i, s(od + o0 * fe(1 << 16) + o1 * fe(1 << 32) + fl * fe(1 << 48) - ins));
        put("dst_addr", i, s(g(0) * fp + (one - g(0)) * ap + od - b15 - da));
        put("op0_addr", i, s(g(1) * fp + (one - g(1)) * ap + o0 - b15 - a0));
        put(
            "op1_addr",
            i,
            s(g(2) * pc + g(4) * ap + g(3) * fp + (one - g(2) - g(3) - g(4)) * op0 + o1 - b15 - a1),
        );
        if !last {
            put("next_ap", i, s(ap + g(10) * res + g(11) + g(12) * two - nx(17)));
            put("next_fp", i, s(g(13) * dst + g(12) * (ap + two) + (one - g(12) - g(13)) * fp - nx(18)));
            put("next_pc_1", i, s((t1 - g(9)) * (nx(19) - pc - size)));
            put(
                "next_pc_2",
                i,
                s(t0 * (nx(19) - pc - op1) + (one - g(9)) * nx(19)
                    - ((one - g(7) - g(8) - g(9)) * (pc + size) + g(7) * res + g(8) * (pc + res))),
            );
        }
        put("t0", i, s(g(9) * dst - t0));
        put("t1", i, s(t0 * res - t1));
        put("mul_1", i, s(mul - op0 * op1));
        put(
            "mul_2",
            i,
            s(g(5) * (op0 + op1) + g(6) * mul + (one - g(5) - g(6) - g(9)) * op1 - (one - g(9)) * res),
        );
        put("call_1", i, s(g(12) * (dst - fp)));
        put("call_2", i, s(g(12) * (op0 - pc - size)));
        put("assert_eq", i, s(g(14) * (dst - res)));
        if rc {
            let mut acc = zero;
            for k in (0..8).rev() {
                acc = acc * fe(1 << 16) + g(34 + k);
            }
            put("rc_builtin", i, acc - g(42));
        }
        if let Some(a) = aux {
            let h = |c: usize| a.get(i, c);
            let hn = |c: usize| a.get((i + 1) % n, c);
            // sorted columns: rc 0..3, addr 3..7, val 7..11, perm 11..15, rc perm 15..18
            let adj = |k: usize| if k < 3 { Some(h(3 + k + 1)) } else if !last { Some(hn(3)) } else { None };
            let vdj = |k: usize| if k < 3 { h(7 + k + 1) } else { hn(7) };
            let (al, z, zr) = (ch[0], ch[1], ch[2]);
            for k in 0..4 {
                if let Some(nxt) = adj(k) {
                    put(&format!("mem_increasing{k}"), i, (h(3 + k) - nxt) * (nxt - h(3 + k) - one));
                    put(&format!("mem_consistency{k}"), i, (h(7 + k) - vdj(k)) * (nxt - h(3 + k) - one));
                }
            }
            for k in 0..4 {
                let (pn, sa, sv, oa, ov);
                if k < 3 {
                    pn = h(12 + k);
                    sa = h(4 + k);
                    sv = h(8 + k);
                    oa = g(20 + k);
                    ov = g(24 + k);
                } else {
                    if last {
                        continue;
                    }
                    pn = hn(11);
                    sa = hn(3);
                    sv = hn(7);
                    oa = nx(19);
                    ov = nx(23);
                }
                put(&format!("mem_perm{k}"), i, (z - (sa + al * sv)) * pn - (z - (oa + al * ov)) * h(11 + k));
            }
            for k in 0..3 {
                if k == 2 && last {
                    continue;
                }
                let nxt = if k < 2 { h(k + 1) } else { hn(0) };
                put(&format!("rc_increasing{k}"), i, (h(k) - nxt) * (nxt - h(k) - one));
            }
            for k in 0..3 {
                let (pn, sv, ov);
                if k < 2 {
                    pn = h(16 + k);
                    sv = h(k + 1);
                    ov = g(28 + k);
                } else {
                    // the last step of this argument wraps around: it is not exempted
                    pn = hn(15);
                    sv = hn(0);
                    ov = nx(27);
                }
                put(&format!("rc_perm{k}"), i, (zr - sv) * pn - (zr - ov) * h(15 + k));
            }
        }
    }
    let st = p.num_steps;
    put("pc_init", 0, m.get(0, 19) - p.pc_init);
    put("ap_init", 0, m.get(0, 17) - p.ap_init);
    if st >= 1 && st <= n {
        put("pc_final", st - 1, m.get(st - 1, 19) - p.pc_final);
        put("ap_final", st - 1, m.get(st - 1, 17) - p.ap_final);
    } else {
        put("num_steps", 0, one);
    }
    if let Some(a) = aux {
        let (al, z) = (ch[0], ch[1]);
        let mut prod = one;
        for (ad, v) in &p.public_memory {
            prod = prod * (z - (*ad + al * *v));
        }
        put("perm_final", n - 1, a.get(n - 1, 14) * prod - z.pow(p.public_memory.len() as u64));
        put("rc_perm_final", n - 1, a.get(n - 1, 17) - one);
        put("rc_min", 0, a.get(0, 0) - fe(p.range_check_min.unwrap_or(0) as u64));
        put("rc_max", n - 1, a.get(n - 1, 2) - fe(p.range_check_max.unwrap_or(0) as u64));
    }
    bad
}


/// What an execution trace must satisfy to describe a Cairo run, but nothing in
/// the constraint system enforces (known findings of C05).
pub fn unenforced_violations(p: &PublicInputs, m: &Trace, aux: Option<&Trace>, ch: &[FE]) -> Vec<String> {
    let n = m.n_rows();
    let mut bad = vec![];
    for i in 0..p.num_steps.saturating_sub(1).min(n) {
        if m.get(i, 33) != FE::one() {
            bad.push(format!("selector row {i}"));
        }
    }
    if m.get(0, 18) != p.fp_init {
        bad.push("fp_init row 0".into());
    }
    if let Some(seg) = p.memory_segments.get(&MemorySegment::RangeCheck) {
        for i in 0..n {
            for k in 0..8 {
                if fe_u64(&m.get(i, 34 + k)).is_none_or(|v| v >= 1 << 16) {
                    bad.push(format!("rc_builtin_range row {i}"));
                }
            }
        }
        for i in 0..n {
            for k in 0..4 {
                if let Some(a) = fe_u64(&m.get(i, [19, 20, 21, 22][k])) {
                    if seg.contains(&a) && ((a - seg.start) as usize) < p.num_steps.min(n) {
                        let r = (a - seg.start) as usize;
                        if m.get(r, 42) != m.get(i, 23 + k) && i < p.num_steps {
                            bad.push(format!("rc_builtin_link row {i}"));
                        }
                    }
                }
            }
        }
    }
    if let Some(a) = aux {
        let (al, z) = (ch[0], ch[1]);
        let (sa, sv, oa, ov) = (a.get(0, 3), a.get(0, 7), m.get(0, 19), m.get(0, 23));
        if (z - (sa + al * sv)) * a.get(0, 11) != z - (oa + al * ov) {
            bad.push("mem_perm_start row 0".into());
        }
    }
    bad
}

/// The auxiliary columns a prover computes for a main trace and memory, written
/// apart from the repository. None if the public memory does not fit in.
pub fn own_aux(p: &PublicInputs, m: &Trace, ch: &[FE]) -> Option<Trace> {
    let n = m.n_rows();
    let (al, z, zr) = (ch[0], ch[1], ch[2]);
    let mut orig = vec![];
    let mut offs = vec![];
    for i in 0..n {
        for k in 0..4 {
            orig.push((m.get(i, 19 + k), m.get(i, 23 + k)));
        }
        for k in 0..3 {
            offs.push(m.get(i, 27 + k));
        }
    }
    let key = |x: &FE| x.to_bytes_be();
    let mut pubm: Vec<(FE, FE)> = p.public_memory.iter().map(|(a, v)| (*a, *v)).collect();
    pubm.sort_by_key(|x| key(&x.0));
    let mut sorted = orig.clone();
    let mut it = pubm.into_iter();
    for s in sorted.iter_mut() {
        if s.0 == FE::zero() && s.1 == FE::zero() {
            match it.next() {
                Some(x) => *s = x,
                None => break,
            }
        }
    }
    if it.next().is_some() {
        return None;
    }
    sorted.sort_by_cached_key(|x| (key(&x.0), key(&x.1)));
    let mut so = offs.clone();
    so.sort_by_cached_key(key);
    let mem = products(&orig.iter().map(|(a, v)| z - (*a + al * *v)).collect::<Vec<_>>(), &sorted.iter().map(|(a, v)| z - (*a + al * *v)).collect::<Vec<_>>());
    let rc = products(&offs.iter().map(|x| zr - *x).collect::<Vec<_>>(), &so.iter().map(|x| zr - *x).collect::<Vec<_>>());
    let mut t = vec![];
    for i in 0..n {
        t.extend(&so[3 * i..3 * i + 3]);
        t.extend(sorted[4 * i..4 * i + 4].iter().map(|x| x.0));
        t.extend(sorted[4 * i..4 * i + 4].iter().map(|x| x.1));
        t.extend(&mem[4 * i..4 * i + 4]);
        t.extend(&rc[3 * i..3 * i + 3]);
    }
    Some(Trace::new(t, 18))
}
/// running products of a[i] / b[i]
fn products(a: &[FE], b: &[FE]) -> Vec<FE> {
    // prefix products, then one inversion
    let mut acc = FE::one();
    let mut pre = vec![];
    for x in b {
        pre.push(acc);
        acc = acc * *x;
    }
    let mut inv = acc.inv();
    let mut binv = vec![FE::zero(); b.len()];
    for i in (0..b.len()).rev() {
        binv[i] = inv * pre[i];
        inv = inv * b[i];
    }
    let mut p = FE::one();
    a.iter()
        .zip(&binv)
        .map(|(x, y)| {
            p = p * *x * *y;
            p
        })
        .collect()
}
