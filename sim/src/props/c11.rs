//! The command line does what it reports, whatever fails around it.
use crate::cairo::{self, CairoSpec};
use crate::core::*;
use crate::mutate::{apply_bytes, apply_struct, is_byte, random_mut, Mut};
use crate::props::c12::{damage, random_damage, ver, Damage, Scratch};
use crate::props::{parse, val};
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::wire;
use crate::zoo::Pi;
use cairo_vm::sim::{set_plan, Fault, Plan};
use lambdaworks_stark::cairo::air::generate_cairo_proof;
use lambdaworks_stark::cairo::runner::run::generate_prover_args;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct C11;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// the programs, and how they are damaged
    programs: Vec<(CairoSpec, Vec<Damage>)>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Prove { prog: Src, out: Dst, io: Io },
    Verify { file: u8, io: Io },
    Both { prog: Src, io: Io },
    /// a proof file is altered while nobody looks
    Rot { file: u8, how: Rot },
    /// a wrong call
    Call(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Prog(u8),
    /// not there, a directory, a proof file, below a file
    Bad(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dst {
    File(u8),
    /// a link to that file
    Link(u8),
    /// a directory, in a directory that is not there, a full device
    Bad(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rot {
    Proof(Vec<Mut>),
    Cut(u16),
    Longer(u8),
    /// the length it starts with
    Len(u8),
    /// the rest of it comes from that other file
    Splice(u8, u16),
    /// proof of the one, inputs of the other
    Cross(u8),
    Gone,
    Dir,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Io {
    /// at which operation; from 1000: at which of those that write to files
    faults: Vec<(u16, Kind)>,
    /// part (2^-16) of a proof file's size that fits on the disk
    full: Option<u16>,
    /// the machine: step, kind
    vm: Option<(u16, u8)>,
    /// at this operation another process verifies what is there
    watch: Option<(u16, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Err(u8),
    Short(u16),
    KillBefore,
    KillAmid(u16),
    KillAfter,
}
const ERRNO: [i32; 8] = [4, 5, 28, 122, 13, 24, 4, 4];

#[derive(Debug)]
struct Done {
    /// None: killed
    code: Option<i32>,
    signal: Option<i32>,
    /// call, on a file, fault
    log: Vec<(String, bool, char)>,
    stdout: String,
    stderr: String,
    hang: bool,
}

extern "C" {
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(a: i32, b: usize) -> i32;
}

fn tool(env: &str, name: &str) -> PathBuf {
    std::env::var(env).map(PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap().with_file_name(name))
}

struct Bench {
    root: PathBuf,
    dir: PathBuf,
    n: u32,
    ops_seen: u64,
}
impl Bench {
    fn path(&self, name: &str) -> String {
        self.dir.join(name).to_str().unwrap().into()
    }
    /// One call of the command line. `full`: bytes until the disk is full.
    fn call(&mut self, args: &[String], io: &Io, full: Option<u64>, guard: &Plan, mut watch: impl FnMut(&mut Bench)) -> Result<Done, String> {
        self.n += 1;
        let mut plan: Vec<String> = io
            .faults
            .iter()
            .map(|(n, k)| match k {
                Kind::Err(e) => format!("{n}:e:{}", ERRNO[*e as usize % ERRNO.len()]),
                Kind::Short(p) => format!("{n}:s:{p}"),
                Kind::KillBefore => format!("{n}:k:0"),
                Kind::KillAmid(p) => format!("{n}:K:{p}"),
                Kind::KillAfter => format!("{n}:a:0"),
            })
            .collect();
        if let Some((n, _)) = io.watch {
            plan.insert(0, format!("{n}:p:0"));
        }
        if let Some(b) = full {
            plan.push(format!("B:{b}"));
        }
        let so = self.root.join(format!("out{}", self.n));
        let se = self.root.join(format!("err{}", self.n));
        let log = self.root.join(format!("log{}", self.n));
        let file = |p: &Path| std::fs::File::create(p).map(Stdio::from).map_err(|e| format!("no helper: {e}"));
        let bin = tool("SIM_CLI", "lwcli");
        let lib = tool("SIM_FIO", "libfaultio.so");
        if !lib.exists() {
            return Err(format!("no helper {}", lib.display()));
        }
        let num = |x: Option<usize>| x.map_or("-".into(), |v| v.to_string());
        let (at, kind) = match guard.fault {
            Some((at, Fault::StepError)) => (Some(at), Some(0)),
            Some((at, Fault::TraceLost)) => (Some(at), Some(1)),
            _ => (None, None),
        };
        let mut c = Command::new(&bin);
        c.args(args)
            .current_dir(&self.root)
            .env_clear()
            .env("LD_PRELOAD", &lib)
            .env("FIO_DIR", &self.dir)
            .env("FIO_ROOT", &self.root)
            .env("TMPDIR", &self.root)
            .env("FIO_PLAN", plan.join(";"))
            .env("FIO_LOG", &log)
            .env("SIM_VM", format!("{},{},{},{}", num(guard.step_limit), num(guard.memory_limit), num(at), num(kind)))
            .stdin(Stdio::null())
            .stdout(file(&so)?)
            .stderr(file(&se)?);
        unsafe {
            c.pre_exec(|| {
                prctl(1, 9);
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("no helper {}: {e}", bin.display()))?;
        let pid = child.id() as i32;
        let start = Instant::now();
        let mut pause = Duration::from_micros(200);
        let mut hang = false;
        let status = loop {
            let mut st = 0;
            // WNOHANG | WUNTRACED
            let r = unsafe { waitpid(pid, &mut st, 1 | 2) };
            if r == pid && st & 0xff == 0x7f {
                watch(self);
                unsafe { kill(pid, 18) };
                continue;
            }
            if r == pid {
                break std::process::ExitStatus::from_raw(st);
            }
            if r < 0 {
                return Err("no helper: waitpid".into());
            }
            if start.elapsed() > Duration::from_secs(60) && !hang {
                hang = true;
                unsafe { kill(pid, 9) };
            }
            std::thread::sleep(pause);
            pause = (pause * 5 / 4).min(Duration::from_millis(4));
        };
        let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
        let log: Vec<(String, bool, char)> = text(&log)
            .lines()
            .filter_map(|l| {
                let w: Vec<&str> = l.split(' ').collect();
                Some((w.get(1)?.to_string(), *w.get(2)? == "f", w.get(3)?.chars().next()?))
            })
            .collect();
        self.ops_seen += log.len() as u64;
        Ok(Done { code: status.code(), signal: status.signal(), log, stdout: text(&so), stderr: text(&se), hang })
    }
    /// all that lies in the directory
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(&self.dir).into_iter().flatten().flatten() {
            if e.file_type().is_ok_and(|t| t.is_file()) {
                m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
            }
        }
        m
    }
}

/// What the library makes of a program: the bytes of the proof file.
fn expected(bytes: &[u8], v1: bool, guard: &Plan) -> Option<Vec<u8>> {
    set_plan(*guard);
    let r = catch(|| {
        let (t, p) = generate_prover_args(bytes, &ver(v1), &None).ok()?;
        let proof = generate_cairo_proof(&t, &p, &ProofOptions::default_test_options()).ok()?;
        Some(wire::encode(&Pi::Cairo(p), &proof))
    });
    set_plan(Plan::default());
    r.ok().flatten()
}
/// Whether the library accepts a proof file.
fn good(b: &[u8]) -> bool {
    let any = Pi::Cairo(cairo::empty_pi());
    matches!(wire::receive(&any, b, &Opts::test()).0, Verdict::Accept)
}

/// 'i': interrupted, to be tried again
fn benign(c: char) -> bool {
    matches!(c, '-' | 's' | 'p' | 'i')
}

fn random_io(r: &mut Rng, long: bool) -> Io {
    let mut io = Io::default();
    if r.chance(1, 3) {
        return io;
    }
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = if long && r.chance(1, 2) { 1000 + r.below(3) } else { r.below(if long { 18 } else { 10 }) } as u16;
        io.faults.push((
            n,
            match r.below(10) {
                0..=2 => Kind::Err(r.next() as u8),
                3..=5 => Kind::Short(*r.pick(&[0, 1, 1000, 32768, 65535])),
                6 => Kind::KillBefore,
                7 | 8 => Kind::KillAmid(*r.pick(&[1, 100, 20000, 32768, 60000, 65535])),
                _ => Kind::KillAfter,
            },
        ));
    }
    match r.below(8) {
        0 => {
            io.faults.clear();
            io.full = Some(*r.pick(&[0, 1, 7, 30000, 65000, 65535]));
        }
        1 => {
            // every operation stops short or is interrupted
            io.faults = (0..60u16).map(|n| (n, if r.chance(1, 2) { Kind::Short(r.next() as u16) } else { Kind::Err(0) })).collect();
        }
        2 if long => {
            io.faults.clear();
            io.watch = Some((if r.chance(2, 3) { 1000 + r.below(3) } else { r.range(4, 14) } as u16, r.next() as u8));
        }
        3 if long => {
            io.faults.clear();
            io.vm = Some((r.next() as u16, r.below(3) as u8));
        }
        _ => {}
    }
    io
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn meta(&self) -> Meta {
        Meta {
            rule: "a run is a sequence of command line calls on a scratch directory: proving, verifying and both, with wrong calls, damaged programs, failing machines, faults of single system calls \
                   (errors, short reads and writes, full disk, death before, amid and after), proof files that rot or are watched while they are written; each outcome is compared with the library's \
                   and each file with the only bytes it may hold; non-trivial if a fault took effect",
            level: "exploration",
            real: &["the command line (src/main.rs) as a process, and all of the repository behind it", "the kernel's file system below the fault seam"],
            stub: &["system call results (preloaded fault seam)", "cairo-vm (stand-in machine)", "lambdaworks-math / lambdaworks-crypto"],
            assumptions: &["what the kernel accepted is not lost (no power failure after the last write)"],
            state_measure: "hash of call, operations and faults seen, and outcome",
            time_unit: "system calls at the seam",
        }
    }
    fn runs(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1500 } else { 60000 }
    }
    fn hang_s(&self) -> u64 {
        180
    }
    fn probes(&self) -> &'static [&'static str] {
        &[
            "proved", "proved_v1", "proved_over_longer", "proved_over_shorter", "verified", "both", "refused_file", "refused_program", "machine_failed", "wrong_call", "bad_source", "bad_target", "by_link",
            "input_error", "output_error", "stdout_error", "short_only", "interrupted_only", "disk_full", "killed_before_write", "killed_amid_write", "killed_after_write", "torn_refused", "old_kept",
            "watched_while_writing", "verify_faulty", "crossed", "no_file", "proved_after_crash",
        ]
    }
    fn gen(&self, seed: u64, _t: Tier, _idx: u64) -> Value {
        let mut r = Rng::new(seed);
        let programs: Vec<(CairoSpec, Vec<Damage>)> = (0..r.range(1, 3))
            .map(|_| {
                let mut s = cairo::random_spec(&mut r);
                s.pub_out = false;
                s.blocks.truncate(*r.pick(&[1, 2, 4, 30]));
                if r.chance(1, 12) {
                    s = CairoSpec { blocks: vec![], rc: false, out: false, pub_out: false, v1: true, end_jump: false };
                }
                let d = if r.chance(1, 6) { vec![random_damage(&mut r)] } else { vec![] };
                (s, d)
            })
            .collect();
        let np = programs.len() as u64;
        let mut ops = vec![Op::Prove { prog: Src::Prog(0), out: Dst::File(0), io: Io::default() }];
        for _ in 0..r.range(2, 7) {
            let src = |r: &mut Rng| if r.chance(1, 10) { Src::Bad(r.below(4) as u8) } else { Src::Prog(r.below(np) as u8) };
            ops.push(match r.below(12) {
                0..=4 => Op::Prove {
                    prog: src(&mut r),
                    out: match r.below(10) {
                        0 => Dst::Bad(r.below(3) as u8),
                        1 => Dst::Link(r.below(2) as u8),
                        _ => Dst::File(r.below(2) as u8),
                    },
                    io: random_io(&mut r, true),
                },
                5..=6 => Op::Verify { file: r.below(2) as u8, io: random_io(&mut r, false) },
                7 => Op::Both { prog: src(&mut r), io: random_io(&mut r, true) },
                8..=10 => Op::Rot {
                    file: r.below(2) as u8,
                    how: match r.below(10) {
                        0..=2 => Rot::Proof((0..r.range(1, 2)).map(|_| random_mut(&mut r)).collect()),
                        3 => Rot::Cut(r.next() as u16),
                        4 => Rot::Longer(r.next() as u8),
                        5 => Rot::Len(r.next() as u8),
                        6 => Rot::Splice(r.below(2) as u8, r.next() as u16),
                        7 => Rot::Cross(r.below(2) as u8),
                        8 => Rot::Gone,
                        _ => Rot::Dir,
                    },
                },
                _ => Op::Call(r.next() as u8),
            });
        }
        val(&Case { programs, ops })
    }
    fn exec(&self, v: &Value) -> RunOut {
        let c: Case = parse(v);
        let mut out = RunOut::default();
        if c.programs.is_empty() {
            return out;
        }
        let s = Scratch::new();
        let _ = std::fs::remove_dir_all(&s.0);
        let mut w = Bench { root: s.0.clone(), dir: s.0.join("disk"), n: 0, ops_seen: 0 };
        if let Err(e) = std::fs::create_dir_all(&w.dir) {
            out.harness_error = Some(format!("scratch: {e}"));
            return out;
        }
        let mut progs = vec![];
        for (i, (spec, d)) in c.programs.iter().enumerate() {
            let bytes = damage(&cairo::program(spec), spec.v1, d);
            let name = if spec.v1 { format!("p{i}.casm") } else { format!("p{i}.json") };
            let _ = std::fs::write(w.dir.join(&name), &bytes);
            progs.push((name, bytes, spec.v1));
        }
        let mut known: HashMap<(usize, usize), Option<Vec<u8>>> = HashMap::new();
        let mut crashed = false;
        for op in &c.ops {
            if let Err(e) = self.step(op, &mut w, &progs, &mut known, &mut crashed, &mut out) {
                out.harness_error = Some(e);
                return out;
            }
        }
        out.sim_time = w.ops_seen;
        out.sample = format!("{:?}", c.ops);
        out.sample.truncate(300);
        out
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["ops", "faults", "programs", "blocks"])
    }
}

const GUARD: Plan = Plan { step_limit: Some(3000), fault: None, memory_limit: Some(9000) };

impl C11 {
    fn step(
        &self,
        op: &Op,
        w: &mut Bench,
        progs: &[(String, Vec<u8>, bool)],
        known: &mut HashMap<(usize, usize), Option<Vec<u8>>>,
        crashed: &mut bool,
        out: &mut RunOut,
    ) -> Result<(), String> {
        let file = |k: u8| format!("proof{}", k % 2);
        let before = w.files();
        match op {
            Op::Rot { file: f, how } => {
                let name = file(*f);
                let path = w.dir.join(&name);
                let mut b = before.get(&name).cloned().unwrap_or_default();
                let other = |k: u8| before.get(&file(k)).cloned().unwrap_or_default();
                let n = b.len();
                match how {
                    Rot::Proof(muts) => {
                        let (st, by): (Vec<&Mut>, Vec<&Mut>) = muts.iter().partition(|m| !is_byte(m));
                        if !st.is_empty() {
                            if let Ok((mut p, pi)) = wire::decode(&Pi::Cairo(cairo::empty_pi()), &b) {
                                st.iter().for_each(|m| {
                                    apply_struct(&mut p, m);
                                });
                                b = wire::encode(&pi, &p);
                            }
                        }
                        by.iter().for_each(|m| {
                            apply_bytes(&mut b, m);
                        });
                    }
                    Rot::Cut(at) => b.truncate(n * *at as usize >> 16),
                    Rot::Longer(k) => b.extend(std::iter::repeat(*k).take(1 + *k as usize)),
                    Rot::Len(k) => {
                        if n >= 8 {
                            let l = u64::from_be_bytes(b[..8].try_into().unwrap());
                            let x = match k % 8 {
                                0 => 0,
                                1 => u64::MAX,
                                2 => l.wrapping_sub(1),
                                3 => l.wrapping_add(1),
                                4 => l.swap_bytes(),
                                5 => n as u64 - 8,
                                6 => n as u64 - 7,
                                _ => 1 << 63,
                            };
                            b[..8].copy_from_slice(&x.to_be_bytes());
                        }
                    }
                    Rot::Splice(k, at) => {
                        let o = other(*k ^ 1 ^ f);
                        let at = n * *at as usize >> 16;
                        b.truncate(at);
                        b.extend(o.get(at..).unwrap_or(&[]));
                    }
                    Rot::Cross(k) => {
                        let o = other(*k ^ 1 ^ f);
                        let cut = |x: &[u8]| x.get(..8).map(|l| u64::from_be_bytes(l.try_into().unwrap()) as usize + 8).filter(|l| *l <= x.len());
                        if let (Some(a), Some(z)) = (cut(&b), cut(&o)) {
                            b.truncate(a);
                            b.extend(&o[z..]);
                            out.stat("crossed");
                        }
                    }
                    Rot::Gone | Rot::Dir => {
                        let _ = std::fs::remove_file(&path);
                        let _ = std::fs::remove_dir(&path);
                        if matches!(how, Rot::Dir) {
                            let _ = std::fs::create_dir(&path);
                        }
                        return Ok(());
                    }
                }
                let _ = std::fs::remove_dir(&path);
                let _ = std::fs::write(&path, b);
            }
            Op::Call(k) => {
                let p = w.path(&progs[0].0);
                let o = w.path("proof0");
                let calls: [&[&str]; 12] = [
                    &[],
                    &["prove"],
                    &["prove", &p],
                    &["verify"],
                    &["prove_and_verify"],
                    &["Prove", &p, &o],
                    &["proof", &p, &o],
                    &["", &p, &o],
                    &["--help"],
                    &["verify_and_prove", &p],
                    &["VERIFY", &o],
                    &["prove ", &p, &o],
                ];
                let a: Vec<String> = calls[*k as usize % calls.len()].iter().map(|s| s.to_string()).collect();
                let d = w.call(&a, &Io::default(), None, &GUARD, |_| {})?;
                self.ended(&d, &a, out);
                if d.code == Some(0) {
                    out.bad("failure-hidden", format!("success reported for the call {a:?}: {}", d.stdout));
                }
                self.unchanged(w, &before, None, &a, out);
                out.stat("wrong_call");
            }
            Op::Verify { file: f, io } => {
                let name = file(*f);
                let io = Io { vm: None, watch: None, ..io.clone() };
                let a = vec!["verify".to_string(), w.path(&name)];
                let d = w.call(&a, &io, None, &GUARD, |_| {})?;
                let fired = self.ended(&d, &a, out);
                let want = before.get(&name).is_some_and(|b| good(b));
                match d.code {
                    Some(0) if !want => out.bad("bad-accepted", format!("success reported for a file the library does not accept; {io:?}, {} bytes", before.get(&name).map_or(0, |b| b.len()))),
                    Some(0) => out.stat("verified"),
                    Some(_) if want && !fired => out.bad("good-refused", format!("failure reported for a good proof file; {io:?}, {} {}", d.stdout, d.stderr)),
                    Some(_) if !want => out.stat(if before.contains_key(&name) { "refused_file" } else { "no_file" }),
                    _ => {}
                }
                if fired {
                    out.stat("verify_faulty");
                }
                self.says(&d, &a, out);
                self.unchanged(w, &before, None, &a, out);
            }
            Op::Prove { prog, io, .. } | Op::Both { prog, io } => {
                let both = matches!(op, Op::Both { .. });
                let (src, content, v1, pi) = match prog {
                    Src::Prog(k) => {
                        let i = *k as usize % progs.len();
                        let p = &progs[i];
                        (w.path(&p.0), Some(&p.1), p.2, i)
                    }
                    Src::Bad(k) => {
                        out.stat("bad_source");
                        let n = ["missing.json".to_string(), ".".into(), file(0), format!("{}/x", progs[0].0)][*k as usize % 4].clone();
                        (w.path(&n), None, false, usize::MAX)
                    }
                };
                let io = Io { watch: io.watch.filter(|_| !both), ..io.clone() };
                let mut guard = GUARD;
                let mut vmkey = 0;
                if let (Some((at, kind)), Some(_)) = (io.vm, content) {
                    let at = at as usize * 120 >> 16;
                    match kind % 3 {
                        0 => guard.fault = Some((at, Fault::StepError)),
                        1 => guard.fault = Some((0, Fault::TraceLost)),
                        _ => guard.step_limit = Some(at),
                    }
                    vmkey = 1 + at * 3 + kind as usize % 3;
                }
                let want = content.and_then(|b| known.entry((pi, vmkey)).or_insert_with(|| expected(b, v1, &guard)).clone());
                let target = match op {
                    Op::Prove { out: Dst::File(k), .. } | Op::Prove { out: Dst::Link(k), .. } => Some(file(*k)),
                    _ => None,
                };
                // something else is in the way
                let blocked = target.as_ref().is_some_and(|t| w.dir.join(t).is_dir());
                let to = match op {
                    Op::Prove { out: Dst::File(k), .. } => w.path(&file(*k)),
                    Op::Prove { out: Dst::Link(k), .. } => {
                        out.stat("by_link");
                        let l = w.dir.join("link");
                        let _ = std::fs::remove_file(&l);
                        let _ = std::os::unix::fs::symlink(file(*k), &l);
                        w.path("link")
                    }
                    Op::Prove { out: Dst::Bad(k), .. } => {
                        out.stat("bad_target");
                        match k % 3 {
                            0 => w.path("."),
                            1 => w.path("missing/proof"),
                            // a device without room: a file of the scratch directory whose every write fails
                            _ => w.path("device"),
                        }
                    }
                    _ => String::new(),
                };
                let possible = want.is_some() && !blocked && (both || target.is_some());
                let a: Vec<String> = if both { vec!["prove_and_verify".into(), src] } else { vec!["prove".into(), src, to.clone()] };
                let size = want.as_ref().map_or(4096, |b| b.len()) as u64;
                let device = matches!(op, Op::Prove { out: Dst::Bad(k), .. } if k % 3 == 2);
                let full = io.full.map(|f| if f == 65535 { size } else if f < 8 { f as u64 } else { size * f as u64 >> 16 });
                let full = if device { Some(0) } else { full };
                let mut seen: Option<(Vec<u8>, Done)> = None;
                let mut err = None;
                let t2 = target.clone();
                let d = w.call(&a, &io, full, &guard, |w| {
                    if let Some(t) = &t2 {
                        let now = std::fs::read(w.dir.join(t)).unwrap_or_default();
                        let v = vec!["verify".to_string(), w.path(t)];
                        match w.call(&v, &Io::default(), None, &GUARD, |_| {}) {
                            Ok(d) => seen = Some((now, d)),
                            Err(e) => err = Some(e),
                        }
                    }
                })?;
                if device {
                    let _ = std::fs::remove_file(w.dir.join("device"));
                }
                if let Some(e) = err {
                    return Err(e);
                }
                let fired = self.ended(&d, &a, out);
                let old = target.as_ref().and_then(|t| before.get(t).cloned());
                let now = target.as_ref().and_then(|_| std::fs::read(&to).ok());
                let ctx = || format!("{a:?} {io:?}: {} {}", d.stdout.replace('\n', " | "), d.stderr);
                if let Some((f, v)) = &seen {
                    // whoever looks meanwhile sees the old file, the new one, or nothing acceptable
                    if (v.code == Some(0)) != good(f) {
                        out.bad("bad-accepted", format!("while {}: verification of {} bytes ended with {:?}", ctx(), f.len(), v.code));
                    }
                    if f != old.as_deref().unwrap_or(&[]) && !want.as_ref().is_some_and(|x| x.starts_with(f)) {
                        out.bad("file-torn", format!("while {}: the file was neither the old nor part of the new", ctx()));
                    }
                    out.stat("watched_while_writing");
                }
                match d.code {
                    // a link to a directory may be replaced by the file
                    Some(0) if !possible && !(blocked && want.is_some() && now == want) => out.bad("failure-hidden", format!("success reported for what cannot succeed: {}", ctx())),
                    Some(0) => {
                        if !both && now != want {
                            out.bad("file-wrong", format!("success reported, but the file is not the proof ({:?} of {size} bytes): {}", now.as_ref().map(|b| b.len()), ctx()));
                        }
                        out.stat(if both {
                            "both"
                        } else if v1 {
                            "proved_v1"
                        } else {
                            "proved"
                        });
                        if *crashed {
                            out.stat("proved_after_crash");
                        }
                        if let (Some(o), Some(n)) = (&old, &now) {
                            if !both && o.len() > n.len() {
                                out.stat("proved_over_longer");
                            }
                            if !both && o.len() < n.len() {
                                out.stat("proved_over_shorter");
                            }
                        }
                        if !io.faults.is_empty() && d.log.iter().any(|l| l.2 != '-') {
                            out.stat(if d.log.iter().any(|l| l.2 == 'i') { "interrupted_only" } else { "short_only" });
                        }
                    }
                    Some(_) if possible && !fired => out.bad("good-refused", format!("failure reported although nothing failed: {}", ctx())),
                    _ => {}
                }
                let killed = d.code.is_none();
                if d.code != Some(0) {
                    // the old file, or what the disk took of the new
                    let fine = match (&old, &now) {
                        (o, n) if o == n => true,
                        (_, Some(n)) => want.as_ref().is_some_and(|x| x.starts_with(n)),
                        _ => target.is_none(),
                    };
                    if !fine {
                        out.bad("file-torn", format!("the file is neither the old nor part of the new: {}", ctx()));
                    }
                    if want.is_none() && now != old {
                        out.bad("file-lost", format!("there is no proof to write, but the file changed: {}", ctx()));
                    }
                    if old.is_some() && now == old {
                        out.stat("old_kept");
                    }
                    let opened = d.log.iter().position(|l| l.0 == "create");
                    let wrote = opened.is_some_and(|p| d.log[p..].iter().any(|l| l.1 && l.0.contains("write")));
                    if killed {
                        *crashed = true;
                        let amid = d.log.last().is_some_and(|l| l.1 && l.0.contains("write") && l.2 == 'K');
                        out.stat(if amid {
                            "killed_amid_write"
                        } else if wrote {
                            "killed_after_write"
                        } else {
                            "killed_before_write"
                        });
                    }
                    if want.is_none() && content.is_some() {
                        out.stat(if io.vm.is_some() { "machine_failed" } else { "refused_program" });
                    }
                    for l in &d.log {
                        match l {
                            (n, true, 'e') => out.stat(if n == "read" || n == "open" { "input_error" } else { "output_error" }),
                            (_, false, 'e') => out.stat("stdout_error"),
                            (_, true, 'B') => out.stat("disk_full"),
                            _ => {}
                        }
                    }
                    // what is left of it is not taken for a proof
                    if now.is_some() && now != old && now != want {
                        let v = vec!["verify".to_string(), to.clone()];
                        let x = w.call(&v, &Io::default(), None, &GUARD, |_| {})?;
                        if x.code == Some(0) {
                            out.bad("bad-accepted", format!("part of a proof file was verified: {}", ctx()));
                        }
                        out.stat("torn_refused");
                    }
                }
                if both {
                    self.says(&d, &a, out);
                }
                self.unchanged(w, &before, target.as_deref(), &a, out);
            }
        }
        out.ev(hash_bytes(&val(&w.files().iter().map(|(k, v)| (k.clone(), hash_bytes(v))).collect::<Vec<_>>()).to_string().into_bytes()));
        Ok(())
    }
    /// Judges how a call ended; whether a fault that cannot be overcome was met.
    fn ended(&self, d: &Done, a: &[String], out: &mut RunOut) -> bool {
        let hard = |l: &(String, bool, char)| !benign(l.2);
        let fired = d.log.iter().any(hard);
        let h = hash_bytes(format!("{:?} {:?} {:?} {:?}", a.first(), d.log, d.code, d.signal).as_bytes());
        out.state(h);
        out.ev(mix(h));
        out.nontrivial |= d.log.iter().any(|l| l.2 != '-');
        for l in &d.log {
            if l.2 != '-' {
                out.stat(&format!("fault:{}:{}:{}", l.0, if l.1 { "file" } else { "stdout" }, l.2));
            }
        }
        let stdout_failed = d.log.iter().any(|l| !l.1 && hard(l));
        if d.hang {
            out.bad("hang", format!("{a:?} did not end"));
        } else if d.signal.is_some() && !d.log.last().is_some_and(|l| matches!(l.2, 'k' | 'K' | 'a')) {
            out.bad("crash", format!("{a:?} died of signal {:?}: {}", d.signal, d.stderr));
        } else if d.code == Some(101) && !stdout_failed {
            out.bad("panic", format!("{a:?} panicked: {}", d.stderr));
        }
        fired
    }
    fn says(&self, d: &Done, a: &[String], out: &mut RunOut) {
        let (yes, no) = (d.stdout.contains("Verification succeeded"), d.stdout.contains("Verification failed"));
        if d.code == Some(0) && no || d.code.is_some_and(|c| c != 0 && c != 101) && yes {
            out.bad("says-otherwise", format!("{a:?} ended with {:?} and says: {}", d.code, d.stdout));
        }
    }
    /// Nothing but the target has changed.
    fn unchanged(&self, w: &Bench, before: &BTreeMap<String, Vec<u8>>, target: Option<&str>, a: &[String], out: &mut RunOut) {
        let now = w.files();
        // what an earlier call left of a temporary file is its own business
        let named = |k: &str| k.ends_with(".json") || k.ends_with(".casm") || k.strip_prefix("proof").is_some_and(|n| n.parse::<u32>().is_ok());
        for (k, v) in before.iter().filter(|x| named(x.0)) {
            if Some(k.as_str()) != target && now.get(k) != Some(v) {
                out.bad("other-file-changed", format!("{a:?} changed {k}"));
            }
        }
    }
}
