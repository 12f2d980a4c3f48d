//! Runs many simulated executions of one property, spread over worker
//! processes; watches them, minimises and reports violations, writes evidence.
use crate::core::*;
use crate::props;
use crate::rng::{hash_bytes, mix};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn s(&self) -> &'static str {
        if *self == Tier::Quick { "quick" } else { "thorough" }
    }
}

pub struct Meta {
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub state_measure: &'static str,
    /// unit of the simulated clock
    pub time_unit: &'static str,
}

/// A property: generator of self-contained cases, and their execution.
pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn meta(&self) -> Meta;
    fn runs(&self, t: Tier) -> u64;
    /// Pure function of its arguments.
    fn gen(&self, seed: u64, t: Tier, idx: u64) -> Value;
    /// Pure function of the case and the code under test.
    fn exec(&self, case: &Value) -> RunOut;
    /// Smaller cases to try when minimising, most aggressive first.
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_arrays(case, &["faults", "ops", "muts", "blocks"])
    }
    /// stats every healthy check must have seen at least once (reach probes)
    fn probes(&self) -> &'static [&'static str] {
        &[]
    }
    /// longest one run may take before it counts as a hang
    fn hang_s(&self) -> u64 {
        100
    }
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())) ^ idx.wrapping_mul(0x9E3779B97F4A7C15))
}

/// All ways of dropping a chunk from any array stored under one of `keys`.
pub fn shrink_arrays(v: &Value, keys: &[&str]) -> Vec<Value> {
    fn paths(v: &Value, at: String, keys: &[&str], out: &mut Vec<(String, usize)>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    let p = format!("{at}/{k}");
                    if let (true, Value::Array(a)) = (keys.contains(&k.as_str()), x) {
                        out.push((p.clone(), a.len()));
                    }
                    paths(x, p, keys, out);
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    paths(x, format!("{at}/{i}"), keys, out);
                }
            }
            _ => {}
        }
    }
    let mut ps = vec![];
    paths(v, String::new(), keys, &mut ps);
    let mut out = vec![];
    let mut sizes: BTreeSet<usize> = BTreeSet::new();
    for (_, n) in &ps {
        let mut s = *n;
        while s > 0 {
            sizes.insert(s);
            s /= 2;
        }
    }
    for s in sizes.into_iter().rev() {
        for (p, n) in &ps {
            let mut a = 0;
            while a + s <= *n {
                let mut c = v.clone();
                if let Some(Value::Array(x)) = c.pointer_mut(p) {
                    x.drain(a..a + s);
                }
                out.push(c);
                a += s;
            }
        }
    }
    out
}

pub fn exec_guarded(p: &dyn Prop, case: &Value) -> RunOut {
    lambdaworks_crypto::sim::set_hook(None);
    rayon::sim::set_schedule(None);
    match catch(|| p.exec(case)) {
        Ok(o) => o,
        Err(m) => {
            let mut o = RunOut::default();
            let loc = m.rsplit(" @ ").next().unwrap_or("").to_string();
            if loc.starts_with("src/") {
                o.harness_error = Some(m);
            } else {
                let file = loc.split(':').next().unwrap_or("");
                let file = file.rsplit('/').next().unwrap_or(file);
                o.bad(&format!("unexpected-panic:{file}"), m);
            }
            o
        }
    }
}

fn out_json(i: u64, o: &RunOut, ms: u64, rep: Option<bool>) -> Value {
    json!({
        "i": i, "stats": o.stats, "states": o.states.iter().map(|s| format!("{s:016x}")).collect::<Vec<_>>(),
        "sim": o.sim_time, "digest": format!("{:016x}", o.digest), "nt": o.nontrivial,
        "sample": o.sample, "viol": o.violations, "herr": o.harness_error, "ms": ms, "rep": rep,
    })
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // no core files
    }
}

pub fn worker(args: &[String]) -> i32 {
    // <id> <seed> <tier> <start> <step> <end> <seconds>
    limit_memory(6 << 30);
    let p = props::by_id(&args[0]).expect("property");
    let n = |k: usize| args[k].parse::<u64>().unwrap();
    let (seed, start, step, end, secs) = (n(1), n(3), n(4), n(5), n(6));
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let t0 = Instant::now();
    let so = std::io::stdout();
    let mut i = start;
    while i < end {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        writeln!(so.lock(), "START {i}").unwrap();
        so.lock().flush().unwrap();
        let t = Instant::now();
        let case = p.gen(run_seed(seed, p.id(), i), tier, i);
        let o = exec_guarded(p, &case);
        let ms = t.elapsed().as_millis() as u64;
        // a sample of runs is executed twice: same case, same digest
        let rep = if mix(i ^ 0x5eed) % 16 == 0 && o.violations.is_empty() {
            let again = p.gen(run_seed(seed, p.id(), i), tier, i);
            let o2 = exec_guarded(p, &again);
            Some(again == case && o2.digest == o.digest && o2.stats == o.stats)
        } else {
            None
        };
        writeln!(so.lock(), "{}", out_json(i, &o, ms, rep)).unwrap();
        so.lock().flush().unwrap();
        i += step;
    }
    0
}

/// Executes one case given on a file; prints its outcome as JSON.
pub fn case(args: &[String]) -> i32 {
    limit_memory(6 << 30);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).unwrap()).unwrap();
    let p = props::by_id(v["property"].as_str().unwrap()).expect("property");
    let t = Instant::now();
    let o = exec_guarded(p, &v["case"]);
    println!("{}", out_json(0, &o, t.elapsed().as_millis() as u64, None));
    0
}

/// how a process ends whose simulated threads all wait for each other
pub const DEADLOCK: i32 = 77;

enum CaseRes {
    Done(Value),
    Abort(String),
    Hang,
}
fn case_in_fresh_process(id: &str, case: &Value, limit: Duration) -> CaseRes {
    let dir = scratch();
    let f = dir.join("case.json");
    std::fs::write(&f, json!({"property": id, "case": case}).to_string()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("case")
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut so = c.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let s = th.join().unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    match st {
        None => CaseRes::Hang,
        Some(st) => match s.lines().last().and_then(|l| serde_json::from_str(l).ok()) {
            Some(v) if st.success() => CaseRes::Done(v),
            _ => CaseRes::Abort(format!("{st}")),
        },
    }
}
fn classes(r: &CaseRes) -> Vec<Violation> {
    match r {
        CaseRes::Done(v) => serde_json::from_value(v["viol"].clone()).unwrap_or_default(),
        CaseRes::Abort(s) if *s == format!("exit status: {DEADLOCK}") => {
            vec![Violation { class: "deadlock".into(), detail: "every session that is left waits for another one".into() }]
        }
        CaseRes::Abort(s) => vec![Violation { class: "process-abort".into(), detail: format!("the process died: {s}") }],
        CaseRes::Hang => vec![Violation { class: "hang".into(), detail: "no answer".into() }],
    }
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn scratch() -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("starksim-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Finding {
    property: String,
    class: String,
    what: String,
}
fn known_findings() -> Vec<Finding> {
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (property, r) = l.split_once(" class=")?;
            let (class, what) = r.split_once(' ')?;
            Some(Finding { property: property.into(), class: class.into(), what: what.into() })
        })
        .collect()
}

#[derive(Default)]
struct Agg {
    runs: u64,
    stats: BTreeMap<String, u64>,
    states: HashSet<String>,
    digests: HashSet<String>,
    nt: HashSet<String>,
    sim: u64,
    busy_ms: u64,
    max_ms: u64,
    rep_ok: u64,
    rep_bad: Vec<u64>,
    samples: BTreeMap<u64, String>,
    /// class -> (index, detail), smallest index
    viol: BTreeMap<String, (u64, String)>,
    viol_n: u64,
    herr: Option<(u64, String)>,
}
impl Agg {
    fn add(&mut self, v: &Value) {
        let i = v["i"].as_u64().unwrap_or(0);
        self.runs += 1;
        for (k, n) in v["stats"].as_object().into_iter().flatten() {
            *self.stats.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for s in v["states"].as_array().into_iter().flatten() {
            self.states.insert(s.as_str().unwrap_or("").into());
        }
        let d = v["digest"].as_str().unwrap_or("").to_string();
        if v["nt"].as_bool() == Some(true) {
            self.nt.insert(d.clone());
        }
        self.digests.insert(d);
        self.sim += v["sim"].as_u64().unwrap_or(0);
        let ms = v["ms"].as_u64().unwrap_or(0);
        self.busy_ms += ms;
        self.max_ms = self.max_ms.max(ms);
        match v["rep"].as_bool() {
            Some(true) => self.rep_ok += 1,
            Some(false) => self.rep_bad.push(i),
            None => {}
        }
        if let Some(s) = v["sample"].as_str().filter(|s| !s.is_empty()) {
            self.samples.insert(i, s.into());
            while self.samples.len() > 6 {
                let k = *self.samples.keys().next_back().unwrap();
                self.samples.remove(&k);
            }
        }
        for x in v["viol"].as_array().into_iter().flatten() {
            self.bad(i, x["class"].as_str().unwrap_or(""), x["detail"].as_str().unwrap_or(""));
        }
        if let Some(h) = v["herr"].as_str() {
            self.herr.get_or_insert((i, h.into()));
        }
    }
    fn bad(&mut self, i: u64, class: &str, detail: &str) {
        self.viol_n += 1;
        let e = self.viol.entry(class.into()).or_insert((i, detail.into()));
        if i < e.0 {
            *e = (i, detail.into());
        }
    }
}

struct Slot {
    child: Option<Child>,
    current: Option<(u64, Instant)>,
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::by_id(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let total = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.runs(tier));
    let workers = std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
    let secs: u64 = if tier == Tier::Quick { 330 } else { 5400 };
    println!("seed {seed} property {id} tier {} runs {total} workers {workers}", tier.s());
    let agg = Arc::new(Mutex::new(Agg::default()));
    let suspects: Arc<Mutex<Vec<(u64, &'static str)>>> = Arc::default();
    let exe = std::env::current_exe().unwrap();
    // set once several runs gave no answer: each further one would cost as long again
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ths: Vec<_> = (0..workers)
        .map(|w| {
            let (agg, exe, id, suspects) = (agg.clone(), exe.clone(), id.to_string(), suspects.clone());
            let stop = stop.clone();
            let hang = p.hang_s();
            std::thread::spawn(move || {
                let mut start = w;
                let slot = Arc::new(Mutex::new(Slot { child: None, current: None }));
                loop {
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if start >= total || left == 0 || stop.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                    let mut c = Command::new(&exe)
                        .args(["worker", &id, &seed.to_string(), tier.s()])
                        .args([start, workers, total, left].map(|x| x.to_string()))
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .expect("worker");
                    let so = BufReader::new(c.stdout.take().unwrap());
                    {
                        let mut s = slot.lock().unwrap();
                        s.child = Some(c);
                        s.current = None;
                    }
                    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let (s2, d2) = (slot.clone(), done.clone());
                    let killed = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let k2 = killed.clone();
                    let stop2 = stop.clone();
                    let dog = std::thread::spawn(move || {
                        while !d2.load(std::sync::atomic::Ordering::SeqCst) {
                            std::thread::sleep(Duration::from_millis(50));
                            let mut s = s2.lock().unwrap();
                            if matches!(&s.current, Some((_, t)) if t.elapsed().as_secs() > hang) {
                                k2.store(true, std::sync::atomic::Ordering::SeqCst);
                                if let Some(c) = s.child.as_mut() {
                                    let _ = c.kill();
                                }
                                return;
                            }
                            if stop2.load(std::sync::atomic::Ordering::SeqCst) {
                                s.current = None;
                                if let Some(c) = s.child.as_mut() {
                                    let _ = c.kill();
                                }
                                return;
                            }
                        }
                    });
                    for l in so.lines().map_while(Result::ok) {
                        if let Some(i) = l.strip_prefix("START ") {
                            slot.lock().unwrap().current = i.parse().ok().map(|i: u64| (i, Instant::now()));
                        } else if let Ok(v) = serde_json::from_str::<Value>(&l) {
                            slot.lock().unwrap().current = None;
                            agg.lock().unwrap().add(&v);
                        }
                    }
                    done.store(true, std::sync::atomic::Ordering::SeqCst);
                    let _ = dog.join();
                    let mut s = slot.lock().unwrap();
                    let _ = s.child.as_mut().map(|c| c.wait());
                    let was_stopped = stop.load(std::sync::atomic::Ordering::SeqCst)
                        && !killed.load(std::sync::atomic::Ordering::SeqCst);
                    match s.current.take().filter(|_| !was_stopped) {
                        None => break,
                        Some((i, _)) => {
                            let k = if killed.load(std::sync::atomic::Ordering::SeqCst) { "hang" } else { "process-abort" };
                            let n = {
                                let mut v = suspects.lock().unwrap();
                                v.push((i, k));
                                v.len()
                            };
                            if n >= 4 && k == "hang" {
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                            }
                            if n > 12 {
                                break;
                            }
                            start = i + workers;
                        }
                    }
                }
            })
        })
        .collect();
    for t in ths {
        t.join().expect("worker thread");
    }
    // a run that killed its process or gave no answer must do so again on its own
    let mut agg = Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap();
    let mut sus = suspects.lock().unwrap().clone();
    sus.sort();
    let again: Vec<_> = sus
        .iter()
        .take(4)
        .map(|(i, _)| {
            let (i, id) = (*i, id.to_string());
            let case = p.gen(run_seed(seed, &id, i), tier, i);
            let lim = Duration::from_secs(2 * p.hang_s());
            (i, std::thread::spawn(move || case_in_fresh_process(&id, &case, lim)))
        })
        .collect();
    for (i, th) in again {
        let i = &i;
        match th.join().expect("fresh process") {
            CaseRes::Done(mut v) => {
                v["i"] = json!(i);
                agg.add(&v);
            }
            r => {
                for c in classes(&r) {
                    agg.bad(*i, &c.class, &c.detail);
                }
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let known = known_findings();
    let mut new: Vec<(String, u64, String)> = vec![];
    let mut seen_known = vec![];
    for (class, (i, d)) in &agg.viol {
        match known.iter().find(|k| k.property == id && k.class == *class) {
            Some(k) => seen_known.push(k),
            None => new.push((class.clone(), *i, d.clone())),
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={id} {} [{}]", k.what, k.class);
    }
    new.sort_by_key(|x| x.1);
    let mut rc = 0;
    let mut replays = vec![];
    for (class, i, detail) in new.iter().take(2) {
        let case = p.gen(run_seed(seed, id, *i), tier, *i);
        let budget = std::env::var("VERIF_MINIMISE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let (case, detail, tries) = minimise(p, case, class, detail, Duration::from_secs(budget));
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let body = json!({
            "property": id, "class": class, "detail": detail, "seed": seed, "index": i,
            "tier": tier.s(), "minimiser_tries": tries, "case": case,
        });
        let text = serde_json::to_string_pretty(&body).unwrap();
        let path = dir.join(format!("{id}-{:012x}.json", hash_bytes(format!("{class}{case}").as_bytes()) >> 16));
        std::fs::write(&path, text).unwrap();
        println!("violated: {class}: {}", detail.chars().take(600).collect::<String>());
        println!("  found in run {i}; minimised case: {}", case.to_string().chars().take(800).collect::<String>());
        println!("VIOLATION property={id} replay={}", path.display());
        replays.push(path);
        rc = 1;
    }
    for (class, i, _) in new.iter().skip(2) {
        println!("also violated: {class} (run {i})");
    }
    let missing: Vec<&&str> = p.probes().iter().filter(|k| agg.stats.get(**k).copied().unwrap_or(0) == 0).collect();
    let m = p.meta();
    let ev = json!({
        "property": id, "tier": tier.s(), "seed": seed, "level": m.level,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nt.len(),
            "rule": m.rule,
            "samples": agg.samples.iter().map(|(i, s)| json!({"run": i, "what": s})).collect::<Vec<_>>(),
            "simulated_runs": agg.runs,
            "runs_planned": total,
            "seeds_per_hour": (agg.runs as f64 / explore_s.max(0.001) * 3600.0).round(),
            "simulated_time": {"amount": agg.sim, "unit": m.time_unit},
            "counters": agg.stats,
            "distinct_states": {"count": agg.states.len(), "measure": m.state_measure},
            "distinct_histories": agg.digests.len(),
            "runs_executed_twice_with_equal_digest": agg.rep_ok,
            "runs_executed_twice_with_another_digest": agg.rep_bad.len(),
            "longest_run_ms": agg.max_ms,
            "mean_run_ms": agg.busy_ms as f64 / agg.runs.max(1) as f64,
            "worker_processes": workers,
            "probes_never_reached": missing,
            "ran_real_code": m.real,
            "ran_a_stub": m.stub,
            "known_findings_seen": seen_known.iter().map(|k| k.class.clone()).collect::<Vec<_>>(),
        },
        "assumptions": m.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    std::fs::create_dir_all(root().join("evidence")).ok();
    std::fs::write(root().join(format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs ({} distinct non-trivial), {} states, {} repeated runs equal, {} not, {:.1}s",
        agg.runs, agg.nt.len(), agg.states.len(), agg.rep_ok, agg.rep_bad.len(), t0.elapsed().as_secs_f64()
    );
    if rc == 1 {
        return 1;
    }
    if let Some((i, h)) = agg.herr {
        eprintln!("harness error in run {i}: {h}");
        return 2;
    }
    if agg.runs == 0 {
        eprintln!("nothing ran");
        return 2;
    }
    if !missing.is_empty() {
        eprintln!("note: never reached: {missing:?}");
    }
    if !agg.rep_bad.is_empty() {
        eprintln!("note: runs {:?} did not repeat exactly", &agg.rep_bad[..agg.rep_bad.len().min(5)]);
    }
    0
}

fn minimise(p: &dyn Prop, case: Value, class: &str, detail: &str, budget: Duration) -> (Value, String, u64) {
    let t0 = Instant::now();
    let lim = Duration::from_secs(if class == "hang" { 2 * p.hang_s() } else { 60 });
    let mut best = case;
    let mut det = detail.to_string();
    let mut tries = 0;
    if class == "hang" {
        return (best, det, 0);
    }
    'outer: loop {
        for c in p.shrink(&best) {
            if t0.elapsed() > budget {
                break 'outer;
            }
            if c == best {
                continue;
            }
            tries += 1;
            if let Some(v) = classes(&case_in_fresh_process(p.id(), &c, lim)).into_iter().find(|v| v.class == class) {
                best = c;
                det = v.detail;
                continue 'outer;
            }
        }
        break;
    }
    (best, det, tries)
}

/// Runs a replay file in a fresh process; exit 1 if the violation shows again.
pub fn replay(path: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap().to_string();
    let class = v["class"].as_str().unwrap_or("").to_string();
    let p = props::by_id(&id).expect("property");
    let r = case_in_fresh_process(&id, &v["case"], Duration::from_secs(2 * p.hang_s()));
    for x in classes(&r) {
        println!("{}: {}", x.class, x.detail);
        if x.class == class {
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
    }
    println!("not reproduced");
    0
}
