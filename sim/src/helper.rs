//! Other builds of the same code, each in its own process: sequential, and
//! with debug checks. A helper answers one request per line.
use crate::core::*;
use crate::mutate::{self, Mut};
use crate::rng::hash_bytes;
use crate::zoo::{self, Stmt};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub stmt: Stmt,
    pub opts: Opts,
    /// how the trace is spoiled before proving (see c07::spoil)
    pub spoil: (u8, u64),
    /// only judges a proof that was made before, altered like this
    #[serde(default)]
    pub judge: Option<Vec<Mut>>,
}
impl Request {
    pub fn new(stmt: Stmt, opts: Opts, spoil: (u8, u64)) -> Request {
        Request { stmt, opts, spoil, judge: None }
    }
}
/// Digests of everything a session produces.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Answer {
    pub error: Option<String>,
    pub trace: u64,
    pub inputs: u64,
    pub trace_roots: u64,
    pub composition: u64,
    pub frame: u64,
    pub layers: u64,
    pub nonce: u64,
    pub openings: u64,
    pub bytes: u64,
    pub verdict: String,
    /// scheduling points that were passed
    #[serde(default)]
    pub points: u64,
}
impl Answer {
    /// the first thing that differs
    pub fn differs(&self, o: &Answer) -> Option<&'static str> {
        Some(match (self, o) {
            _ if self.error.is_some() != o.error.is_some() => "success",
            _ if self.error.is_some() => return None,
            _ if self.trace != o.trace => "execution trace",
            _ if self.inputs != o.inputs => "public inputs",
            _ if self.trace_roots != o.trace_roots => "trace commitments",
            _ if self.composition != o.composition => "composition",
            _ if self.frame != o.frame => "values at z",
            _ if self.layers != o.layers => "layers",
            _ if self.nonce != o.nonce => "nonce",
            _ if self.openings != o.openings => "openings",
            _ if self.bytes != o.bytes => "bytes",
            _ if self.verdict != o.verdict => "verdict",
            _ => return None,
        })
    }
}

pub fn digest(inst: &zoo::Instance, p: &Proof, o: &Opts) -> Answer {
    use lambdaworks_math::traits::{ByteConversion, Serializable};
    let h = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut v = vec![];
        f(&mut v);
        hash_bytes(&v)
    };
    let fs = |x: &[FE]| x.iter().flat_map(|v| v.to_bytes_be()).collect::<Vec<u8>>();
    let mut q = clone_proof(p);
    q.lde_trace_merkle_roots.clear();
    q.fri_layers_merkle_roots.clear();
    Answer {
        error: None,
        trace: hash_bytes(&fs(&inst.trace.table)),
        inputs: match &inst.pi {
            zoo::Pi::Cairo(c) => hash_bytes(&c.serialize()) ^ hash_bytes(&crate::wire::pi_canon(c)).rotate_left(1),
            _ => 0,
        },
        trace_roots: hash_bytes(&p.lde_trace_merkle_roots.concat()),
        composition: h(&|v| {
            v.extend(p.composition_poly_root);
            v.extend(p.composition_poly_even_ood_evaluation.to_bytes_be());
            v.extend(p.composition_poly_odd_ood_evaluation.to_bytes_be());
        }),
        frame: hash_bytes(&fs(&frame_data(&p.trace_ood_frame_evaluations))),
        layers: h(&|v| {
            v.extend(p.fri_layers_merkle_roots.concat());
            v.extend(p.fri_last_value.to_bytes_be());
        }),
        nonce: p.nonce,
        openings: hash_bytes(&proof_canon(&q)),
        bytes: hash_bytes(&p.serialize()),
        verdict: inst.pi.check(p, &o.po()).s(),
        points: 0,
    }
}

/// One session from scratch.
pub fn session(r: &Request) -> Answer {
    let fail = |e: String| Answer { error: Some(e), ..Default::default() };
    let mut inst = match catch(|| zoo::build(&r.stmt)) {
        Ok(Ok(i)) => i,
        Ok(Err(e)) | Err(e) => return fail(e),
    };
    inst.trace = crate::props::c07::spoil(&inst.trace, r.spoil.0, r.spoil.1);
    match inst.prove(&r.opts) {
        Ok(p) => digest(&inst, &p, &r.opts),
        Err(e) => fail(e),
    }
}

/// The bytes a judging session receives.
pub fn prepare(r: &Request) -> Vec<u8> {
    use lambdaworks_math::traits::Serializable;
    let Some(muts) = &r.judge else { return vec![] };
    let Ok(Ok(inst)) = catch(|| zoo::build(&r.stmt)) else { return vec![] };
    let Ok(mut p) = inst.prove(&r.opts) else { return vec![] };
    for m in muts.iter().filter(|m| !mutate::is_byte(m)) {
        mutate::apply_struct(&mut p, m);
    }
    let mut b = p.serialize();
    for m in muts.iter().filter(|m| mutate::is_byte(m)) {
        mutate::apply_bytes(&mut b, m);
    }
    b
}
/// The session itself, given what `prepare` returned.
pub fn work(r: &Request, bytes: &[u8]) -> Answer {
    use lambdaworks_math::traits::Deserializable;
    if r.judge.is_none() {
        return session(r);
    }
    let v = catch(|| {
        let inst = zoo::build(&r.stmt)?;
        let p = Proof::deserialize(bytes).map_err(|e| format!("refused: {e:?}"))?;
        Ok::<_, String>(inst.pi.check(&p, &r.opts.po()).s())
    });
    Answer { verdict: format!("{v:?}"), ..Default::default() }
}
/// One session in a process that does nothing else.
pub fn ask_fresh(r: &Request) -> Result<Answer, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(me);
    c.arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut child = c.spawn().map_err(|e| format!("no helper: {e}"))?;
    let _ = writeln!(child.stdin.take().unwrap(), "{}", serde_json::to_string(r).unwrap());
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    String::from_utf8_lossy(&o.stdout).lines().find_map(|l| serde_json::from_str(l).ok()).ok_or("died".into())
}

pub fn serve() -> i32 {
    for l in std::io::stdin().lock().lines().map_while(Result::ok) {
        let Ok(r) = serde_json::from_str::<Request>(&l) else { return 2 };
        let bytes = prepare(&r);
        let n = std::rc::Rc::new(std::cell::Cell::new(0));
        let m = n.clone();
        lambdaworks_math::sim::set_point(Some(Box::new(move |_| m.set(m.get() + 1))));
        let mut a = work(&r, &bytes);
        lambdaworks_math::sim::set_point(None);
        a.points = n.get();
        println!("{}", serde_json::to_string(&a).unwrap());
        let _ = std::io::stdout().flush();
    }
    0
}

struct Helper {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static HELPERS: RefCell<HashMap<String, Helper>> = RefCell::new(HashMap::new());
}
extern "C" {
    fn prctl(option: i32, arg: u64, ...) -> i32;
}

fn path(build: &str) -> std::path::PathBuf {
    let v = format!("SIM_{}", build.to_uppercase());
    match std::env::var(v) {
        Ok(p) => p.into(),
        Err(_) => crate::runner::root().join("target").join(if build == "seq" { "release" } else { build }).join("starksim"),
    }
}

/// Asks the helper of that build; Err if it died.
pub fn ask(build: &str, r: &Request) -> Result<Answer, String> {
    HELPERS.with(|h| {
        let mut h = h.borrow_mut();
        if !h.contains_key(build) {
            let p = path(build);
            let mut c = Command::new(&p);
            c.arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            // the helper ends with its worker
            unsafe {
                c.pre_exec(|| {
                    prctl(1, 9);
                    Ok(())
                });
            }
            let mut child = c.spawn().map_err(|e| format!("no helper {}: {e}", p.display()))?;
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            h.insert(build.into(), Helper { child, to, from });
        }
        let x = h.get_mut(build).unwrap();
        let mut line = String::new();
        let ok = writeln!(x.to, "{}", serde_json::to_string(r).unwrap()).is_ok() && x.to.flush().is_ok();
        loop {
            line.clear();
            if !ok || x.from.read_line(&mut line).unwrap_or(0) == 0 {
                h.remove(build);
                return Err("died".into());
            }
            if let Ok(a) = serde_json::from_str::<Answer>(&line) {
                return Ok(a);
            }
        }
    })
}
