//! Shared types: field, options, verdicts, proof cloning, transcript seam.
use crate::rng::{hash_bytes, mix};
use lambdaworks_crypto::sim::{set_hook, Event};
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::{options::ProofOptions, stark::StarkProof};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub type F = Stark252PrimeField;
pub type FE = FieldElement<F>;
pub type Proof = StarkProof<F>;

pub fn fe(x: u64) -> FE {
    FE::from(x)
}
pub fn fe_i(x: i64) -> FE {
    if x < 0 {
        -FE::from(x.unsigned_abs())
    } else {
        FE::from(x as u64)
    }
}
pub fn fe_rand(r: &mut crate::rng::Rng) -> FE {
    let mut b = r.bytes32();
    b[0] &= 3;
    FE::from_bytes_be(&b).unwrap()
}
pub fn fe_u64(x: &FE) -> Option<u64> {
    let b = x.to_bytes_be();
    if b[..24].iter().any(|v| *v != 0) {
        None
    } else {
        Some(u64::from_be_bytes(b[24..32].try_into().unwrap()))
    }
}
pub fn fe_hash(x: &FE) -> u64 {
    hash_bytes(&x.to_bytes_be())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub b: u8,
    pub q: usize,
    pub c: u64,
    pub g: u8,
}
impl Opts {
    pub fn po(&self) -> ProofOptions {
        let mut o = ProofOptions::default_test_options();
        o.blowup_factor = self.b;
        o.fri_number_of_queries = self.q;
        o.coset_offset = self.c;
        o.grinding_factor = self.g;
        o
    }
    pub fn test() -> Opts {
        Opts { b: 4, q: 3, c: 3, g: 1 }
    }
}

/// The only place that copies a proof field by field (StarkProof is not Clone).
pub fn clone_proof(p: &Proof) -> Proof {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation,
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation,
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value,
        query_list: p.query_list.clone(),
        deep_poly_openings: p.deep_poly_openings.clone(),
        nonce: p.nonce,
    }
}

/// An independent canonical encoding of a proof, for equality in oracles
/// (does not use the repository's serializers).
pub fn proof_canon(p: &Proof) -> Vec<u8> {
    fn n(o: &mut Vec<u8>, x: usize) {
        o.extend((x as u64).to_le_bytes())
    }
    fn f(o: &mut Vec<u8>, x: &FE) {
        o.extend(x.to_bytes_be())
    }
    fn fs(o: &mut Vec<u8>, x: &[FE]) {
        n(o, x.len());
        x.iter().for_each(|v| f(o, v));
    }
    fn cs(o: &mut Vec<u8>, x: &[[u8; 32]]) {
        n(o, x.len());
        x.iter().for_each(|v| o.extend(v));
    }
    let mut o = vec![];
    n(&mut o, p.trace_length);
    cs(&mut o, &p.lde_trace_merkle_roots);
    let fr = &p.trace_ood_frame_evaluations;
    n(&mut o, fr.num_columns());
    if fr.num_columns() > 0 {
        n(&mut o, fr.num_rows());
        for i in 0..fr.num_rows() {
            fs(&mut o, fr.get_row(i));
        }
    }
    o.extend(p.composition_poly_root);
    f(&mut o, &p.composition_poly_even_ood_evaluation);
    f(&mut o, &p.composition_poly_odd_ood_evaluation);
    cs(&mut o, &p.fri_layers_merkle_roots);
    f(&mut o, &p.fri_last_value);
    n(&mut o, p.query_list.len());
    for q in &p.query_list {
        n(&mut o, q.layers_auth_paths_sym.len());
        q.layers_auth_paths_sym.iter().for_each(|a| cs(&mut o, &a.merkle_path));
        fs(&mut o, &q.layers_evaluations_sym);
        n(&mut o, q.layers_auth_paths.len());
        q.layers_auth_paths.iter().for_each(|a| cs(&mut o, &a.merkle_path));
        fs(&mut o, &q.layers_evaluations);
    }
    n(&mut o, p.deep_poly_openings.len());
    for d in &p.deep_poly_openings {
        cs(&mut o, &d.lde_composition_poly_proof.merkle_path);
        f(&mut o, &d.lde_composition_poly_even_evaluation);
        f(&mut o, &d.lde_composition_poly_odd_evaluation);
        n(&mut o, d.lde_trace_merkle_proofs.len());
        d.lde_trace_merkle_proofs.iter().for_each(|a| cs(&mut o, &a.merkle_path));
        fs(&mut o, &d.lde_trace_evaluations);
    }
    o.extend(p.nonce.to_le_bytes());
    o
}

pub fn frame_data(f: &Frame<F>) -> Vec<FE> {
    let mut o = vec![];
    if f.num_columns() > 0 {
        for i in 0..f.num_rows() {
            o.extend(f.get_row(i).iter().cloned());
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    Panic(String),
}
impl Verdict {
    pub fn s(&self) -> String {
        match self {
            Verdict::Accept => "accept".into(),
            Verdict::Reject => "reject".into(),
            Verdict::Panic(m) => format!("panic: {m}"),
        }
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        // never leave a seam armed behind a panic
        set_hook(None);
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = crate::LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{m} @ {loc}")
    })
}

pub fn verdict(f: impl FnOnce() -> bool) -> Verdict {
    match catch(f) {
        Ok(true) => Verdict::Accept,
        Ok(false) => Verdict::Reject,
        Err(m) => Verdict::Panic(m),
    }
}

/// What one prover or verifier session exchanged with its transcript.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    A(Vec<u8>),
    C([u8; 32]),
}

/// Runs `f` with the transcript seam recording every append and challenge.
pub fn record<R>(f: impl FnOnce() -> R) -> (R, Vec<T>) {
    let log: Rc<RefCell<Vec<T>>> = Rc::default();
    let l2 = log.clone();
    set_hook(Some(Box::new(move |e| match e {
        Event::New(_) => {}
        Event::Append(_, b) => l2.borrow_mut().push(T::A(b.to_vec())),
        Event::Challenge(_, c) => l2.borrow_mut().push(T::C(*c)),
    })));
    let r = f();
    set_hook(None);
    let v = log.borrow().clone();
    (r, v)
}

/// Reduced result of one simulated run.
#[derive(Default, Debug)]
pub struct RunOut {
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<String, u64>,
    /// hashes of distinct states / interleavings reached
    pub states: Vec<u64>,
    pub sim_time: u64,
    /// order-sensitive digest of everything that happened in the run
    pub digest: u64,
    pub nontrivial: bool,
    pub sample: String,
    /// a failure of the simulator itself (never a verdict on the code)
    pub harness_error: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// stable identity of the failure (used by minimisation and known findings)
    pub class: String,
    pub detail: String,
}
impl RunOut {
    pub fn stat(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn ev(&mut self, h: u64) {
        self.digest = mix(self.digest ^ h);
    }
    pub fn evs(&mut self, s: &str) {
        self.ev(hash_bytes(s.as_bytes()))
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h)
    }
    pub fn bad(&mut self, class: &str, detail: impl Into<String>) {
        let class = class.to_string();
        if self.violations.iter().filter(|v| v.class == class).count() < 1 {
            self.violations.push(Violation { class, detail: detail.into() });
        }
    }
}
