//! The statements the simulated provers and verifiers work on: the AIRs that
//! ship with the repository, randomly generated AIRs, and Cairo programs.
use crate::cairo::{self, CairoSpec};
use crate::core::*;
use crate::rng::Rng;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, CairoAIR, PublicInputs};
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::example::{
    dummy_air::{dummy_trace, DummyAIR},
    fibonacci_2_columns::{fibonacci_trace_2_columns, Fibonacci2ColsAIR},
    fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{quadratic_trace, QuadraticAIR, QuadraticPublicInputs},
    simple_fibonacci::{fibonacci_trace, FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::prover::{prove, ProvingError};
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::transcript::transcript_to_field;
use lambdaworks_stark::starks::verifier::verify;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::sync::Arc;

pub type Trace = TraceTable<F>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stmt {
    Fib { a0: u64, a1: u64, log: u32 },
    Fib2 { a0: u64, a1: u64, log: u32 },
    Quad { a0: u64, log: u32 },
    /// `steps` Fibonacci steps checked, padded to the next power of two
    Rap {
        steps: usize,
        #[serde(default = "one")]
        a0: u64,
        #[serde(default = "one")]
        a1: u64,
    },
    Dummy { log: u32 },
    Gen(GenSpec),
    Cairo(CairoSpec),
}

fn one() -> u64 {
    1
}

/// A randomly generated AIR: columns defined by low-degree recurrences.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenSpec {
    pub log: u32,
    pub cols: usize,
    pub offs: Vec<usize>,
    pub trs: Vec<GTr>,
    /// (column, step) boundary constraints; values come from the trace
    pub bnds: Vec<(usize, usize)>,
    /// adds an auxiliary permutation-product column over columns 0 and 1
    pub aux: bool,
    pub double: bool,
    pub seed: u64,
}
/// x_col[i + offs[lead]] = sum coef * prod x_c[i + offs[o]]  for i < n - e
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GTr {
    pub col: usize,
    pub lead: usize,
    pub e: usize,
    pub terms: Vec<(i64, Vec<(usize, usize)>)>,
}
impl GTr {
    pub fn deg(&self) -> usize {
        self.terms.iter().map(|t| t.1.len()).max().unwrap_or(1).max(1)
    }
}
impl GenSpec {
    pub fn n(&self) -> usize {
        1 << self.log
    }
    pub fn max_deg(&self) -> usize {
        self.trs.iter().map(|t| t.deg()).max().unwrap_or(1).max(if self.aux { 2 } else { 1 })
    }
    pub fn bound(&self) -> usize {
        if self.double || self.max_deg() == 3 {
            2 * self.n()
        } else {
            self.n()
        }
    }
    /// largest degree of the composition polynomial this AIR can produce
    pub fn comp_degree(&self) -> usize {
        let b = self.bound();
        let mut m = b - 1;
        for t in &self.trs {
            m = m.max(b + t.e - t.deg());
        }
        m
    }
    /// a configuration the protocol supports: composition degree fits the two
    /// halves and the evaluation domain
    pub fn supported(&self, blowup: usize) -> bool {
        self.comp_degree() <= (2 * self.n() + 1).min(blowup * self.n() - 1)
    }
}

#[derive(Clone)]
pub struct GenPi {
    pub spec: Arc<GenSpec>,
    pub bvals: Vec<FE>,
}
#[derive(Clone)]
pub struct GenAIR {
    ctx: AirContext,
    n: usize,
    pi: GenPi,
}
impl AIR for GenAIR {
    type Field = F;
    type RAPChallenges = FE;
    type PublicInputs = GenPi;
    fn new(n: usize, pi: &GenPi, o: &ProofOptions) -> Self {
        let s = &pi.spec;
        let mut degs: Vec<usize> = s.trs.iter().map(|t| t.deg()).collect();
        let mut ex: Vec<usize> = s.trs.iter().map(|t| t.e).collect();
        if s.aux {
            degs.push(2);
            ex.push(0);
        }
        let mut u: Vec<usize> = ex.iter().cloned().filter(|e| *e > 0).collect();
        u.sort();
        u.dedup();
        GenAIR {
            ctx: AirContext {
                proof_options: o.clone(),
                trace_columns: s.cols + s.aux as usize,
                num_transition_constraints: degs.len(),
                transition_degrees: degs,
                transition_exemptions: ex,
                transition_offsets: s.offs.clone(),
                num_transition_exemptions: u.len(),
            },
            n,
            pi: pi.clone(),
        }
    }
    fn build_auxiliary_trace(&self, m: &Trace, g: &FE) -> Trace {
        if !self.pi.spec.aux {
            return TraceTable::empty();
        }
        let mut v = vec![FE::one()];
        for i in 0..m.n_rows() - 1 {
            let z = v[i] * (m.get(i, 0) + *g) * (m.get(i, 1) + *g).inv();
            v.push(z);
        }
        TraceTable::new_from_cols(&[v])
    }
    fn build_rap_challenges<TT: Transcript>(&self, t: &mut TT) -> FE {
        if self.pi.spec.aux {
            transcript_to_field(t)
        } else {
            FE::zero()
        }
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.pi.spec.aux as usize
    }
    fn composition_poly_degree_bound(&self) -> usize {
        let s = &self.pi.spec;
        if s.double || s.max_deg() == 3 {
            2 * self.n
        } else {
            self.n
        }
    }
    fn compute_transition(&self, f: &Frame<F>, g: &FE) -> Vec<FE> {
        let s = &self.pi.spec;
        let mut o: Vec<FE> = s
            .trs
            .iter()
            .map(|t| {
                let mut acc = FE::zero();
                for (c, vs) in &t.terms {
                    let mut p = fe_i(*c);
                    for (off, col) in vs {
                        p = p * f.get_row(*off)[*col];
                    }
                    acc = acc + p;
                }
                f.get_row(t.lead)[t.col] - acc
            })
            .collect();
        if s.aux {
            // offset index of 1 is always 1 in aux specs
            let z = s.cols;
            o.push(f.get_row(1)[z] * (f.get_row(0)[1] + *g) - f.get_row(0)[z] * (f.get_row(0)[0] + *g));
        }
        o
    }
    fn boundary_constraints(&self, _g: &FE) -> BoundaryConstraints<F> {
        let s = &self.pi.spec;
        let mut v: Vec<_> = s
            .bnds
            .iter()
            .zip(&self.pi.bvals)
            .map(|((c, r), x)| BoundaryConstraint::new(*c, *r % self.n.max(1), *x))
            .collect();
        if s.aux {
            v.push(BoundaryConstraint::new(s.cols, 0, FE::one()));
        }
        BoundaryConstraints::from_constraints(v)
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &GenPi {
        &self.pi
    }
}

pub fn gen_trace(s: &GenSpec) -> Trace {
    let n = s.n();
    let mut r = Rng::new(s.seed);
    let mut x = vec![vec![FE::zero(); n]; s.cols];
    for c in x.iter_mut() {
        for v in c.iter_mut() {
            *v = fe_rand(&mut r);
        }
    }
    // recurrences, in row order then column order
    for i in 0..n {
        for c in 0..s.cols {
            for t in s.trs.iter().filter(|t| t.col == c) {
                let l = s.offs[t.lead];
                if i < l || i - l >= n - t.e {
                    continue;
                }
                let mut acc = FE::zero();
                for (k, vs) in &t.terms {
                    let mut p = fe_i(*k);
                    for (off, col) in vs {
                        p = p * x[*col][(i - l + s.offs[*off]) % n];
                    }
                    acc = acc + p;
                }
                x[c][i] = acc;
            }
        }
    }
    if s.aux {
        // column 1 is a permutation of column 0
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            p.swap(i, r.us(i + 1));
        }
        x[1] = p.iter().map(|j| x[0][*j]).collect();
    }
    TraceTable::new_from_cols(&x)
}

pub fn random_gen(r: &mut Rng, max_log: u32, blowup: usize) -> GenSpec {
    loop {
        let log = r.range(2, max_log as u64) as u32;
        let n = 1usize << log;
        let aux = r.chance(1, 2);
        let mut offs: Vec<usize> = match r.below(if aux { 4 } else { 8 }) {
            0 | 1 => vec![0, 1],
            2 => vec![0, 1, 2],
            3 => vec![0, 1, 3],
            4 => vec![0, 2],
            5 => vec![0, 3],
            6 if n > 8 => vec![0, 1 + r.us(n / 2)],
            _ => vec![0],
        };
        if n <= 4 {
            offs.retain(|o| *o < 3);
        }
        let cols = r.range(if aux { 2 } else { 1 }, 5) as usize;
        let free = if aux { 2 } else { 0 };
        let mut trs = vec![];
        for c in 0..cols {
            // permuted column must stay free
            if aux && c == 1 {
                continue;
            }
            if !(c == 0 && trs.is_empty() && cols <= free) && r.chance(1, 4) && !(c + 1 == cols && trs.is_empty()) {
                continue;
            }
            let lead = r.us(offs.len());
            let l = offs[lead];
            let e = if l == 0 {
                if r.chance(3, 4) { 0 } else { r.us(3) }
            } else if r.chance(3, 4) {
                l
            } else {
                l + r.us(n / 2)
            };
            let mut terms = vec![];
            for _ in 0..r.range(1, 3) {
                let d = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
                let mut vs = vec![];
                for _ in 0..d {
                    let o = r.us(lead + 1);
                    let col = if o == lead {
                        // same row: only columns already determined there
                        if c == 0 { continue } else { r.us(c) }
                    } else {
                        r.us(cols)
                    };
                    if aux && col == 1 {
                        continue;
                    }
                    vs.push((o, col));
                }
                terms.push((r.range(0, 10) as i64 - 3, vs));
            }
            if e < n {
                trs.push(GTr { col: c, lead, e, terms });
            }
        }
        if trs.is_empty() && !aux {
            continue;
        }
        let total = cols + aux as usize;
        let _ = total;
        let mut bnds = vec![(r.us(cols), r.us(n))];
        for _ in 0..r.below(4) {
            let b = (r.us(cols), *r.pick(&[0, n - 1, r.clone().us(n)]));
            if !bnds.contains(&b) {
                bnds.push(b);
            }
        }
        let s = GenSpec { log, cols, offs, trs, bnds, aux, double: r.chance(1, 3), seed: r.next() };
        if s.supported(blowup) {
            return s;
        }
    }
}

pub fn random_opts(r: &mut Rng) -> Opts {
    Opts {
        b: *r.pick(&[2, 4, 4, 4, 8, 16]),
        q: *r.pick(&[1, 2, 3, 3, 5, 8, 20]),
        c: *r.pick(&[3, 3, 7, 5, 11, 0x1234567]),
        g: *r.pick(&[0, 1, 1, 3, 5, 8]),
    }
}

/// `weight` biases towards Cairo statements (0 = none)
pub fn random_stmt(r: &mut Rng, blowup: usize, max_log: u32, cairo_w: u64) -> Stmt {
    if r.below(10) < cairo_w {
        return Stmt::Cairo(cairo::random_spec(r));
    }
    let log = r.range(3, max_log as u64) as u32;
    match r.below(9) {
        0 => Stmt::Fib { a0: r.below(1000), a1: r.next(), log },
        1 => Stmt::Fib2 { a0: r.below(1000), a1: r.next(), log },
        2 => Stmt::Quad { a0: r.next(), log },
        3 => Stmt::Rap { steps: r.range(8, (1 << max_log) - 1) as usize, a0: 1, a1: 1 },
        4 => Stmt::Dummy { log },
        _ => Stmt::Gen(random_gen(r, max_log, blowup)),
    }
}

/// Some hundreds or thousands of rows.
pub fn big_stmt(r: &mut Rng, blowup: usize) -> Stmt {
    match r.below(6) {
        0 => Stmt::Fib { a0: r.below(1000), a1: r.next(), log: r.range(9, 11) as u32 },
        1 => Stmt::Rap { steps: r.range(300, 1000) as usize, a0: 1, a1: 1 },
        2 | 3 => loop {
            let g = random_gen(r, 10, blowup);
            if g.log >= 9 {
                return Stmt::Gen(g);
            }
        },
        _ => {
            let mut c = cairo::random_spec(r);
            for _ in 0..r.range(2, 4) {
                c.blocks.insert(0, cairo::Blk::Loop(r.range(60, 120) as u8));
            }
            Stmt::Cairo(c)
        }
    }
}

/// More rows, or memory addresses, than 16 bits can count.
pub fn giant_stmt(r: &mut Rng, which: u64) -> Stmt {
    match which % 5 {
        0 => Stmt::Fib { a0: r.next(), a1: r.next(), log: 17 },
        2 => Stmt::Quad { a0: r.next(), log: 17 },
        4 => Stmt::Fib2 { a0: r.next(), a1: r.next(), log: 17 },
        _ => {
            let mut c = cairo::random_spec(r);
            c.v1 = false;
            (c.rc, c.out, c.pub_out) = (false, false, false);
            c.blocks.retain(|b| !matches!(b, cairo::Blk::Rc(..) | cairo::Blk::Out(..)));
            c.blocks.push(cairo::Blk::Far(66000 + r.below(4000) as u32));
            Stmt::Cairo(c)
        }
    }
}

#[derive(Clone)]
pub enum Pi {
    Fib(FibonacciPublicInputs<F>),
    Fib2(FibonacciPublicInputs<F>),
    Quad(QuadraticPublicInputs<F>),
    Rap(FibonacciRAPPublicInputs<F>),
    Dummy,
    Gen(GenPi),
    Cairo(PublicInputs),
}

pub struct Instance {
    pub stmt: Stmt,
    pub trace: Trace,
    pub pi: Pi,
}

pub fn build(s: &Stmt) -> Result<Instance, String> {
    catch(|| build0(s)).and_then(|x| x)
}
fn build0(s: &Stmt) -> Result<Instance, String> {
    let (trace, pi) = match s {
        Stmt::Fib { a0, a1, log } => (
            fibonacci_trace([fe(*a0), fe(*a1)], 1 << log),
            Pi::Fib(FibonacciPublicInputs { a0: fe(*a0), a1: fe(*a1) }),
        ),
        Stmt::Fib2 { a0, a1, log } => (
            fibonacci_trace_2_columns([fe(*a0), fe(*a1)], 1 << log),
            Pi::Fib2(FibonacciPublicInputs { a0: fe(*a0), a1: fe(*a1) }),
        ),
        Stmt::Quad { a0, log } => {
            (quadratic_trace(fe(*a0), 1 << log), Pi::Quad(QuadraticPublicInputs { a0: fe(*a0) }))
        }
        Stmt::Rap { steps, a0, a1 } => (
            fibonacci_rap_trace([fe(*a0), fe(*a1)], *steps),
            Pi::Rap(FibonacciRAPPublicInputs { steps: *steps, a0: fe(*a0), a1: fe(*a1) }),
        ),
        Stmt::Dummy { log } => (dummy_trace(1 << log), Pi::Dummy),
        Stmt::Gen(g) => {
            let t = gen_trace(g);
            let bvals = g.bnds.iter().map(|(c, r)| t.get(*r, *c)).collect();
            (t, Pi::Gen(GenPi { spec: Arc::new(g.clone()), bvals }))
        }
        Stmt::Cairo(c) => {
            let b = cairo::build(c)?;
            (b.trace, Pi::Cairo(b.pi))
        }
    };
    Ok(Instance { stmt: s.clone(), trace, pi })
}

// ---------------------------------------------------------------- wrapping

type AuxHook = Box<dyn FnMut(&Trace, Trace, &dyn Any) -> Trace>;
thread_local! {
    static AUX: RefCell<Option<AuxHook>> = RefCell::new(None);
    /// what the debug build's own validation says about the trace
    pub static VALID: std::cell::Cell<Option<bool>> = const { std::cell::Cell::new(None) };
    static MAIN: RefCell<Option<Trace>> = RefCell::new(None);
}

/// Delegates to `A`; the auxiliary trace the prover commits to passes through
/// the simulator's hook (a fault in the prover's memory, or a capture).
#[derive(Clone)]
pub struct Wrap<A: AIR>(pub A);
impl<A: AIR> AIR for Wrap<A>
where
    A::RAPChallenges: 'static,
    A: AIR<Field = F>,
{
    type Field = F;
    type RAPChallenges = A::RAPChallenges;
    type PublicInputs = A::PublicInputs;
    fn new(n: usize, p: &Self::PublicInputs, o: &ProofOptions) -> Self {
        Wrap(A::new(n, p, o))
    }
    fn build_auxiliary_trace(&self, m: &Trace, c: &Self::RAPChallenges) -> Trace {
        let hook = AUX.with(|a| a.borrow_mut().take());
        match hook {
            None => self.0.build_auxiliary_trace(m, c),
            Some(mut h) => {
                // the auxiliary columns are computed from the honest main
                // trace when one was supplied (the fault hit later)
                let honest = MAIN.with(|a| a.borrow_mut().take());
                let src = honest.as_ref().unwrap_or(m);
                let aux = self.0.build_auxiliary_trace(src, c);
                let aux = h(m, aux, c);
                #[cfg(debug_assertions)]
                {
                    let mut polys = m.compute_trace_polys();
                    if aux.n_cols > 0 {
                        polys.extend(aux.compute_trace_polys());
                    }
                    let domain = lambdaworks_stark::starks::domain::Domain::new(&self.0);
                    // what it says does not depend on whether anybody listens
                    let level = log::max_level();
                    let seed = crate::rng::hash_bytes(&m.get(m.n_rows() - 1, 0).to_bytes_be()) ^ crate::rng::hash_bytes(&polys[polys.len() - 1].evaluate(&fe(5)).to_bytes_be());
                    if seed & 1 == 1 {
                        log::set_max_level(log::LevelFilter::Off);
                    }
                    let ok = lambdaworks_stark::starks::debug::validate_trace(&self.0, &polys, &domain, c);
                    log::set_max_level(level);
                    VALID.with(|v| v.set(Some(ok)));
                }
                aux
            }
        }
    }
    fn build_rap_challenges<TT: Transcript>(&self, t: &mut TT) -> Self::RAPChallenges {
        self.0.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.0.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.0.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<F>, c: &Self::RAPChallenges) -> Vec<FE> {
        self.0.compute_transition(f, c)
    }
    fn boundary_constraints(&self, c: &Self::RAPChallenges) -> BoundaryConstraints<F> {
        self.0.boundary_constraints(c)
    }
    fn transition_exemptions(&self) -> Vec<lambdaworks_math::polynomial::Polynomial<FE>> {
        self.0.transition_exemptions()
    }
    fn context(&self) -> &AirContext {
        self.0.context()
    }
    fn trace_length(&self) -> usize {
        self.0.trace_length()
    }
    fn pub_inputs(&self) -> &Self::PublicInputs {
        self.0.pub_inputs()
    }
}

pub fn e2s(e: ProvingError) -> String {
    format!("ProvingError {:?}", e)
}

impl Pi {
    pub fn prove(&self, t: &Trace, o: &ProofOptions) -> Result<Proof, String> {
        match self {
            Pi::Fib(p) => prove::<F, FibonacciAIR<F>>(t, p, o),
            Pi::Fib2(p) => prove::<F, Fibonacci2ColsAIR<F>>(t, p, o),
            Pi::Quad(p) => prove::<F, QuadraticAIR<F>>(t, p, o),
            Pi::Rap(p) => prove::<F, FibonacciRAP<F>>(t, p, o),
            Pi::Dummy => prove::<F, DummyAIR>(t, &(), o),
            Pi::Gen(p) => prove::<F, GenAIR>(t, p, o),
            Pi::Cairo(p) => generate_cairo_proof(t, p, o),
        }
        .map_err(e2s)
    }
    /// Proves with the auxiliary trace passing through `hook`. `honest_main`
    /// is the trace from which the prover derives its auxiliary columns.
    pub fn prove_hooked(
        &self,
        t: &Trace,
        honest_main: Option<Trace>,
        o: &ProofOptions,
        hook: AuxHook,
    ) -> Result<Proof, String> {
        AUX.with(|a| *a.borrow_mut() = Some(hook));
        MAIN.with(|a| *a.borrow_mut() = honest_main);
        let r = catch(|| {
            match self {
                Pi::Fib(p) => prove::<F, Wrap<FibonacciAIR<F>>>(t, p, o),
                Pi::Fib2(p) => prove::<F, Wrap<Fibonacci2ColsAIR<F>>>(t, p, o),
                Pi::Quad(p) => prove::<F, Wrap<QuadraticAIR<F>>>(t, p, o),
                Pi::Rap(p) => prove::<F, Wrap<FibonacciRAP<F>>>(t, p, o),
                Pi::Dummy => prove::<F, Wrap<DummyAIR>>(t, &(), o),
                Pi::Gen(p) => prove::<F, Wrap<GenAIR>>(t, p, o),
                Pi::Cairo(p) => prove::<F, Wrap<CairoAIR>>(t, p, o),
            }
            .map_err(e2s)
        });
        AUX.with(|a| *a.borrow_mut() = None);
        MAIN.with(|a| *a.borrow_mut() = None);
        r.and_then(|x| x)
    }
    pub fn verify(&self, p: &Proof, o: &ProofOptions) -> bool {
        match self {
            Pi::Fib(pi) => verify::<F, FibonacciAIR<F>>(p, pi, o),
            Pi::Fib2(pi) => verify::<F, Fibonacci2ColsAIR<F>>(p, pi, o),
            Pi::Quad(pi) => verify::<F, QuadraticAIR<F>>(p, pi, o),
            Pi::Rap(pi) => verify::<F, FibonacciRAP<F>>(p, pi, o),
            Pi::Dummy => verify::<F, DummyAIR>(p, &(), o),
            Pi::Gen(pi) => verify::<F, GenAIR>(p, pi, o),
            Pi::Cairo(pi) => verify_cairo_proof(p, pi, o),
        }
    }
    pub fn check(&self, p: &Proof, o: &ProofOptions) -> Verdict {
        verdict(|| self.verify(p, o))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Pi::Fib(_) => "simple_fibonacci",
            Pi::Fib2(_) => "fibonacci_2_columns",
            Pi::Quad(_) => "quadratic",
            Pi::Rap(_) => "fibonacci_rap",
            Pi::Dummy => "dummy",
            Pi::Gen(_) => "generated_air",
            Pi::Cairo(_) => "cairo",
        }
    }
    /// (trace columns, aux columns, transition offsets) of the AIR
    pub fn shape(&self, n: usize, o: &ProofOptions) -> Shape {
        macro_rules! sh {
            ($a:ty, $p:expr) => {{
                let a = <$a>::new(n, $p, o);
                Shape {
                    cols: a.context().trace_columns,
                    aux: a.number_auxiliary_rap_columns(),
                    offs: a.context().transition_offsets.clone(),
                }
            }};
        }
        match self {
            Pi::Fib(p) => sh!(FibonacciAIR<F>, p),
            Pi::Fib2(p) => sh!(Fibonacci2ColsAIR<F>, p),
            Pi::Quad(p) => sh!(QuadraticAIR<F>, p),
            Pi::Rap(p) => sh!(FibonacciRAP<F>, p),
            Pi::Dummy => sh!(DummyAIR, &()),
            Pi::Gen(p) => sh!(GenAIR, p),
            Pi::Cairo(p) => sh!(CairoAIR, p),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Shape {
    pub cols: usize,
    pub aux: usize,
    pub offs: Vec<usize>,
}

impl Instance {
    pub fn prove(&self, o: &Opts) -> Result<Proof, String> {
        catch(|| self.pi.prove(&self.trace, &o.po())).and_then(|x| x)
    }
    pub fn n(&self) -> usize {
        self.trace.n_rows()
    }
}

/// Reference semantics of a statement over a complete (main + auxiliary)
/// trace: the list of violated conditions, written independently of the
/// repository's own evaluation code. `aux` is None when the AIR has none.
pub fn reference_violations(pi: &Pi, main: &Trace, aux: Option<&Trace>, ch: &[FE]) -> Vec<String> {
    let n = main.n_rows();
    let mut v = vec![];
    let x = |r: usize, c: usize| main.get(r % n, c);
    match pi {
        Pi::Fib(p) => {
            if x(0, 0) != p.a0 || x(1, 0) != p.a1 {
                v.push("initial".into());
            }
            for i in 0..n - 2 {
                if x(i + 2, 0) != x(i + 1, 0) + x(i, 0) {
                    v.push(format!("step {i}"));
                }
            }
        }
        Pi::Fib2(p) => {
            if x(0, 0) != p.a0 || x(0, 1) != p.a1 {
                v.push("initial".into());
            }
            for i in 0..n - 1 {
                if x(i + 1, 0) != x(i, 0) + x(i, 1) || x(i + 1, 1) != x(i, 1) + x(i + 1, 0) {
                    v.push(format!("step {i}"));
                }
            }
        }
        Pi::Quad(p) => {
            if x(0, 0) != p.a0 {
                v.push("initial".into());
            }
            for i in 0..n - 1 {
                if x(i + 1, 0) != x(i, 0) * x(i, 0) {
                    v.push(format!("step {i}"));
                }
            }
        }
        Pi::Rap(p) => {
            // the initial values are 1, 1 whatever the public inputs say (known finding of C03)
            if x(0, 0) != fe(1) || x(1, 0) != fe(1) {
                v.push("initial".into());
            }
            let lim = (p.steps + 1).saturating_sub(3);
            for i in 0..lim {
                if x(i + 2, 0) != x(i + 1, 0) + x(i, 0) {
                    v.push(format!("step {i}"));
                }
            }
            if let Some(a) = aux {
                let z = |r: usize| a.get(r % n, 0);
                if z(0) != fe(1) {
                    v.push("aux initial".into());
                }
                for i in 0..n - 1 {
                    if z(i + 1) * (x(i, 1) + ch[0]) != z(i) * (x(i, 0) + ch[0]) {
                        v.push(format!("aux step {i}"));
                    }
                }
            }
        }
        Pi::Dummy => {
            if x(0, 1) != fe(1) || x(1, 1) != fe(1) {
                v.push("initial".into());
            }
            for i in 0..n {
                if x(i, 0) * (x(i, 0) - fe(1)) != FE::zero() {
                    v.push(format!("bit {i}"));
                }
                if i + 2 < n && x(i + 2, 1) != x(i + 1, 1) + x(i, 1) {
                    v.push(format!("step {i}"));
                }
            }
        }
        Pi::Gen(p) => {
            let s = &p.spec;
            for ((c, r), val) in s.bnds.iter().zip(&p.bvals) {
                if x(*r, *c) != *val {
                    v.push(format!("boundary {c},{r}"));
                }
            }
            for (k, t) in s.trs.iter().enumerate() {
                for i in 0..n - t.e {
                    let mut acc = FE::zero();
                    for (co, vs) in &t.terms {
                        let mut q = fe_i(*co);
                        for (o, c) in vs {
                            q = q * x(i + s.offs[*o], *c);
                        }
                        acc = acc + q;
                    }
                    if x(i + s.offs[t.lead], t.col) != acc {
                        v.push(format!("transition {k} row {i}"));
                    }
                }
            }
            if let (true, Some(a)) = (s.aux, aux) {
                let z = |r: usize| a.get(r % n, 0);
                if z(0) != fe(1) {
                    v.push("aux initial".into());
                }
                for i in 0..n {
                    if z(i + 1) * (x(i, 1) + ch[0]) != z(i) * (x(i, 0) + ch[0]) {
                        v.push(format!("aux step {i}"));
                    }
                }
            }
        }
        Pi::Cairo(p) => {
            v = cairo::reference_violations(p, main, aux, ch);
        }
    }
    v
}
