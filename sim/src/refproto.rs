//! The proof protocol written a second time, apart from the repository's
//! prover and verifier: own Merkle trees, own composition, own folding, own
//! checks. What stays shared is the AIR (the statement being proved) and the
//! transcript. The prover has a plan of deviations; the verifier names every
//! check that fails.
use crate::core::*;
use crate::rng::Rng;
use crate::zoo::{GenAIR, Pi, Trace};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_crypto::merkle_tree::proof::Proof as Path;
use lambdaworks_math::fft::polynomial::FFTPoly;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::{ByteConversion, Deserializable};
use lambdaworks_stark::cairo::air::CairoAIR;
use lambdaworks_stark::starks::example::{
    dummy_air::DummyAIR, fibonacci_2_columns::Fibonacci2ColsAIR, fibonacci_rap::FibonacciRAP, quadratic_air::QuadraticAIR, simple_fibonacci::FibonacciAIR,
};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use lambdaworks_stark::starks::traits::AIR;
use serde::{Deserialize, Serialize};
use sha3::{Digest, Keccak256};

type Node = [u8; 32];

// ------------------------------------------------------------ building blocks

fn keccak(b: &[u8]) -> Node {
    Keccak256::digest(b).into()
}
fn leaf(v: &[FE]) -> Node {
    let mut b = vec![];
    for x in v {
        b.extend(x.to_bytes_be());
    }
    keccak(&b)
}
fn parent(a: &Node, b: &Node) -> Node {
    let mut v = a.to_vec();
    v.extend(b);
    keccak(&v)
}
/// levels[0] are the leaves, the last level is the root
struct Tree(Vec<Vec<Node>>);
impl Tree {
    fn new(mut l: Vec<Node>) -> Tree {
        let mut v = vec![];
        while l.len() > 1 {
            let up = l.chunks(2).map(|c| parent(&c[0], &c[1])).collect();
            v.push(l);
            l = up;
        }
        v.push(l);
        Tree(v)
    }
    fn root(&self) -> Node {
        self.0.last().unwrap()[0]
    }
    fn path(&self, mut i: usize) -> Path<Node> {
        let mut p = vec![];
        for l in &self.0[..self.0.len() - 1] {
            p.push(l[i ^ 1]);
            i /= 2;
        }
        Path { merkle_path: p }
    }
}
fn opens(root: &Node, p: &Path<Node>, mut i: usize, depth: usize, v: &[FE]) -> bool {
    let mut h = leaf(v);
    for s in &p.merkle_path {
        h = if i % 2 == 0 { parent(&h, s) } else { parent(s, &h) };
        i /= 2;
    }
    p.merkle_path.len() == depth && h == *root
}

fn root_of_unity(n: usize) -> FE {
    F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap()
}
fn coset(n: usize, off: &FE) -> Vec<FE> {
    let g = root_of_unity(n);
    let mut v = Vec::with_capacity(n);
    let mut x = *off;
    for _ in 0..n {
        v.push(x);
        x = x * g;
    }
    v
}
fn interpolate(v: &[FE]) -> Vec<FE> {
    let mut c = Polynomial::interpolate_fft(v).unwrap().coefficients().to_vec();
    c.resize(v.len(), FE::zero());
    c
}
fn interpolate_coset(v: &[FE], off: &FE) -> Vec<FE> {
    let mut c = interpolate(v);
    let i = off.inv();
    let mut p = FE::one();
    for x in c.iter_mut() {
        *x = *x * p;
        p = p * i;
    }
    c
}
/// values of a polynomial of less than `n` coefficients on a coset of size n
fn on_coset(c: &[FE], n: usize, off: &FE) -> Vec<FE> {
    let mut s = vec![FE::zero(); n];
    let mut p = FE::one();
    for (i, x) in c.iter().enumerate() {
        s[i % n] = s[i % n] + *x * p;
        p = p * *off;
    }
    let mut v = Polynomial::new(&s).evaluate_fft(1, Some(n)).unwrap();
    v.truncate(n);
    v
}
fn at(c: &[FE], x: &FE) -> FE {
    c.iter().rev().fold(FE::zero(), |a, k| a * *x + *k)
}
fn inverses(v: &[FE]) -> Vec<FE> {
    // Montgomery's trick
    let mut pre = vec![FE::one()];
    for x in v {
        pre.push(*pre.last().unwrap() * *x);
    }
    let mut inv = pre.last().unwrap().inv();
    let mut o = vec![FE::zero(); v.len()];
    for i in (0..v.len()).rev() {
        o[i] = inv * pre[i];
        inv = inv * v[i];
    }
    o
}
fn challenge(t: &mut DefaultTranscript) -> FE {
    let mut b = t.challenge();
    b[0] &= 7;
    FE::from_bytes_be(&b).unwrap()
}
fn challenges(t: &mut DefaultTranscript, n: usize) -> Vec<FE> {
    (0..n).map(|_| challenge(t)).collect()
}
/// trailing zero bits of the first eight bytes read as a big-endian number
fn work(c: &Node, nonce: u64) -> u32 {
    let mut d = c.to_vec();
    d.extend(nonce.to_le_bytes());
    let h = keccak(&d);
    let mut n = 0;
    for b in h[..8].iter().rev() {
        n += b.trailing_zeros();
        if *b != 0 {
            break;
        }
    }
    n
}
fn iotas(t: &DefaultTranscript, nonce: u64, q: usize, lde: usize) -> Vec<usize> {
    let mut t = t.clone();
    t.append(&nonce.to_be_bytes());
    (0..q)
        .map(|_| {
            let c = t.challenge();
            (u64::from_be_bytes(c[..8].try_into().unwrap()) as usize) % lde
        })
        .collect()
}
fn fold_at(u: &FE, s: &FE, zeta: &FE, x_inv: &FE, half: &FE) -> FE {
    (*u + *s) * *half + *zeta * (*u - *s) * *half * *x_inv
}
fn fold(e: &[FE], zeta: &FE, off: &FE) -> Vec<FE> {
    let h = e.len() / 2;
    let half = fe(2).inv();
    let xi = inverses(&coset(e.len(), off)[..h]);
    (0..h).map(|i| fold_at(&e[i], &e[i + h], zeta, &xi[i], &half)).collect()
}

/// What an AIR, a trace length and options fix about the protocol.
struct Setup<A: AIR<Field = F>> {
    air: A,
    n: usize,
    b: usize,
    lde: usize,
    layers: usize,
    off: FE,
    g: FE,
    q: usize,
    grind: u8,
}
impl<A: AIR<Field = F>> Setup<A> {
    fn new(n: usize, pi: &A::PublicInputs, o: &Opts) -> Self {
        let air = A::new(n, pi, &o.po());
        let b = o.b as usize;
        Setup { air, n, b, lde: n * b, layers: n.trailing_zeros() as usize, off: fe(o.c), g: root_of_unity(n), q: o.q, grind: o.g }
    }
    fn cols(&self) -> usize {
        self.air.context().trace_columns
    }
    fn aux(&self) -> usize {
        self.air.number_auxiliary_rap_columns()
    }
    fn offs(&self) -> Vec<usize> {
        self.air.context().transition_offsets.clone()
    }
    /// the composition at x of the values `rows` (one row per offset)
    fn composition(&self, x: &FE, rows: &[Vec<FE>], rap: &A::RAPChallenges, co: &Coeffs) -> FE {
        let ctx = self.air.context();
        let bound = self.air.composition_poly_degree_bound();
        let n = self.n;
        let mut acc = FE::zero();
        for (i, c) in self.air.boundary_constraints(rap).constraints.iter().enumerate() {
            let q = (rows[0][c.col] - c.value) * (*x - self.g.pow(c.step)).inv();
            acc = acc + q * (co.ba[i] * x.pow(bound - n) + co.bb[i]);
        }
        let frame = Frame::new(rows.concat(), rows[0].len());
        let zer = (x.pow(n) - FE::one()).inv();
        for (i, v) in self.air.compute_transition(&frame, rap).iter().enumerate() {
            let mut q = *v * zer;
            for k in 1..=ctx.transition_exemptions[i] {
                q = q * (*x - self.g.pow(n - k));
            }
            let adj = bound - n * (ctx.transition_degrees[i] - 1);
            acc = acc + q * (co.ta[i] * x.pow(adj) + co.tb[i]);
        }
        acc
    }
    fn coeffs(&self, t: &mut DefaultTranscript, rap: &A::RAPChallenges) -> Coeffs {
        let nb = self.air.boundary_constraints(rap).constraints.len();
        let nt = self.air.context().num_transition_constraints;
        Coeffs { ba: challenges(t, nb), bb: challenges(t, nb), ta: challenges(t, nt), tb: challenges(t, nt) }
    }
    fn z(&self, t: &mut DefaultTranscript) -> FE {
        loop {
            let z = challenge(t);
            // in the trace domain or the evaluation coset
            if z.pow(self.n) != FE::one() && (z * self.off.inv()).pow(self.lde) != FE::one() {
                return z;
            }
        }
    }
}
struct Coeffs {
    ba: Vec<FE>,
    bb: Vec<FE>,
    ta: Vec<FE>,
    tb: Vec<FE>,
}

// ---------------------------------------------------------------- the prover

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cell {
    H1,
    H2,
    T(usize, usize),
}
/// Which single check is left to catch the prover.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hide {
    /// no deviation after the forged values
    Nothing,
    /// commits to a DEEP polynomial without the forged term
    Deep,
    /// ... and opens composition values that make up for it
    Composition,
    /// ... and opens a trace value that makes up for it (column)
    Column(usize),
    /// ... and opens a value of layer 0 that makes up for it (and its partner)
    Claim,
    /// commits to another polynomial after layer k
    Switch(usize),
    /// ... and opens partners that make up for it
    Sym(usize),
    /// commits to another polynomial at layer k and opens the right value at
    /// the one position it then aims the query at
    Point(usize),
    /// looks for positions where nothing shows, without the work
    Grind,
    /// answers fewer queries (how many)
    Fewer(usize),
    /// answers every query with one good position
    Elsewhere,
    /// one good position answered for every query, claimed to be theirs
    Extra(usize),
    /// no commitment for the auxiliary columns
    NoAuxRoot,
    /// no authentication path for the auxiliary columns
    NoAuxPath,
    /// authentication paths for the first k layers only
    FewPaths(usize),
    FewSymPaths(usize),
    /// a wrong last value
    Last,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// commits to another composition polynomial of low degree
    pub random_h: bool,
    /// an out-of-domain value that is not what the commitment says
    pub forge: Option<Cell>,
    /// chosen to satisfy the constraint equation at z
    pub solve: bool,
    pub hide: Hide,
    pub seed: u64,
}
impl Plan {
    pub fn honest() -> Plan {
        Plan { random_h: false, forge: None, solve: true, hide: Hide::Nothing, seed: 0 }
    }
}

fn random_low(r: &mut Rng, n: usize) -> Vec<FE> {
    (0..n).map(|_| fe_rand(r)).collect()
}

fn prove_air<A: AIR<Field = F>>(main: &Trace, aux_given: Option<&Trace>, pi: &A::PublicInputs, o: &Opts, plan: &Plan) -> Result<Proof, String> {
    let s = Setup::<A>::new(main.n_rows(), pi, o);
    let mut r = Rng::new(plan.seed);
    let (n, lde, off) = (s.n, s.lde, s.off);
    let mut t = DefaultTranscript::new();
    let columns = |tr: &Trace| -> Vec<Vec<FE>> { (0..tr.n_cols).map(|c| (0..n).map(|i| tr.get(i, c)).collect()).collect() };
    // round 1
    let mut polys: Vec<Vec<FE>> = columns(main).iter().map(|c| interpolate(c)).collect();
    let mut values: Vec<Vec<FE>> = polys.iter().map(|c| on_coset(c, lde, &off)).collect();
    let commit_rows = |v: &[Vec<FE>]| Tree::new((0..lde).map(|i| leaf(&v.iter().map(|c| c[i]).collect::<Vec<_>>())).collect());
    let main_tree = commit_rows(&values);
    let n_main = polys.len();
    t.append(&main_tree.root());
    let rap = s.air.build_rap_challenges(&mut t);
    let mut trees = vec![main_tree];
    if s.aux() > 0 {
        let own;
        let aux = match aux_given {
            Some(a) => a,
            None => {
                own = s.air.build_auxiliary_trace(main, &rap);
                &own
            }
        };
        let p: Vec<Vec<FE>> = columns(aux).iter().map(|c| interpolate(c)).collect();
        let v: Vec<Vec<FE>> = p.iter().map(|c| on_coset(c, lde, &off)).collect();
        if plan.hide != Hide::NoAuxRoot {
            let tree = commit_rows(&v);
            t.append(&tree.root());
            trees.push(tree);
        }
        polys.extend(p);
        values.extend(v);
    }
    if polys.len() != s.cols() {
        return Err("columns".into());
    }
    // round 2
    let co = s.coeffs(&mut t, &rap);
    let xs = coset(lde, &off);
    let offs = s.offs();
    let h_coeffs: Vec<FE> = if plan.random_h {
        random_low(&mut r, 2 * n)
    } else {
        let ev: Vec<FE> = (0..lde)
            .map(|i| {
                let rows: Vec<Vec<FE>> = offs.iter().map(|k| values.iter().map(|c| c[(i + k * s.b) % lde]).collect()).collect();
                s.composition(&xs[i], &rows, &rap, &co)
            })
            .collect();
        interpolate_coset(&ev, &off)
    };
    let h1: Vec<FE> = h_coeffs.iter().step_by(2).cloned().collect();
    let h2: Vec<FE> = h_coeffs.iter().skip(1).step_by(2).cloned().collect();
    let (h1v, h2v) = (on_coset(&h1, lde, &off), on_coset(&h2, lde, &off));
    let h_tree = Tree::new((0..lde).map(|i| leaf(&[h1v[i], h2v[i]])).collect());
    t.append(&h_tree.root());
    // round 3
    let z = s.z(&mut t);
    let z2 = z * z;
    let (mut h1z, mut h2z) = (at(&h1, &z2), at(&h2, &z2));
    let pts: Vec<FE> = offs.iter().map(|k| z * s.g.pow(*k)).collect();
    let mut rows: Vec<Vec<FE>> = pts.iter().map(|x| polys.iter().map(|p| at(p, x)).collect()).collect();
    if let Some(c) = &plan.forge {
        let comp = |rows: &[Vec<FE>]| s.composition(&z, rows, &rap, &co);
        let wild = fe_rand(&mut r);
        match c {
            Cell::H1 => h1z = if plan.solve { comp(&rows) - z * h2z } else { wild },
            Cell::H2 => h2z = if plan.solve { (comp(&rows) - h1z) * z.inv() } else { wild },
            Cell::T(i, j) => {
                let (i, j) = (i % rows.len(), j % rows[0].len());
                let mut f = |v: FE| {
                    rows[i][j] = v;
                    comp(&rows)
                };
                let (f0, f1, f2) = (f(fe(0)), f(fe(1)), f(fe(2)));
                let target = h1z + z * h2z;
                rows[i][j] = wild;
                if plan.solve {
                    if f2 + f0 != f1 + f1 || f1 == f0 {
                        return Err("not solvable for this cell".into());
                    }
                    rows[i][j] = (target - f0) * (f1 - f0).inv();
                }
            }
        }
    }
    t.append(&h1z.to_bytes_be());
    t.append(&h2z.to_bytes_be());
    for row in &rows {
        for v in row {
            t.append(&v.to_bytes_be());
        }
    }
    // round 4
    let gamma = challenges(&mut t, 2);
    let gam: Vec<Vec<FE>> = (0..s.cols()).map(|_| challenges(&mut t, offs.len())).collect();
    let dz2 = inverses(&xs.iter().map(|x| *x - z2).collect::<Vec<_>>());
    let dz: Vec<Vec<FE>> = pts.iter().map(|p| inverses(&xs.iter().map(|x| *x - *p).collect::<Vec<_>>())).collect();
    let forged = |c: Cell| match (&plan.forge, &c) {
        (Some(Cell::T(i, j)), Cell::T(a, b)) => i % offs.len() == *a && j % s.cols() == *b,
        (Some(x), _) => *x == c,
        _ => false,
    };
    // `clean` leaves out what was forged
    let deep = |clean: bool| -> Vec<FE> {
        (0..lde)
            .map(|i| {
                let mut a = FE::zero();
                if !(clean && forged(Cell::H1)) {
                    a = a + gamma[0] * (h1v[i] - h1z) * dz2[i];
                }
                if !(clean && forged(Cell::H2)) {
                    a = a + gamma[1] * (h2v[i] - h2z) * dz2[i];
                }
                for (c, v) in values.iter().enumerate() {
                    for k in 0..offs.len() {
                        if !(clean && forged(Cell::T(k, c))) {
                            a = a + gam[c][k] * (v[i] - rows[k][c]) * dz[k][i];
                        }
                    }
                }
                a
            })
            .collect()
    };
    let full = deep(false);
    let adapts = matches!(plan.hide, Hide::Deep | Hide::Composition | Hide::Column(_) | Hide::Claim | Hide::NoAuxRoot | Hide::NoAuxPath);
    let mut cur = if adapts {
        deep(true)
    } else if plan.hide == Hide::Point(0) {
        on_coset(&random_low(&mut r, n), lde, &off)
    } else {
        full.clone()
    };
    let count = s.layers + if let Hide::Extra(e) = plan.hide { e } else { 0 };
    let (mut layers, mut ltrees, mut zetas, mut offk) = (vec![], vec![], vec![], vec![off]);
    let aim = r.us(lde);
    // what the aimed-at position shows at layer k instead of what is committed
    let mut shown: Option<FE> = if plan.hide == Hide::Point(0) { Some(full[aim]) } else { None };
    let half = fe(2).inv();
    for k in 0..count {
        let tree = Tree::new(cur.iter().map(|v| leaf(&[*v])).collect());
        t.append(&tree.root());
        let zeta = challenge(&mut t);
        let o_k = offk[k];
        let mut next = fold(&cur, &zeta, &o_k);
        let o_n = o_k * o_k;
        let deg = (n >> (k + 1)).max(1);
        if plan.hide == Hide::Point(k) {
            let size = cur.len();
            let (i, j) = (aim % size, (aim + size / 2) % size);
            let x = o_k * root_of_unity(size).pow(i);
            let v = fold_at(&shown.unwrap(), &cur[j], &zeta, &x.inv(), &half);
            let d = v - next[aim % next.len()];
            next.iter_mut().for_each(|e| *e = *e + d);
        }
        if plan.hide == Hide::Point(k + 1) && k + 1 < count {
            shown = Some(next[aim % next.len()]);
            next = on_coset(&random_low(&mut r, deg), next.len(), &o_n);
        }
        if plan.hide == Hide::Switch(k) || plan.hide == Hide::Sym(k) || (plan.hide == Hide::Claim && k == 0) || matches!(plan.hide, Hide::FewPaths(m) | Hide::FewSymPaths(m) if m == k) {
            next = on_coset(&random_low(&mut r, deg), next.len(), &o_n);
        }
        layers.push(cur);
        ltrees.push(tree);
        zetas.push(zeta);
        offk.push(o_n);
        cur = next;
    }
    // the value most positions fold to, or the one aimed at
    let mut last = cur[0];
    let mut best = 0;
    for v in &cur {
        let c = cur.iter().filter(|w| *w == v).count();
        if c > best {
            best = c;
            last = *v;
        }
    }
    if matches!(plan.hide, Hide::Point(_)) {
        last = cur[aim % cur.len()];
    }
    if plan.hide == Hide::Last {
        last = last + fe_rand(&mut r);
    }
    t.append(&last.to_bytes_be());
    // grinding, and looking for a favourable set of queries
    let c = t.challenge();
    let good = |i: usize| cur[i % cur.len()] == last;
    let want: Box<dyn Fn(u64) -> bool> = match &plan.hide {
        Hide::Grind => Box::new(|x| work(&c, x) < s.grind as u32 && iotas(&t, x, s.q, lde).iter().all(|i| good(*i))),
        Hide::Fewer(m) => Box::new(|x| work(&c, x) >= s.grind as u32 && iotas(&t, x, s.q, lde).iter().take(*m).all(|i| good(*i))),
        Hide::Point(k) => {
            let (size, t, c, s) = (lde >> k, &t, &c, &s);
            Box::new(move |x| work(c, x) >= s.grind as u32 && iotas(t, x, s.q, lde).iter().all(|i| i % size == aim % size))
        }
        _ => Box::new(|x| work(&c, x) >= s.grind as u32),
    };
    let nonce = (0..20000u64).find(|x| want(*x));
    drop(want);
    let Some(nonce) = nonce else { return Err("no favourable nonce".into()) };
    let mut at_i = iotas(&t, nonce, s.q, lde);
    if let Hide::Fewer(m) = plan.hide {
        at_i.truncate(m);
    }
    if plan.hide == Hide::Elsewhere {
        let Some(p) = (0..lde).find(|i| good((i + aim) % lde)) else { return Err("no good position".into()) };
        at_i = vec![(p + aim) % lde; s.q];
    }
    // openings
    let mut query_list = vec![];
    let mut deep_poly_openings = vec![];
    for i in &at_i {
        let i = *i;
        let mut row: Vec<FE> = values.iter().map(|v| v[i]).collect();
        let (mut a1, mut a2) = (h1v[i], h2v[i]);
        let lack = layers[0][i] - full[i];
        if lack != FE::zero() {
            match plan.hide {
                Hide::Composition => {
                    if r.chance(1, 2) {
                        a1 = a1 + lack * (gamma[0] * dz2[i]).inv()
                    } else {
                        a2 = a2 + lack * (gamma[1] * dz2[i]).inv()
                    }
                }
                Hide::Column(_) | Hide::NoAuxRoot | Hide::NoAuxPath => {
                    let c = match plan.hide {
                        Hide::Column(c) => c % s.cols(),
                        _ => n_main + r.us(s.cols() - n_main),
                    };
                    let w = (0..offs.len()).fold(FE::zero(), |w, k| w + gam[c][k] * dz[k][i]);
                    row[c] = row[c] + lack * w.inv();
                }
                _ => {}
            }
        }
        let mut proofs: Vec<_> = trees.iter().map(|t| t.path(i)).collect();
        if plan.hide == Hide::NoAuxPath {
            proofs.truncate(1);
        }
        deep_poly_openings.push(DeepPolynomialOpenings {
            lde_composition_poly_proof: h_tree.path(i),
            lde_composition_poly_even_evaluation: a1,
            lde_composition_poly_odd_evaluation: a2,
            lde_trace_merkle_proofs: proofs,
            lde_trace_evaluations: row,
        });
        let mut d = FriDecommitment { layers_auth_paths_sym: vec![], layers_evaluations_sym: vec![], layers_auth_paths: vec![], layers_evaluations: vec![] };
        for k in 0..count {
            let size = layers[k].len();
            let (p, q) = (i % size, (i + size / 2) % size);
            let mut u = layers[k][p];
            let mut v = layers[k][q];
            let x = offk[k] * root_of_unity(size).pow(p);
            if plan.hide == Hide::Claim && k == 0 {
                u = full[i];
            }
            if plan.hide == Hide::Point(k) {
                u = shown.unwrap();
            }
            if plan.hide == Hide::Sym(k) || (plan.hide == Hide::Claim && k == 0) {
                let want = if k + 1 < count { layers[k + 1][p % (size / 2)] } else { last };
                let m = zetas[k] * x.inv();
                v = (want - u * half * (FE::one() + m)) * (half * (FE::one() - m)).inv();
            }
            d.layers_evaluations.push(u);
            d.layers_evaluations_sym.push(v);
            d.layers_auth_paths.push(ltrees[k].path(p));
            d.layers_auth_paths_sym.push(ltrees[k].path(q));
        }
        match plan.hide {
            Hide::FewPaths(m) => d.layers_auth_paths.truncate(m),
            Hide::FewSymPaths(m) => d.layers_auth_paths_sym.truncate(m),
            _ => {}
        }
        query_list.push(d);
    }
    Ok(StarkProof {
        trace_length: n,
        lde_trace_merkle_roots: trees.iter().map(|t| t.root()).collect(),
        trace_ood_frame_evaluations: Frame::new(rows.concat(), rows[0].len()),
        composition_poly_root: h_tree.root(),
        composition_poly_even_ood_evaluation: h1z,
        composition_poly_odd_ood_evaluation: h2z,
        fri_layers_merkle_roots: ltrees.iter().map(|t| t.root()).collect(),
        fri_last_value: last,
        query_list,
        deep_poly_openings,
        nonce,
    })
}

// -------------------------------------------------------------- the verifier

/// The checks a proof fails; empty if it has to be accepted.
fn verify_air<A: AIR<Field = F>>(p: &Proof, pi: &A::PublicInputs, o: &Opts) -> Vec<String> {
    let mut bad: Vec<String> = vec![];
    let n = p.trace_length;
    if n < 2 || !n.is_power_of_two() || (n as u128 * o.b as u128) >= 1 << 40 {
        return vec!["trace length".into()];
    }
    let s = Setup::<A>::new(n, pi, o);
    let (lde, off) = (s.lde, s.off);
    let fr = &p.trace_ood_frame_evaluations;
    let offs = s.offs();
    // shape
    if p.lde_trace_merkle_roots.len() != 1 + (s.aux() > 0) as usize {
        bad.push("number of trace commitments".into());
    }
    if fr.num_columns() != s.cols() || fr.num_rows() != offs.len() {
        bad.push("out-of-domain frame".into());
    }
    if p.fri_layers_merkle_roots.len() != s.layers {
        bad.push("number of layers".into());
    }
    if p.query_list.len() < s.q || p.deep_poly_openings.len() < s.q {
        bad.push("number of queries".into());
    }
    if p.query_list.iter().any(|d| {
        let l = [d.layers_evaluations.len(), d.layers_evaluations_sym.len(), d.layers_auth_paths.len(), d.layers_auth_paths_sym.len()];
        l.iter().any(|x| *x != p.fri_layers_merkle_roots.len())
    }) {
        bad.push("openings of layers".into());
    }
    if p.deep_poly_openings.iter().any(|d| d.lde_trace_evaluations.len() != s.cols() || d.lde_trace_merkle_proofs.len() != p.lde_trace_merkle_roots.len()) {
        bad.push("openings of the trace".into());
    }
    if !bad.is_empty() {
        return bad;
    }
    // challenges
    let mut t = DefaultTranscript::new();
    t.append(&p.lde_trace_merkle_roots[0]);
    let rap = s.air.build_rap_challenges(&mut t);
    if s.aux() > 0 {
        t.append(&p.lde_trace_merkle_roots[1]);
    }
    let co = s.coeffs(&mut t, &rap);
    t.append(&p.composition_poly_root);
    let z = s.z(&mut t);
    let (h1z, h2z) = (p.composition_poly_even_ood_evaluation, p.composition_poly_odd_ood_evaluation);
    t.append(&h1z.to_bytes_be());
    t.append(&h2z.to_bytes_be());
    let rows: Vec<Vec<FE>> = (0..offs.len()).map(|i| fr.get_row(i).to_vec()).collect();
    for v in rows.iter().flatten() {
        t.append(&v.to_bytes_be());
    }
    let gamma = challenges(&mut t, 2);
    let gam: Vec<Vec<FE>> = (0..s.cols()).map(|_| challenges(&mut t, offs.len())).collect();
    let zetas: Vec<FE> = p
        .fri_layers_merkle_roots
        .iter()
        .map(|r| {
            t.append(r);
            challenge(&mut t)
        })
        .collect();
    t.append(&p.fri_last_value.to_bytes_be());
    let c = t.challenge();
    if work(&c, p.nonce) < s.grind as u32 {
        bad.push("proof of work".into());
    }
    if h1z + z * h2z != s.composition(&z, &rows, &rap, &co) {
        bad.push("constraints at z".into());
    }
    let n_main = s.cols() - s.aux();
    let depth = lde.trailing_zeros() as usize;
    let half = fe(2).inv();
    let g_lde = root_of_unity(lde);
    for (j, i) in iotas(&t, p.nonce, s.q, lde).into_iter().enumerate() {
        let (d, f) = (&p.deep_poly_openings[j], &p.query_list[j]);
        let ev = &d.lde_trace_evaluations;
        if !opens(&p.composition_poly_root, &d.lde_composition_poly_proof, i, depth, &[d.lde_composition_poly_even_evaluation, d.lde_composition_poly_odd_evaluation]) {
            bad.push("composition opening".into());
        }
        if !opens(&p.lde_trace_merkle_roots[0], &d.lde_trace_merkle_proofs[0], i, depth, &ev[..n_main]) {
            bad.push("main trace opening".into());
        }
        if s.aux() > 0 && !opens(&p.lde_trace_merkle_roots[1], &d.lde_trace_merkle_proofs[1], i, depth, &ev[n_main..]) {
            bad.push("auxiliary trace opening".into());
        }
        let x = off * g_lde.pow(i);
        let di = (x - z * z).inv();
        let mut v = gamma[0] * (d.lde_composition_poly_even_evaluation - h1z) * di + gamma[1] * (d.lde_composition_poly_odd_evaluation - h2z) * di;
        for (k, o) in offs.iter().enumerate() {
            let di = (x - z * s.g.pow(*o)).inv();
            for c in 0..s.cols() {
                v = v + gam[c][k] * (ev[c] - rows[k][c]) * di;
            }
        }
        if v != f.layers_evaluations[0] {
            bad.push("DEEP composition".into());
        }
        let mut xk = x;
        for k in 0..s.layers {
            let size = lde >> k;
            let (a, b) = (i % size, (i + size / 2) % size);
            let (u, w) = (f.layers_evaluations[k], f.layers_evaluations_sym[k]);
            if !opens(&p.fri_layers_merkle_roots[k], &f.layers_auth_paths[k], a, depth - k, &[u]) {
                bad.push(format!("layer {k} opening"));
            }
            if !opens(&p.fri_layers_merkle_roots[k], &f.layers_auth_paths_sym[k], b, depth - k, &[w]) {
                bad.push(format!("layer {k} partner opening"));
            }
            let v = fold_at(&u, &w, &zetas[k], &xk.inv(), &half);
            if k + 1 < s.layers {
                if v != f.layers_evaluations[k + 1] {
                    bad.push(format!("fold {k}"));
                }
            } else if v != p.fri_last_value {
                bad.push("last value".into());
            }
            xk = xk * xk;
        }
    }
    bad.sort();
    bad.dedup();
    bad
}

pub fn prove(pi: &Pi, main: &Trace, aux: Option<&Trace>, o: &Opts, plan: &Plan) -> Result<Proof, String> {
    catch(|| match pi {
        Pi::Fib(p) => prove_air::<FibonacciAIR<F>>(main, aux, p, o, plan),
        Pi::Fib2(p) => prove_air::<Fibonacci2ColsAIR<F>>(main, aux, p, o, plan),
        Pi::Quad(p) => prove_air::<QuadraticAIR<F>>(main, aux, p, o, plan),
        Pi::Rap(p) => prove_air::<FibonacciRAP<F>>(main, aux, p, o, plan),
        Pi::Dummy => prove_air::<DummyAIR>(main, aux, &(), o, plan),
        Pi::Gen(p) => prove_air::<GenAIR>(main, aux, p, o, plan),
        Pi::Cairo(p) => prove_air::<CairoAIR>(main, aux, p, o, plan),
    })
    .and_then(|x| x)
}
pub fn verify(pi: &Pi, p: &Proof, o: &Opts) -> Result<Vec<String>, String> {
    catch(|| match pi {
        Pi::Fib(x) => verify_air::<FibonacciAIR<F>>(p, x, o),
        Pi::Fib2(x) => verify_air::<Fibonacci2ColsAIR<F>>(p, x, o),
        Pi::Quad(x) => verify_air::<QuadraticAIR<F>>(p, x, o),
        Pi::Rap(x) => verify_air::<FibonacciRAP<F>>(p, x, o),
        Pi::Dummy => verify_air::<DummyAIR>(p, &(), o),
        Pi::Gen(x) => verify_air::<GenAIR>(p, x, o),
        Pi::Cairo(x) => verify_air::<CairoAIR>(p, x, o),
    })
}
/// Numbers of boundary and transition constraints.
/// Does the proof file (length, proof, public inputs) pass every check of the
/// protocol with the constraints this tree has?
pub fn follows_protocol(file: &[u8]) -> bool {
    let Some(n) = file.get(..8).map(|x| u64::from_be_bytes(x.try_into().unwrap()) as usize) else { return false };
    if n > file.len() - 8 {
        return false;
    }
    let (Ok(p), Ok(Ok(pi))) = (
        crate::layout::Read::new(&file[8..8 + n], true).proof(),
        catch(|| lambdaworks_stark::cairo::air::PublicInputs::deserialize(&file[8 + n..])),
    ) else {
        return false;
    };
    matches!(verify(&Pi::Cairo(pi), &p, &Opts::test()), Ok(f) if f.is_empty())
}
pub fn counts(pi: &Pi, n: usize, o: &Opts) -> (usize, usize) {
    fn of<A: AIR<Field = F>>(n: usize, pi: &A::PublicInputs, o: &Opts) -> (usize, usize) {
        let air = A::new(n, pi, &o.po());
        let rap = air.build_rap_challenges(&mut DefaultTranscript::new());
        (air.boundary_constraints(&rap).constraints.len(), air.context().num_transition_constraints)
    }
    match pi {
        Pi::Fib(x) => of::<FibonacciAIR<F>>(n, x, o),
        Pi::Fib2(x) => of::<Fibonacci2ColsAIR<F>>(n, x, o),
        Pi::Quad(x) => of::<QuadraticAIR<F>>(n, x, o),
        Pi::Rap(x) => of::<FibonacciRAP<F>>(n, x, o),
        Pi::Dummy => of::<DummyAIR>(n, &(), o),
        Pi::Gen(x) => of::<GenAIR>(n, x, o),
        Pi::Cairo(x) => of::<CairoAIR>(n, x, o),
    }
}
