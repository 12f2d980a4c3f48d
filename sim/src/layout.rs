//! The stored form of proofs and public inputs, written from its description:
//! every number, where it is, and what it says.
use crate::core::*;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};

#[derive(Default, Clone)]
pub struct Bytes {
    pub b: Vec<u8>,
    /// (offset, what) of every 8-byte number
    pub nums: Vec<(usize, &'static str)>,
    /// every place where one value ends and the next begins
    pub edges: Vec<usize>,
    /// (offset, length) of every field element and commitment
    pub cells: Vec<(usize, usize)>,
}
impl Bytes {
    fn edge(&mut self) {
        self.edges.push(self.b.len());
    }
    pub fn num(&mut self, what: &'static str, v: u64) {
        self.edge();
        self.nums.push((self.b.len(), what));
        self.b.extend(v.to_be_bytes());
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.edge();
        if v.len() == 32 {
            self.cells.push((self.b.len(), 32));
        }
        self.b.extend(v);
    }
    fn felt(&mut self, x: &FE) {
        self.raw(&x.to_bytes_be());
    }
    fn path(&mut self, p: &lambdaworks_crypto::merkle_tree::proof::Proof<[u8; 32]>) {
        self.num("path length", p.merkle_path.len() as u64);
        p.merkle_path.iter().for_each(|c| self.raw(c));
    }
    /// `inner` preceded by its length
    pub fn nest(&mut self, what: &'static str, inner: Bytes) {
        self.num(what, inner.b.len() as u64);
        self.append(inner);
    }
    pub fn append(&mut self, inner: Bytes) {
        let o = self.b.len();
        self.nums.extend(inner.nums.into_iter().map(|(a, w)| (a + o, w)));
        self.edges.extend(inner.edges.into_iter().map(|a| a + o));
        self.cells.extend(inner.cells.into_iter().map(|(a, l)| (a + o, l)));
        self.b.extend(inner.b);
    }
}

pub fn frame(p: &Proof) -> Bytes {
    let mut o = Bytes::default();
    let d = frame_data(&p.trace_ood_frame_evaluations);
    o.num("frame values", d.len() as u64);
    o.num("frame value length", if d.is_empty() { 0 } else { 32 });
    d.iter().for_each(|x| o.felt(x));
    o.num("frame width", p.trace_ood_frame_evaluations.num_columns() as u64);
    o
}
pub fn query(q: &lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment<F>) -> Bytes {
    let mut o = Bytes::default();
    o.num("partner paths", q.layers_auth_paths_sym.len() as u64);
    q.layers_auth_paths_sym.iter().for_each(|a| o.path(a));
    o.num("layer value length", 32);
    o.num("partner values", q.layers_evaluations_sym.len() as u64);
    q.layers_evaluations_sym.iter().for_each(|a| o.felt(a));
    o.num("layer values", q.layers_evaluations.len() as u64);
    q.layers_evaluations.iter().for_each(|a| o.felt(a));
    o.num("layer paths", q.layers_auth_paths.len() as u64);
    q.layers_auth_paths.iter().for_each(|a| o.path(a));
    o
}
pub fn opening(d: &lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings<F>) -> Bytes {
    let mut o = Bytes::default();
    o.path(&d.lde_composition_poly_proof);
    o.num("opening value length", 32);
    o.felt(&d.lde_composition_poly_even_evaluation);
    o.felt(&d.lde_composition_poly_odd_evaluation);
    o.num("trace paths", d.lde_trace_merkle_proofs.len() as u64);
    d.lde_trace_merkle_proofs.iter().for_each(|a| o.path(a));
    o.num("trace values", d.lde_trace_evaluations.len() as u64);
    d.lde_trace_evaluations.iter().for_each(|a| o.felt(a));
    o
}
pub fn proof(p: &Proof) -> Bytes {
    let mut o = Bytes::default();
    o.num("trace length", p.trace_length as u64);
    o.num("trace roots", p.lde_trace_merkle_roots.len() as u64);
    p.lde_trace_merkle_roots.iter().for_each(|c| o.raw(c));
    o.nest("frame length", frame(p));
    o.raw(&p.composition_poly_root);
    o.num("value length", 32);
    o.felt(&p.composition_poly_even_ood_evaluation);
    o.felt(&p.composition_poly_odd_ood_evaluation);
    o.num("layer roots", p.fri_layers_merkle_roots.len() as u64);
    p.fri_layers_merkle_roots.iter().for_each(|c| o.raw(c));
    o.felt(&p.fri_last_value);
    o.num("queries", p.query_list.len() as u64);
    p.query_list.iter().for_each(|q| o.nest("query length", query(q)));
    o.num("openings", p.deep_poly_openings.len() as u64);
    p.deep_poly_openings.iter().for_each(|q| o.nest("opening length", opening(q)));
    o.num("nonce", p.nonce);
    o.edge();
    o
}
/// Segments in the order of their codes, memory in the order of its addresses.
pub fn public_inputs(p: &PublicInputs) -> Bytes {
    let mut o = Bytes::default();
    o.num("value length", 32);
    for f in [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final] {
        o.felt(f);
    }
    for r in [&p.range_check_min, &p.range_check_max] {
        match r {
            None => o.raw(&[0]),
            Some(v) => {
                o.raw(&[1]);
                o.raw(&v.to_be_bytes());
            }
        }
    }
    o.num("segments", p.memory_segments.len() as u64);
    for (code, k) in [(0u8, MemorySegment::RangeCheck), (1, MemorySegment::Output)] {
        if let Some(r) = p.memory_segments.get(&k) {
            o.raw(&[code]);
            o.num("segment start", r.start);
            o.num("segment end", r.end);
        }
    }
    o.num("memory", p.public_memory.len() as u64);
    let mut m: Vec<([u8; 32], FE)> = p
        .public_memory
        .iter()
        .map(|(a, v)| {
            let mut k = [0; 32];
            k.copy_from_slice(&a.to_bytes_be());
            (k, *v)
        })
        .collect();
    m.sort_by_key(|x| x.0);
    for (a, v) in m {
        o.raw(&a);
        o.felt(&v);
    }
    o.num("steps", p.num_steps as u64);
    o.edge();
    o
}

/// What bytes say, read independently. `strict` refuses whatever the writers
/// never write: other value lengths, values outside the field, bytes left over,
/// segments or addresses repeated.
pub struct Read<'a> {
    b: &'a [u8],
    pub strict: bool,
}
type R<T> = Result<T, String>;
/// the order of the field
const ORDER: [u8; 32] = {
    let mut o = [0u8; 32];
    o[0] = 8;
    o[7] = 17;
    o[31] = 1;
    o
};
impl<'a> Read<'a> {
    pub fn new(b: &'a [u8], strict: bool) -> Self {
        Read { b, strict }
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > self.b.len() as u64 {
            return Err("too short".into());
        }
        let (a, b) = self.b.split_at(n as usize);
        self.b = b;
        Ok(a)
    }
    fn num(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn felt(&mut self, len: u64) -> R<FE> {
        let x = self.take(len)?;
        if x.len() < 32 {
            return Err("short value".into());
        }
        if self.strict && (x.len() != 32 || x >= &ORDER[..]) {
            return Err("not canonical".into());
        }
        FE::from_bytes_be(&x[..32]).map_err(|e| format!("{e:?}"))
    }
    fn felts(&mut self, len: u64) -> R<Vec<FE>> {
        let n = self.num()?;
        let mut o = vec![];
        for _ in 0..n {
            o.push(self.felt(len)?);
        }
        Ok(o)
    }
    fn com(&mut self) -> R<[u8; 32]> {
        Ok(self.take(32)?.try_into().unwrap())
    }
    fn coms(&mut self) -> R<Vec<[u8; 32]>> {
        let n = self.num()?;
        let mut o = vec![];
        for _ in 0..n {
            o.push(self.com()?);
        }
        Ok(o)
    }
    fn paths(&mut self) -> R<Vec<lambdaworks_crypto::merkle_tree::proof::Proof<[u8; 32]>>> {
        let n = self.num()?;
        let mut o = vec![];
        for _ in 0..n {
            o.push(lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: self.coms()? });
        }
        Ok(o)
    }
    fn end(&self) -> R<()> {
        if self.strict && !self.b.is_empty() {
            return Err("bytes left".into());
        }
        Ok(())
    }
    fn vlen(&mut self) -> R<u64> {
        let l = self.num()?;
        if self.strict && l != 32 {
            return Err("value length".into());
        }
        Ok(l)
    }
    pub fn frame(mut self) -> R<lambdaworks_stark::starks::frame::Frame<F>> {
        let n = self.num()?;
        let l = self.num()?;
        if self.strict && l != if n == 0 { 0 } else { 32 } {
            return Err("value length".into());
        }
        let mut d = vec![];
        for _ in 0..n {
            d.push(self.felt(l)?);
        }
        let w = self.num()?;
        self.end()?;
        Ok(lambdaworks_stark::starks::frame::Frame::new(d, w as usize))
    }
    pub fn query(mut self) -> R<lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment<F>> {
        let layers_auth_paths_sym = self.paths()?;
        let l = self.vlen()?;
        let layers_evaluations_sym = self.felts(l)?;
        let layers_evaluations = self.felts(l)?;
        let layers_auth_paths = self.paths()?;
        self.end()?;
        Ok(lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment { layers_auth_paths_sym, layers_evaluations_sym, layers_auth_paths, layers_evaluations })
    }
    pub fn opening(mut self) -> R<lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings<F>> {
        let lde_composition_poly_proof = lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: self.coms()? };
        let l = self.vlen()?;
        let lde_composition_poly_even_evaluation = self.felt(l)?;
        let lde_composition_poly_odd_evaluation = self.felt(l)?;
        let lde_trace_merkle_proofs = self.paths()?;
        let lde_trace_evaluations = self.felts(l)?;
        self.end()?;
        Ok(lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings {
            lde_composition_poly_proof,
            lde_composition_poly_even_evaluation,
            lde_composition_poly_odd_evaluation,
            lde_trace_merkle_proofs,
            lde_trace_evaluations,
        })
    }
    pub fn proof(mut self) -> R<Proof> {
        let s = self.strict;
        let trace_length = self.num()? as usize;
        let lde_trace_merkle_roots = self.coms()?;
        let k = self.num()?;
        let trace_ood_frame_evaluations = Read::new(self.take(k)?, s).frame()?;
        let composition_poly_root = self.com()?;
        let l = self.vlen()?;
        let composition_poly_even_ood_evaluation = self.felt(l)?;
        let composition_poly_odd_ood_evaluation = self.felt(l)?;
        let fri_layers_merkle_roots = self.coms()?;
        let fri_last_value = self.felt(l)?;
        let mut query_list = vec![];
        for _ in 0..self.num()? {
            let k = self.num()?;
            query_list.push(Read::new(self.take(k)?, s).query()?);
        }
        let mut deep_poly_openings = vec![];
        for _ in 0..self.num()? {
            let k = self.num()?;
            deep_poly_openings.push(Read::new(self.take(k)?, s).opening()?);
        }
        let nonce = self.num()?;
        if !self.b.is_empty() {
            return Err("bytes left".into());
        }
        Ok(Proof {
            trace_length,
            lde_trace_merkle_roots,
            trace_ood_frame_evaluations,
            composition_poly_root,
            composition_poly_even_ood_evaluation,
            composition_poly_odd_ood_evaluation,
            fri_layers_merkle_roots,
            fri_last_value,
            query_list,
            deep_poly_openings,
            nonce,
        })
    }
    pub fn public_inputs(mut self) -> R<PublicInputs> {
        let l = self.vlen()?;
        let (pc_init, ap_init, fp_init, pc_final, ap_final) = (self.felt(l)?, self.felt(l)?, self.felt(l)?, self.felt(l)?, self.felt(l)?);
        let mut rc = vec![];
        for _ in 0..2 {
            rc.push(match self.take(1)?[0] {
                0 => None,
                1 => Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap())),
                _ => return Err("bound".into()),
            });
        }
        let mut memory_segments = lambdaworks_stark::cairo::air::MemorySegmentMap::new();
        let mut last = None;
        for _ in 0..self.num()? {
            let c = self.take(1)?[0];
            let k = match c {
                0 => MemorySegment::RangeCheck,
                1 => MemorySegment::Output,
                _ => return Err("segment".into()),
            };
            if self.strict && last >= Some(c) {
                return Err("segments out of order".into());
            }
            last = Some(c);
            let r = self.num()?..self.num()?;
            memory_segments.insert(k, r);
        }
        let mut public_memory = std::collections::HashMap::new();
        let mut last: Option<[u8; 32]> = None;
        for _ in 0..self.num()? {
            let (a, v) = (self.felt(l)?, self.felt(l)?);
            if self.strict {
                let mut k = [0; 32];
                k.copy_from_slice(&a.to_bytes_be());
                if last >= Some(k) {
                    return Err("addresses out of order".into());
                }
                last = Some(k);
            }
            public_memory.insert(a, v);
        }
        let num_steps = self.num()? as usize;
        self.end()?;
        Ok(PublicInputs { pc_init, ap_init, fp_init, pc_final, ap_final, range_check_min: rc[0], range_check_max: rc[1], memory_segments, public_memory, num_steps })
    }
}
pub fn key(x: &FE) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(&x.to_bytes_be());
    k
}
