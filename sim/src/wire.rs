//! What travels and is stored: the proof file layout of the command line
//! (8-byte length, proof, public inputs), and value comparison of what was decoded.
use crate::core::*;
use crate::zoo::Pi;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};

pub fn encode(pi: &Pi, p: &Proof) -> Vec<u8> {
    let b = p.serialize();
    let mut o = (b.len() as u64).to_be_bytes().to_vec();
    o.extend(b);
    if let Pi::Cairo(c) = pi {
        o.extend(c.serialize());
    }
    o
}

/// Mirrors what the verifying side of the command line does with a file.
/// `known` is the statement the verifier expects; a Cairo file carries its own.
pub fn decode(known: &Pi, b: &[u8]) -> Result<(Proof, Pi), String> {
    if b.len() < 8 {
        return Err("short".into());
    }
    let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    let b = &b[8..];
    if b.len() < n {
        return Err("short".into());
    }
    let p = Proof::deserialize(&b[..n]).map_err(|e| format!("{e:?}"))?;
    let pi = match known {
        Pi::Cairo(_) => Pi::Cairo(PublicInputs::deserialize(&b[n..]).map_err(|e| format!("{e:?}"))?),
        k => {
            if b.len() != n {
                return Err("trailing".into());
            }
            k.clone()
        }
    };
    Ok((p, pi))
}

/// Decodes and verifies; the decoded value comes back for the oracle.
pub fn receive(known: &Pi, b: &[u8], o: &Opts) -> (Verdict, Option<(Proof, Pi)>) {
    match catch(|| decode(known, b)) {
        Err(m) => (Verdict::Panic(m), None),
        Ok(Err(_)) => (Verdict::Reject, None),
        Ok(Ok((p, pi))) => {
            let v = pi.check(&p, &o.po());
            (v, Some((p, pi)))
        }
    }
}

/// Equality of proofs up to surplus query entries beyond the first `q`, which
/// the protocol ignores.
pub fn same_proof(a: &Proof, b: &Proof, q: usize) -> bool {
    let cut = |p: &Proof| {
        let mut c = clone_proof(p);
        c.query_list.truncate(q);
        c.deep_poly_openings.truncate(q);
        proof_canon(&c)
    };
    cut(a) == cut(b)
}

pub fn pi_canon(p: &PublicInputs) -> Vec<u8> {
    let mut o = vec![];
    for f in [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final] {
        o.extend(f.to_bytes_be());
    }
    o.extend(format!("{:?} {:?} {}", p.range_check_min, p.range_check_max, p.num_steps).bytes());
    let mut s: Vec<String> = p.memory_segments.iter().map(|(k, r)| format!("{k:?} {r:?}")).collect();
    s.sort();
    o.extend(s.join(";").bytes());
    let mut m: Vec<Vec<u8>> = p
        .public_memory
        .iter()
        .map(|(a, v)| {
            let mut x = a.to_bytes_be();
            x.extend(v.to_bytes_be());
            x
        })
        .collect();
    m.sort();
    m.into_iter().for_each(|x| o.extend(x));
    o
}
/// The known gap behind an accepted file whose public inputs differ in the
/// claimed segments alone.
pub fn only_segments(a: &Pi, b: &Pi) -> Option<&'static str> {
    let (Pi::Cairo(x), Pi::Cairo(y)) = (a, b) else { return None };
    let mut z = x.clone();
    z.memory_segments = y.memory_segments.clone();
    let kinds = |p: &PublicInputs| [MemorySegment::RangeCheck, MemorySegment::Output].map(|k| p.memory_segments.contains_key(&k));
    if pi_canon(&z) != pi_canon(y) || kinds(x)[0] != kinds(y)[0] {
        return None;
    }
    if x.memory_segments.get(&MemorySegment::Output) == y.memory_segments.get(&MemorySegment::Output) {
        Some("segment-range-unbound:range_check")
    } else {
        Some("segment-range-unbound:output")
    }
}
pub fn same_pi(a: &Pi, b: &Pi) -> bool {
    match (a, b) {
        (Pi::Cairo(x), Pi::Cairo(y)) => pi_canon(x) == pi_canon(y),
        _ => a.kind() == b.kind(),
    }
}

/// The query positions the verifier derives from a proof.
pub fn positions(pi: &Pi, x: &Proof, o: &Opts, n: usize) -> Vec<u64> {
    let (_, log) = record(|| pi.check(x, &o.po()));
    let lde = n as u64 * o.b as u64;
    let ch: Vec<u64> = log
        .iter()
        .filter_map(|t| if let T::C(c) = t { Some(u64::from_be_bytes(c[..8].try_into().unwrap()) % lde) } else { None })
        .collect();
    ch[ch.len().saturating_sub(o.q)..].to_vec()
}
/// Same values as the honest proof `p`, or only another nonce that happens to
/// lead to the same positions.
pub fn equivalent(pi: &Pi, x: &Proof, p: &Proof, o: &Opts, n: usize) -> bool {
    if same_proof(x, p, o.q) {
        return true;
    }
    let mut y = clone_proof(x);
    y.nonce = p.nonce;
    same_proof(&y, p, o.q) && positions(pi, x, o, n) == positions(pi, p, o, n)
}
