//! Alterations of a proof: every value and every list it holds can be reached.
use crate::core::*;
use crate::rng::Rng;
use lambdaworks_stark::starks::frame::Frame;
use serde::{Deserialize, Serialize};

/// One place of a proof, by position in `visit` order.
pub enum Slot<'a> {
    Felt(&'a mut FE),
    Com(&'a mut [u8; 32]),
    Len(&'a mut usize),
    Nonce(&'a mut u64),
}

type Visit<'v> = &'v mut dyn FnMut(&str, Slot);

fn coms(name: &str, v: &mut [[u8; 32]], f: Visit) {
    v.iter_mut().for_each(|c| f(name, Slot::Com(c)));
}
fn felts(name: &str, v: &mut [FE], f: Visit) {
    v.iter_mut().for_each(|c| f(name, Slot::Felt(c)));
}

/// Calls `f` with every scalar of the proof, always in the same order.
pub fn visit(p: &mut Proof, f: Visit) {
    f("trace_length", Slot::Len(&mut p.trace_length));
    coms("trace_root", &mut p.lde_trace_merkle_roots, f);
    let fr = &mut p.trace_ood_frame_evaluations;
    if fr.num_columns() > 0 {
        for i in 0..fr.num_rows() {
            felts("ood_frame", fr.get_row_mut(i), f);
        }
    }
    f("composition_root", Slot::Com(&mut p.composition_poly_root));
    f("composition_even_ood", Slot::Felt(&mut p.composition_poly_even_ood_evaluation));
    f("composition_odd_ood", Slot::Felt(&mut p.composition_poly_odd_ood_evaluation));
    coms("fri_root", &mut p.fri_layers_merkle_roots, f);
    f("fri_last_value", Slot::Felt(&mut p.fri_last_value));
    for q in &mut p.query_list {
        for a in &mut q.layers_auth_paths_sym {
            coms("fri_path_sym", &mut a.merkle_path, f);
        }
        felts("fri_eval_sym", &mut q.layers_evaluations_sym, f);
        for a in &mut q.layers_auth_paths {
            coms("fri_path", &mut a.merkle_path, f);
        }
        felts("fri_eval", &mut q.layers_evaluations, f);
    }
    for d in &mut p.deep_poly_openings {
        coms("composition_path", &mut d.lde_composition_poly_proof.merkle_path, f);
        f("composition_even_opening", Slot::Felt(&mut d.lde_composition_poly_even_evaluation));
        f("composition_odd_opening", Slot::Felt(&mut d.lde_composition_poly_odd_evaluation));
        for a in &mut d.lde_trace_merkle_proofs {
            coms("trace_path", &mut a.merkle_path, f);
        }
        felts("trace_opening", &mut d.lde_trace_evaluations, f);
    }
    f("nonce", Slot::Nonce(&mut p.nonce));
}

/// Names of all scalars, in visit order.
pub fn places(p: &Proof) -> Vec<String> {
    let mut v = vec![];
    visit(&mut clone_proof(p), &mut |n, _| v.push(n.to_string()));
    v
}

/// One alteration; `salt` decides what is left open.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// changes the scalar with this number (modulo their count)
    Scalar { at: u64, how: u8, salt: u64 },
    /// exchanges two scalars of the same kind
    Swap { a: u64, b: u64 },
    /// changes a list: which list, what to do, where
    List { list: u64, how: u8, at: u64, salt: u64 },
    /// changes bytes of the serialized proof
    Byte { at: u64, xor: u8 },
    Cut { at: u64 },
    Insert { at: u64, len: u8, salt: u64 },
    Remove { at: u64, len: u8 },
    /// overwrites a stretch with bytes from elsewhere in the file
    Copy { from: u64, to: u64, len: u8 },
}

fn change_felt(x: &mut FE, how: u8, salt: u64) {
    let mut r = Rng::new(salt);
    *x = match how % 8 {
        0 => *x + FE::one(),
        1 => *x - FE::one(),
        2 => -*x,
        3 => FE::zero(),
        4 => fe_rand(&mut r),
        5 => *x + *x,
        6 => FE::one(),
        _ => *x + fe_rand(&mut r),
    };
}

/// Whether the alteration could be applied to something.
pub fn apply_struct(p: &mut Proof, m: &Mut) -> bool {
    match m {
        Mut::Scalar { at, how, salt } => {
            let n = places(p).len() as u64;
            let want = at % n;
            let mut k = 0;
            visit(p, &mut |_, s| {
                if k == want {
                    match s {
                        Slot::Felt(x) => change_felt(x, *how, *salt),
                        Slot::Com(c) => match how % 4 {
                            0 => c[(salt % 32) as usize] ^= 1 << (salt >> 8 & 7),
                            1 => *c = [0; 32],
                            2 => *c = Rng::new(*salt).bytes32(),
                            _ => c.reverse(),
                        },
                        Slot::Len(l) => {
                            *l = match how % 8 {
                                0 => *l * 2,
                                1 => *l / 2,
                                2 => *l + 1,
                                3 => l.wrapping_sub(1),
                                4 => 0,
                                5 => 1,
                                6 => 3 * *l,
                                _ => (salt % 4096) as usize,
                            }
                        }
                        Slot::Nonce(x) => {
                            *x = match how % 4 {
                                0 => x.wrapping_add(1),
                                1 => *salt,
                                2 => *x ^ (1 << (salt % 64)),
                                _ => x.swap_bytes(),
                            }
                        }
                    }
                }
                k += 1;
            });
            true
        }
        Mut::Swap { a, b } => {
            // same kind: collect the values, exchange, write back
            let names = places(p);
            let n = names.len() as u64;
            let (i, mut j) = ((a % n) as usize, (b % n) as usize);
            // nearest later place with the same name
            for d in 0..names.len() {
                let k = (j + d) % names.len();
                if k != i && names[k] == names[i] {
                    j = k;
                    break;
                }
            }
            if i == j || names[i] != names[j] {
                return false;
            }
            enum V {
                F(FE),
                C([u8; 32]),
            }
            let mut got = vec![];
            let mut k = 0;
            visit(p, &mut |_, s| {
                if k == i || k == j {
                    match s {
                        Slot::Felt(x) => got.push((k, V::F(*x))),
                        Slot::Com(c) => got.push((k, V::C(*c))),
                        _ => {}
                    }
                }
                k += 1;
            });
            if got.len() != 2 {
                return false;
            }
            let mut k = 0;
            visit(p, &mut |_, s| {
                let src = if k == got[0].0 { Some(&got[1].1) } else if k == got[1].0 { Some(&got[0].1) } else { None };
                match (s, src) {
                    (Slot::Felt(x), Some(V::F(v))) => *x = *v,
                    (Slot::Com(x), Some(V::C(v))) => *x = *v,
                    _ => {}
                }
                k += 1;
            });
            true
        }
        Mut::List { list, how, at, salt } => lists(p, *list, *how, *at, *salt),
        _ => false,
    }
}

fn edit<T: Clone>(v: &mut Vec<T>, how: u8, at: u64, extra: impl FnOnce() -> T) -> bool {
    let n = v.len();
    let i = at as usize % n.max(1);
    match how % 10 {
        0 if n > 0 => {
            v.pop();
        }
        1 if n > 0 => {
            v.remove(0);
        }
        2 if n > 0 => {
            v.remove(i);
        }
        3 if n > 0 => {
            let x = v[i].clone();
            v.insert(i, x);
        }
        4 if n > 1 => v.swap(i, (i + 1) % n),
        5 => v.push(extra()),
        6 => v.insert(0, extra()),
        7 if n > 0 => v.clear(),
        8 if n > 1 => v.rotate_left(1),
        9 if n > 1 => {
            let x = v[(i + 1) % n].clone();
            v[i] = x;
        }
        _ => return false,
    }
    true
}

fn lists(p: &mut Proof, list: u64, how: u8, at: u64, salt: u64) -> bool {
    let mut r = Rng::new(salt);
    let (nq, nd) = (p.query_list.len().max(1), p.deep_poly_openings.len().max(1));
    let (i, j) = (r.us(nq), r.us(nd));
    let path = r.bytes32();
    let felt = fe_rand(&mut r);
    let auth = |r: &mut Rng| lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: vec![r.bytes32(); 3] };
    match list % 14 {
        0 => edit(&mut p.lde_trace_merkle_roots, how, at, || path),
        1 => edit(&mut p.fri_layers_merkle_roots, how, at, || path),
        2 => {
            let fr = &p.trace_ood_frame_evaluations;
            let (w, h) = (fr.num_columns(), if fr.num_columns() == 0 { 0 } else { fr.num_rows() });
            let mut rows: Vec<Vec<FE>> = (0..h).map(|k| fr.get_row(k).to_vec()).collect();
            let ok = edit(&mut rows, how, at, || vec![felt; w]);
            p.trace_ood_frame_evaluations = Frame::new(rows.concat(), w);
            ok
        }
        3 => {
            // the same values with another width, or one value more or less
            let fr = &p.trace_ood_frame_evaluations;
            let mut d = frame_data(fr);
            let w = fr.num_columns();
            let ok = match how % 4 {
                0 => edit(&mut d, (how / 4) % 10, at, || felt),
                _ => true,
            };
            let w2 = match how % 4 {
                0 => w,
                1 => 1,
                2 => d.len().max(1),
                _ => (at as usize % (d.len() + 2)).max(1),
            };
            let same = w2 == w && how % 4 != 0;
            p.trace_ood_frame_evaluations = Frame::new(d, w2);
            ok && !same
        }
        4 => {
            let x = p.query_list.first().cloned();
            match x {
                Some(x) => edit(&mut p.query_list, how, at, || x),
                None => false,
            }
        }
        5 => {
            let x = p.deep_poly_openings.first().cloned();
            match x {
                Some(x) => edit(&mut p.deep_poly_openings, how, at, || x),
                None => false,
            }
        }
        6 => p.query_list.get_mut(i).map_or(false, |q| edit(&mut q.layers_auth_paths, how, at, || auth(&mut r))),
        7 => p.query_list.get_mut(i).map_or(false, |q| edit(&mut q.layers_auth_paths_sym, how, at, || auth(&mut r))),
        8 => p.query_list.get_mut(i).map_or(false, |q| edit(&mut q.layers_evaluations, how, at, || felt)),
        9 => p.query_list.get_mut(i).map_or(false, |q| edit(&mut q.layers_evaluations_sym, how, at, || felt)),
        10 => p.query_list.get_mut(i).map_or(false, |q| {
            let v = if salt & 1 == 0 { &mut q.layers_auth_paths } else { &mut q.layers_auth_paths_sym };
            let n = v.len().max(1);
            v.get_mut(at as usize / 16 % n).map_or(false, |a| edit(&mut a.merkle_path, how, at, || path))
        }),
        11 => p.deep_poly_openings.get_mut(j).map_or(false, |d| edit(&mut d.lde_trace_merkle_proofs, how, at, || auth(&mut r))),
        12 => p.deep_poly_openings.get_mut(j).map_or(false, |d| edit(&mut d.lde_trace_evaluations, how, at, || felt)),
        _ => p.deep_poly_openings.get_mut(j).map_or(false, |d| {
            let n = d.lde_trace_merkle_proofs.len();
            let k = at as usize / 16 % (n + 1);
            let a = if k == n { &mut d.lde_composition_poly_proof } else { &mut d.lde_trace_merkle_proofs[k] };
            edit(&mut a.merkle_path, how, at, || path)
        }),
    }
}

pub fn apply_bytes(b: &mut Vec<u8>, m: &Mut) -> bool {
    let n = b.len();
    if n == 0 {
        return false;
    }
    let ix = |x: u64| (x % n as u64) as usize;
    match m {
        Mut::Byte { at, xor } => b[ix(*at)] ^= (*xor).max(1),
        Mut::Cut { at } => b.truncate(ix(*at)),
        Mut::Insert { at, len, salt } => {
            let mut r = Rng::new(*salt);
            let k = ix(*at);
            let v: Vec<u8> = (0..*len as usize + 1).map(|_| r.next() as u8).collect();
            b.splice(k..k, v);
        }
        Mut::Remove { at, len } => {
            let k = ix(*at);
            let e = (k + *len as usize + 1).min(n);
            b.drain(k..e);
        }
        Mut::Copy { from, to, len } => {
            let (f, t) = (ix(*from), ix(*to));
            let l = (*len as usize + 1).min(n - f).min(n - t);
            let v = b[f..f + l].to_vec();
            b[t..t + l].copy_from_slice(&v);
        }
        _ => return false,
    }
    true
}

pub fn is_byte(m: &Mut) -> bool {
    !matches!(m, Mut::Scalar { .. } | Mut::Swap { .. } | Mut::List { .. })
}

pub fn random_mut(r: &mut Rng) -> Mut {
    match r.below(20) {
        0..=4 => Mut::Scalar { at: r.next(), how: r.next() as u8, salt: r.next() },
        5..=6 => Mut::Swap { a: r.next(), b: r.next() },
        7..=12 => Mut::List { list: r.next(), how: r.next() as u8, at: r.next(), salt: r.next() },
        13..=15 => Mut::Byte { at: r.next(), xor: 1 << r.below(8) },
        16 => Mut::Cut { at: r.next() },
        17 => Mut::Insert { at: r.next(), len: *r.pick(&[0, 3, 7, 31, 63]), salt: r.next() },
        18 => Mut::Remove { at: r.next(), len: *r.pick(&[0, 3, 7, 31, 63]) },
        _ => Mut::Copy { from: r.next(), to: r.next(), len: *r.pick(&[0, 7, 31, 63, 127]) },
    }
}
