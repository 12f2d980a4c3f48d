//! Offline stand-in for `lambdaworks-crypto` at rev a17b951: same hash functions, tree layout and
//! transcript construction (checked against the proofs committed in /repo/benches/proofs).
pub mod sim;
pub mod fiat_shamir {
    pub mod transcript {
        pub trait Transcript {
            fn append(&mut self, new_data: &[u8]);
            fn challenge(&mut self) -> [u8; 32];
        }
    }
    pub mod default_transcript {
        use super::transcript::Transcript;
        use crate::sim;
        use sha3::{Digest, Keccak256};

        #[derive(Clone)]
        pub struct DefaultTranscript {
            hasher: Keccak256,
            id: u64,
        }
        impl Transcript for DefaultTranscript {
            fn append(&mut self, new_data: &[u8]) {
                sim::emit(sim::Event::Append(self.id, new_data));
                self.hasher.update(new_data);
            }
            fn challenge(&mut self) -> [u8; 32] {
                let mut result = [0u8; 32];
                result.copy_from_slice(&self.hasher.finalize_reset());
                result.reverse();
                self.hasher.update(result);
                sim::emit(sim::Event::Challenge(self.id, &mut result));
                result
            }
        }
        impl DefaultTranscript {
            pub fn new() -> Self {
                let id = sim::fresh_id();
                sim::emit(sim::Event::New(id));
                Self { hasher: Keccak256::new(), id }
            }
        }
        impl Default for DefaultTranscript {
            fn default() -> Self {
                Self::new()
            }
        }
    }
    pub mod test_transcript {
        use super::transcript::Transcript;
        pub struct TestTranscript;
        impl Transcript for TestTranscript {
            fn append(&mut self, _new_data: &[u8]) {}
            fn challenge(&mut self) -> [u8; 32] {
                let mut result = [0u8; 32];
                result[31] = 1;
                result
            }
        }
        impl TestTranscript {
            #[allow(clippy::new_without_default)]
            pub fn new() -> Self {
                Self {}
            }
        }
    }
}

pub mod merkle_tree {
    pub mod traits {
        pub trait IsMerkleTreeBackend {
            type Node: PartialEq + Eq + Clone + Sync + Send;
            type Data;
            fn hash_data(leaf: &Self::Data) -> Self::Node;
            fn hash_leaves(unhashed_leaves: &[Self::Data]) -> Vec<Self::Node> {
                unhashed_leaves.iter().map(|leaf| Self::hash_data(leaf)).collect()
            }
            fn hash_new_parent(child_1: &Self::Node, child_2: &Self::Node) -> Self::Node;
        }
    }
    pub mod proof {
        use super::traits::IsMerkleTreeBackend;
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct Proof<T: PartialEq + Eq> {
            pub merkle_path: Vec<T>,
        }
        impl<T: PartialEq + Eq> Proof<T> {
            pub fn verify<B>(&self, root_hash: &B::Node, mut index: usize, value: &B::Data) -> bool
            where
                B: IsMerkleTreeBackend<Node = T>,
            {
                lambdaworks_math::sim::point("merkle_verify");
                let mut hashed_value = B::hash_data(value);
                for sibling_node in self.merkle_path.iter() {
                    if index % 2 == 0 {
                        hashed_value = B::hash_new_parent(&hashed_value, sibling_node);
                    } else {
                        hashed_value = B::hash_new_parent(sibling_node, &hashed_value);
                    }
                    index >>= 1;
                }
                root_hash == &hashed_value
            }
        }
    }
    pub mod merkle {
        use super::{proof::Proof, traits::IsMerkleTreeBackend};
        #[derive(Clone)]
        pub struct MerkleTree<B: IsMerkleTreeBackend> {
            pub root: B::Node,
            nodes: Vec<B::Node>,
        }
        impl<B: IsMerkleTreeBackend> MerkleTree<B> {
            /// Panics on an empty slice, as the original.
            pub fn build(unhashed_leaves: &[B::Data]) -> Self {
                lambdaworks_math::sim::point("merkle_build");
                let mut leaves = B::hash_leaves(unhashed_leaves);
                let n = leaves.len().next_power_of_two();
                let last = leaves.last().expect("merkle tree without leaves").clone();
                leaves.resize(n, last);
                // nodes[0] is the root; children of i are 2i+1 and 2i+2.
                let mut nodes = vec![leaves[0].clone(); n - 1];
                nodes.extend(leaves);
                for i in (0..n - 1).rev() {
                    nodes[i] = B::hash_new_parent(&nodes[2 * i + 1], &nodes[2 * i + 2]);
                }
                MerkleTree { root: nodes[0].clone(), nodes }
            }
            pub fn get_proof_by_pos(&self, pos: usize) -> Option<Proof<B::Node>> {
                lambdaworks_math::sim::point("merkle_path");
                let mut pos = pos + self.nodes.len() / 2;
                if pos >= self.nodes.len() {
                    return None;
                }
                let mut merkle_path = vec![];
                while pos != 0 {
                    let sib = if pos % 2 == 0 { pos - 1 } else { pos + 1 };
                    merkle_path.push(self.nodes.get(sib)?.clone());
                    pos = (pos - 1) / 2;
                }
                Some(Proof { merkle_path })
            }
            pub fn nodes_len(&self) -> usize {
                self.nodes.len()
            }
        }
    }
    pub mod backends {
        pub mod types {
            use crate::merkle_tree::traits::IsMerkleTreeBackend;
            use lambdaworks_math::{
                field::{element::FieldElement, traits::IsField},
                traits::ByteConversion,
            };
            use sha3::{Digest, Keccak256};
            use std::marker::PhantomData;

            #[derive(Clone, Debug)]
            pub struct Keccak256Tree<F>(PhantomData<F>);
            #[derive(Clone, Debug)]
            pub struct BatchKeccak256Tree<F>(PhantomData<F>);

            fn parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
                let mut h = Keccak256::new();
                h.update(a);
                h.update(b);
                h.finalize().into()
            }
            impl<F: IsField> IsMerkleTreeBackend for Keccak256Tree<F>
            where
                FieldElement<F>: ByteConversion,
            {
                type Node = [u8; 32];
                type Data = FieldElement<F>;
                fn hash_data(input: &FieldElement<F>) -> [u8; 32] {
                    let mut h = Keccak256::new();
                    h.update(input.to_bytes_be());
                    h.finalize().into()
                }
                fn hash_new_parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
                    parent(a, b)
                }
            }
            impl<F: IsField> IsMerkleTreeBackend for BatchKeccak256Tree<F>
            where
                FieldElement<F>: ByteConversion,
            {
                type Node = [u8; 32];
                type Data = Vec<FieldElement<F>>;
                fn hash_data(input: &Vec<FieldElement<F>>) -> [u8; 32] {
                    let mut h = Keccak256::new();
                    for e in input.iter() {
                        h.update(e.to_bytes_be());
                    }
                    h.finalize().into()
                }
                fn hash_new_parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
                    parent(a, b)
                }
            }
        }
    }
}
