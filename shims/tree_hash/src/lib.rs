//! Stand-in for `tree_hash`: SSZ merkleization as the consensus specification defines it.
use sha2::{Digest, Sha256};
pub type Hash256 = alloy_primitives::B256;
pub type PackedEncoding = smallvec::SmallVec<[u8; 32]>;
pub const BYTES_PER_CHUNK: usize = 32;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}

pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType;
    fn tree_hash_packed_encoding(&self) -> PackedEncoding;
    fn tree_hash_packing_factor() -> usize;
    fn tree_hash_root(&self) -> Hash256;
}

pub fn hash32_concat(a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}

/// Merkle root of `leaves` padded with zero chunks to the next power of two, at least `min_leaves`.
pub fn merkleize(leaves: &[[u8; 32]], min_leaves: usize) -> Hash256 {
    let mut width = leaves.len().max(min_leaves).max(1).next_power_of_two();
    let mut level: Vec<[u8; 32]> = leaves.to_vec();
    let mut zero = [0u8; 32];
    while width > 1 {
        if level.len() % 2 == 1 {
            level.push(zero);
        }
        level = level.chunks(2).map(|c| hash32_concat(&c[0], &c[1])).collect();
        zero = hash32_concat(&zero, &zero);
        width /= 2;
    }
    level.first().copied().unwrap_or(zero).into()
}

pub fn merkle_root(bytes: &[u8], min_leaves: usize) -> Hash256 {
    let leaves: Vec<[u8; 32]> = bytes
        .chunks(32)
        .map(|c| {
            let mut l = [0u8; 32];
            l[..c.len()].copy_from_slice(c);
            l
        })
        .collect();
    merkleize(&leaves, min_leaves)
}

pub fn mix_in_length(root: &Hash256, length: usize) -> Hash256 {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(length as u64).to_le_bytes());
    hash32_concat(root.as_slice(), &l).into()
}

macro_rules! basic {
    ($($t:ty),*) => {$(
        impl TreeHash for $t {
            fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
            fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(&self.to_le_bytes()) }
            fn tree_hash_packing_factor() -> usize { 32 / std::mem::size_of::<$t>() }
            fn tree_hash_root(&self) -> Hash256 {
                let mut l = [0u8; 32];
                let b = self.to_le_bytes();
                l[..b.len()].copy_from_slice(&b);
                l.into()
            }
        }
    )*}
}
basic!(u8, u16, u32, u64, usize);

impl TreeHash for bool {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Basic }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(&[*self as u8]) }
    fn tree_hash_packing_factor() -> usize { 32 }
    fn tree_hash_root(&self) -> Hash256 { (*self as u8).tree_hash_root() }
}

impl<const N: usize> TreeHash for [u8; N] {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Vector }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { unreachable!("vector is not packed") }
    fn tree_hash_packing_factor() -> usize { unreachable!("vector is not packed") }
    fn tree_hash_root(&self) -> Hash256 { merkle_root(self, 0) }
}

impl TreeHash for Hash256 {
    fn tree_hash_type() -> TreeHashType { TreeHashType::Vector }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { PackedEncoding::from_slice(self.as_slice()) }
    fn tree_hash_packing_factor() -> usize { 1 }
    fn tree_hash_root(&self) -> Hash256 { *self }
}

impl<T: TreeHash> TreeHash for &T {
    fn tree_hash_type() -> TreeHashType { T::tree_hash_type() }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding { (*self).tree_hash_packed_encoding() }
    fn tree_hash_packing_factor() -> usize { T::tree_hash_packing_factor() }
    fn tree_hash_root(&self) -> Hash256 { (*self).tree_hash_root() }
}

/// Implements `TreeHash` for a container given its root computation.
#[macro_export]
macro_rules! impl_container {
    ([$($g:tt)*] $t:ty { $($f:ident),* }) => {
        impl<$($g)*> $crate::TreeHash for $t {
            fn tree_hash_type() -> $crate::TreeHashType { $crate::TreeHashType::Container }
            fn tree_hash_packed_encoding(&self) -> $crate::PackedEncoding { unreachable!("Struct should never be packed.") }
            fn tree_hash_packing_factor() -> usize { unreachable!("Struct should never be packed.") }
            fn tree_hash_root(&self) -> $crate::Hash256 {
                let leaves: Vec<[u8; 32]> = vec![$($crate::TreeHash::tree_hash_root(&self.$f).0),*];
                $crate::merkleize(&leaves, 0)
            }
        }
    }
}
