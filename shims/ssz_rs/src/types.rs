use crate::proofs::{chunks, Tree};
use crate::*;
use serde::de::Error as _;
use std::fmt;
use std::ops::{Deref, DerefMut};

fn exact(b: &[u8], n: usize) -> Result<(), DeserializeError> {
    match b.len() {
        l if l < n => Err(DeserializeError::ExpectedFurtherInput { provided: l, expected: n }),
        l if l > n => Err(DeserializeError::AdditionalInput { provided: l, expected: n }),
        _ => Ok(()),
    }
}
macro_rules! marker {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Serializable for $t {}
        impl<$($g)*> Prove for $t {}
        impl<$($g)*> SimpleSerialize for $t {}
    };
}
macro_rules! basic {
    ($t:ty, $n:expr, |$v:ident| $ser:expr, |$b:ident| $de:expr) => {
        impl SszSized for $t {
            fn is_variable_size() -> bool {
                false
            }
            fn size_hint() -> usize {
                $n
            }
        }
        impl Serialize for $t {
            fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
                let $v = self;
                out.extend_from_slice(&$ser);
                Ok($n)
            }
        }
        impl Deserialize for $t {
            fn deserialize($b: &[u8]) -> Result<Self, DeserializeError> {
                exact($b, $n)?;
                $de
            }
        }
        impl HashTreeRoot for $t {
            fn tree(&self) -> Tree {
                let $v = self;
                Tree::bytes(&$ser, 32)
            }
            fn packed_size() -> Option<usize> {
                Some($n)
            }
            fn pack(&self, out: &mut Vec<u8>) {
                let $v = self;
                out.extend_from_slice(&$ser);
            }
        }
        impl GeneralizedIndexable for $t {
            fn chunk_count() -> usize {
                1
            }
        }
        marker!([] $t);
    };
}
basic!(u8, 1, |v| v.to_le_bytes(), |b| Ok(b[0]));
basic!(u16, 2, |v| v.to_le_bytes(), |b| Ok(Self::from_le_bytes(b.try_into().unwrap())));
basic!(u32, 4, |v| v.to_le_bytes(), |b| Ok(Self::from_le_bytes(b.try_into().unwrap())));
basic!(u64, 8, |v| v.to_le_bytes(), |b| Ok(Self::from_le_bytes(b.try_into().unwrap())));
basic!(usize, 8, |v| (*v as u64).to_le_bytes(), |b| Ok(u64::from_le_bytes(b.try_into().unwrap()) as usize));
basic!(U256, 32, |v| v.to_le_bytes::<32>(), |b| Ok(U256::from_le_slice(b)));
basic!(bool, 1, |v| [*v as u8], |b| match b[0] {
    0 => Ok(false),
    1 => Ok(true),
    x => Err(DeserializeError::InvalidByte(x)),
});

/// Gindex of the chunk holding byte `i` of a byte vector.
fn byte_index(parent: usize, chunks: usize, len: usize, path: Path) -> Result<usize, MerkleizationError> {
    match path {
        [] => Ok(parent),
        [PathElement::Index(i)] if *i < len => Ok(parent * chunks.next_power_of_two() + i / 32),
        _ => Err(MerkleizationError::InvalidPathElement(path[0].clone())),
    }
}
macro_rules! bytes {
    ([$($g:tt)*] $t:ty, $n:expr, |$b:ident| $de:expr) => {
        impl<$($g)*> SszSized for $t {
            fn is_variable_size() -> bool {
                false
            }
            fn size_hint() -> usize {
                $n
            }
        }
        impl<$($g)*> Serialize for $t {
            fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
                out.extend_from_slice(&self[..]);
                Ok($n)
            }
        }
        impl<$($g)*> Deserialize for $t {
            fn deserialize($b: &[u8]) -> Result<Self, DeserializeError> {
                exact($b, $n)?;
                Ok($de)
            }
        }
        impl<$($g)*> HashTreeRoot for $t {
            fn tree(&self) -> Tree {
                Tree::bytes(&self[..], $n)
            }
        }
        impl<$($g)*> GeneralizedIndexable for $t {
            fn chunk_count() -> usize {
                ($n as usize).div_ceil(32)
            }
            fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
                byte_index(parent, Self::chunk_count(), $n, path)
            }
        }
        marker!([$($g)*] $t);
    };
}
bytes!([] Node, 32, |b| Node::from_slice(b));
bytes!([const N: usize] [u8; N], N, |b| b.try_into().unwrap());
bytes!([const N: usize] ByteVector<N>, N, |b| Self(b.to_vec()));

fn from_hex<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = <String as serde::Deserialize>::deserialize(d)?;
    let s = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("missing 0x prefix"))?;
    hex::decode(s).map_err(D::Error::custom)
}
macro_rules! hex_serde {
    ($t:ident) => {
        impl<const N: usize> serde::Serialize for $t<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&format!("0x{}", hex::encode(crate::serialize(self).unwrap())))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $t<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                crate::deserialize(&from_hex(d)?).map_err(D::Error::custom)
            }
        }
        impl<const N: usize> fmt::Debug for $t<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "0x{}", hex::encode(crate::serialize(self).unwrap()))
            }
        }
    };
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ByteVector<const N: usize>(Vec<u8>);
hex_serde!(ByteVector);
impl<const N: usize> Default for ByteVector<N> {
    fn default() -> Self {
        Self(vec![0; N])
    }
}
impl<const N: usize> Deref for ByteVector<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> DerefMut for ByteVector<N> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl<const N: usize> AsRef<[u8]> for ByteVector<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> ByteVector<N> {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<[u8; N]> for ByteVector<N> {
    fn from(b: [u8; N]) -> Self {
        Self(b.to_vec())
    }
}
impl<const N: usize> TryFrom<&[u8]> for ByteVector<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, DeserializeError> {
        crate::deserialize(b)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct ByteList<const N: usize>(Vec<u8>);
hex_serde!(ByteList);
impl<const N: usize> Deref for ByteList<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<Vec<u8>> for ByteList<N> {
    fn from(b: Vec<u8>) -> Self {
        assert!(b.len() <= N);
        Self(b)
    }
}
impl<const N: usize> SszSized for ByteList<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for ByteList<N> {
    fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
        out.extend_from_slice(&self.0);
        Ok(self.0.len())
    }
}
impl<const N: usize> Deserialize for ByteList<N> {
    fn deserialize(b: &[u8]) -> Result<Self, DeserializeError> {
        if b.len() > N {
            return Err(DeserializeError::InvalidLength(b.len()));
        }
        Ok(Self(b.to_vec()))
    }
}
impl<const N: usize> HashTreeRoot for ByteList<N> {
    fn tree(&self) -> Tree {
        Tree::bytes(&self.0, N).with_length(self.0.len())
    }
}
impl<const N: usize> GeneralizedIndexable for ByteList<N> {
    fn chunk_count() -> usize {
        N.div_ceil(32)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [PathElement::Length] => Ok(parent * 2 + 1),
            [] => Ok(parent),
            _ => byte_index(parent * 2, Self::chunk_count(), N, path),
        }
    }
}
marker!([const N: usize] ByteList<N>);

macro_rules! sequence {
    ($t:ident) => {
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $t<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T, const N: usize> Deref for $t<T, N> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.0
            }
        }
        impl<T, const N: usize> DerefMut for $t<T, N> {
            fn deref_mut(&mut self) -> &mut [T] {
                &mut self.0
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $t<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.0
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $t<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
        impl<T, const N: usize> IntoIterator for $t<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $t<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(self.0.iter())
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $t<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = <Vec<T> as serde::Deserialize>::deserialize(d)?;
                Self::try_from(v).map_err(D::Error::custom)
            }
        }
        impl<T, const N: usize> Sequence for $t<T, N> {
            type Item = T;
            fn items(&self) -> &[T] {
                &self.0
            }
            fn build(v: Vec<T>) -> Result<Self, DeserializeError> {
                Self::try_from(v)
            }
        }
        impl<T: Serialize + SszSized, const N: usize> Serialize for $t<T, N> {
            fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
                let mut w = __internal::Writer::default();
                for v in &self.0 {
                    w.part(v)?;
                }
                Ok(w.finish(out))
            }
        }
        impl<T: Deserialize + SszSized, const N: usize> Deserialize for $t<T, N> {
            fn deserialize(b: &[u8]) -> Result<Self, DeserializeError> {
                let v = __internal::elements::<T>(b)?.into_iter().map(T::deserialize).collect::<Result<Vec<_>, _>>()?;
                Self::try_from(v)
            }
        }
        impl<T: SimpleSerialize, const N: usize> Prove for $t<T, N> {}
        impl<T: SimpleSerialize, const N: usize> Serializable for $t<T, N> {}
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $t<T, N> {}
    };
}
/// Vectors and lists, for serde adapters.
pub trait Sequence: Sized {
    type Item;
    fn items(&self) -> &[Self::Item];
    fn build(v: Vec<Self::Item>) -> Result<Self, DeserializeError>;
}
fn chunk_limit<T: HashTreeRoot>(n: usize) -> usize {
    match T::packed_size() {
        Some(s) => (n * s).div_ceil(32),
        None => n,
    }
}
fn element_tree<T: HashTreeRoot>(v: &[T], limit: usize) -> Tree {
    let parts = match T::packed_size() {
        Some(_) => {
            let mut b = vec![];
            v.iter().for_each(|x| x.pack(&mut b));
            chunks(&b)
        }
        None => v.iter().map(T::tree).collect(),
    };
    Tree::merkleize(parts, chunk_limit::<T>(limit))
}
fn element_index<T: HashTreeRoot + GeneralizedIndexable>(parent: usize, limit: usize, path: Path) -> Result<usize, MerkleizationError> {
    let (first, rest) = path.split_first().unwrap();
    match first {
        PathElement::Index(i) if *i < limit => {
            let chunk = T::packed_size().map_or(*i, |s| i * s / 32);
            T::compute_generalized_index(parent * chunk_limit::<T>(limit).max(1).next_power_of_two() + chunk, rest)
        }
        e => Err(MerkleizationError::InvalidPathElement(e.clone())),
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Vector<T, const N: usize>(Vec<T>);
sequence!(Vector);
impl<T: Default, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self((0..N).map(|_| T::default()).collect())
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = DeserializeError;
    fn try_from(v: Vec<T>) -> Result<Self, DeserializeError> {
        if v.len() != N {
            return Err(DeserializeError::InvalidLength(v.len()));
        }
        Ok(Self(v))
    }
}
impl<T: SszSized, const N: usize> SszSized for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        N * T::size_hint()
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn tree(&self) -> Tree {
        element_tree(&self.0, N)
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        chunk_limit::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [] => Ok(parent),
            _ => element_index::<T>(parent, N, path),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct List<T, const N: usize>(Vec<T>);
sequence!(List);
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self(vec![])
    }
}
impl<T, const N: usize> List<T, N> {
    pub fn push(&mut self, v: T) {
        assert!(self.0.len() < N);
        self.0.push(v);
    }
    pub fn pop(&mut self) -> Option<T> {
        self.0.pop()
    }
    pub fn clear(&mut self) {
        self.0.clear();
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = DeserializeError;
    fn try_from(v: Vec<T>) -> Result<Self, DeserializeError> {
        if v.len() > N {
            return Err(DeserializeError::InvalidLength(v.len()));
        }
        Ok(Self(v))
    }
}
impl<T, const N: usize> SszSized for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn tree(&self) -> Tree {
        element_tree(&self.0, N).with_length(self.0.len())
    }
}
impl<T: HashTreeRoot + GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        chunk_limit::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path {
            [] => Ok(parent),
            [PathElement::Length] => Ok(parent * 2 + 1),
            _ => element_index::<T>(parent * 2, N, path),
        }
    }
}

fn pack_bits(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= (*b as u8) << (i % 8);
    }
    out
}
fn unpack_bits(b: &[u8], n: usize) -> Vec<bool> {
    (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}
macro_rules! bitfield {
    ($t:ident) => {
        hex_serde!($t);
        impl<const N: usize> Deref for $t<N> {
            type Target = [bool];
            fn deref(&self) -> &[bool] {
                &self.0
            }
        }
        impl<const N: usize> DerefMut for $t<N> {
            fn deref_mut(&mut self) -> &mut [bool] {
                &mut self.0
            }
        }
        marker!([const N: usize] $t<N>);
    };
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bitvector<const N: usize>(Vec<bool>);
bitfield!(Bitvector);
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(vec![false; N])
    }
}
impl<const N: usize> SszSized for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
        out.extend(pack_bits(&self.0));
        Ok(N.div_ceil(8))
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(b: &[u8]) -> Result<Self, DeserializeError> {
        exact(b, N.div_ceil(8))?;
        if unpack_bits(b, b.len() * 8)[N..].contains(&true) {
            return Err(DeserializeError::ExtraBits);
        }
        Ok(Self(unpack_bits(b, N)))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn tree(&self) -> Tree {
        Tree::bytes(&pack_bits(&self.0), N.div_ceil(8))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bitlist<const N: usize>(Vec<bool>);
bitfield!(Bitlist);
impl<const N: usize> From<Vec<bool>> for Bitlist<N> {
    fn from(v: Vec<bool>) -> Self {
        assert!(v.len() <= N);
        Self(v)
    }
}
impl<const N: usize> SszSized for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let mut bits = self.0.clone();
        bits.push(true);
        let b = pack_bits(&bits);
        out.extend(&b);
        Ok(b.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(b: &[u8]) -> Result<Self, DeserializeError> {
        let last = *b.last().ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte(0));
        }
        let n = (b.len() - 1) * 8 + last.ilog2() as usize;
        if n > N {
            return Err(DeserializeError::InvalidLength(n));
        }
        Ok(Self(unpack_bits(b, n)))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn tree(&self) -> Tree {
        Tree::bytes(&pack_bits(&self.0), N.div_ceil(8)).with_length(self.0.len())
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}
