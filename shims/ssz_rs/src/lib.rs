//! Stand-in for `ssz_rs`: SSZ serialization, Merkleization and single-node proofs as the SSZ specification defines
//! them. Every value builds an explicit Merkle tree (`proofs::Tree`); proofs are read off that tree.
extern crate self as ssz_rs;
mod types;
pub mod proofs;

pub use alloy_primitives::U256;
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize};
pub use types::*;

pub type Node = alloy_primitives::B256;
pub type GeneralizedIndex = usize;

pub mod prelude {
    pub use crate::proofs::Prover;
    pub use crate::{
        deserialize, serialize, Bitlist, Bitvector, ByteList, ByteVector, Deserialize, DeserializeError, GeneralizedIndex,
        GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, Path, PathElement, Prove, Serializable,
        Serialize, SerializeError, SimpleSerialize, SszSized, Vector, U256,
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidOffset(usize),
    InvalidLength(usize),
    ExtraBits,
    NoMatchingVariant,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    InvalidGeneralizedIndex,
    InvalidPathElement(PathElement),
    NoInnerElement,
}
macro_rules! errors {
    ($($t:ty),*) => {$(
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for $t {}
    )*};
}
errors!(SerializeError, DeserializeError, MerkleizationError);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Field(String),
    Index(usize),
    Length,
    Selector,
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        Self::Field(s.to_string())
    }
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        Self::Index(i)
    }
}
pub type Path<'a> = &'a [PathElement];

pub trait SszSized {
    fn is_variable_size() -> bool;
    /// Size in bytes of the fixed-size part.
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Serialize + Deserialize + SszSized {}
pub trait HashTreeRoot {
    fn tree(&self) -> proofs::Tree;
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(self.tree().root())
    }
    /// The size of a basic type, which is packed with its neighbours in vectors and lists.
    fn packed_size() -> Option<usize> {
        None
    }
    fn pack(&self, _out: &mut Vec<u8>) {
        unreachable!()
    }
}
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize;
    fn compute_generalized_index(parent: GeneralizedIndex, path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.first() {
            None => Ok(parent),
            Some(e) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
}
pub trait Prove: GeneralizedIndexable + HashTreeRoot {
    fn compute_tree(&self) -> Result<proofs::Tree, MerkleizationError> {
        Ok(self.tree())
    }
    fn prove(&self, path: Path) -> Result<(proofs::Proof, Node), MerkleizationError>
    where
        Self: Sized,
    {
        let tree = self.compute_tree()?;
        let mut prover = proofs::Prover::from(Self::generalized_index(path)?);
        prover.compute_proof_cached_tree(self, &tree)?;
        Ok((prover.into_proof(), tree.root()))
    }
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + GeneralizedIndexable + Prove {}

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut out = vec![];
    value.serialize(&mut out)?;
    Ok(out)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

#[doc(hidden)]
pub mod __internal {
    use super::*;

    #[derive(Default)]
    pub struct Writer {
        parts: Vec<(bool, Vec<u8>)>,
    }
    impl Writer {
        pub fn part<T: Serialize + SszSized>(&mut self, v: &T) -> Result<(), SerializeError> {
            self.parts.push((T::is_variable_size(), serialize(v)?));
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> usize {
            let start = out.len();
            let mut offset: usize = self.parts.iter().map(|(v, b)| if *v { 4 } else { b.len() }).sum();
            for (v, b) in &self.parts {
                if *v {
                    out.extend((offset as u32).to_le_bytes());
                    offset += b.len();
                } else {
                    out.extend(b);
                }
            }
            for (v, b) in &self.parts {
                if *v {
                    out.extend(b);
                }
            }
            out.len() - start
        }
    }
    /// The encodings of the parts of a container with the given (variable size?, size) fields.
    pub fn split<'a>(b: &'a [u8], parts: &[(bool, usize)]) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = parts.iter().map(|(v, n)| if *v { 4 } else { *n }).sum();
        if b.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput { provided: b.len(), expected: fixed });
        }
        let (mut pos, mut offsets) = (0, vec![]);
        for (v, n) in parts {
            if *v {
                offsets.push(u32::from_le_bytes(b[pos..pos + 4].try_into().unwrap()) as usize);
                pos += 4;
            } else {
                pos += n;
            }
        }
        match offsets.first() {
            None if b.len() != fixed => return Err(DeserializeError::AdditionalInput { provided: b.len(), expected: fixed }),
            Some(o) if *o != fixed => return Err(DeserializeError::InvalidOffset(*o)),
            _ => {}
        }
        offsets.push(b.len());
        if let Some(w) = offsets.windows(2).find(|w| w[0] > w[1]) {
            return Err(DeserializeError::InvalidOffset(w[0]));
        }
        let (mut pos, mut k, mut out) = (0, 0, vec![]);
        for (v, n) in parts {
            if *v {
                out.push(&b[offsets[k]..offsets[k + 1]]);
                k += 1;
                pos += 4;
            } else {
                out.push(&b[pos..pos + n]);
                pos += n;
            }
        }
        Ok(out)
    }
    /// The encodings of the elements of a vector or list.
    pub fn elements<T: SszSized>(b: &[u8]) -> Result<Vec<&[u8]>, DeserializeError> {
        if b.is_empty() {
            return Ok(vec![]);
        }
        if !T::is_variable_size() {
            let n = T::size_hint();
            if b.len() % n != 0 {
                return Err(DeserializeError::InvalidLength(b.len()));
            }
            return Ok(b.chunks(n).collect());
        }
        if b.len() < 4 {
            return Err(DeserializeError::ExpectedFurtherInput { provided: b.len(), expected: 4 });
        }
        let first = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        if first == 0 || first % 4 != 0 || first > b.len() {
            return Err(DeserializeError::InvalidOffset(first));
        }
        split(b, &vec![(true, 0); first / 4])
    }
}
