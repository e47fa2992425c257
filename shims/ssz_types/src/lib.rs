//! Stand-in for `ssz_types`: bit lists and bit vectors.
use std::marker::PhantomData;
pub use typenum;
use typenum::Unsigned;

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    BitsOutOfBounds { i: usize, len: usize },
    ExcessBits,
    MissingLengthInformation,
    InvalidByteCount { given: usize, expected: usize },
}

pub struct Variable<N>(PhantomData<N>);
pub struct Fixed<N>(PhantomData<N>);
pub struct Bitfield<T> {
    bits: Vec<bool>,
    _p: PhantomData<fn() -> T>,
}
pub type BitList<N> = Bitfield<Variable<N>>;
pub type BitVector<N> = Bitfield<Fixed<N>>;

impl<T> Clone for Bitfield<T> {
    fn clone(&self) -> Self {
        Self { bits: self.bits.clone(), _p: PhantomData }
    }
}
impl<T> PartialEq for Bitfield<T> {
    fn eq(&self, o: &Self) -> bool {
        self.bits == o.bits
    }
}
impl<T> Eq for Bitfield<T> {}
impl<T> std::hash::Hash for Bitfield<T> {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.bits.hash(s)
    }
}
impl<T> std::fmt::Debug for Bitfield<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in &self.bits {
            write!(f, "{}", *b as u8)?;
        }
        Ok(())
    }
}
impl<T> Bitfield<T> {
    pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
        let len = self.bits.len();
        *self.bits.get_mut(i).ok_or(Error::OutOfBounds { i, len })? = value;
        Ok(())
    }
    pub fn get(&self, i: usize) -> Result<bool, Error> {
        self.bits.get(i).copied().ok_or(Error::OutOfBounds { i, len: self.bits.len() })
    }
    pub fn len(&self) -> usize {
        self.bits.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bits.is_empty()
    }
    pub fn is_zero(&self) -> bool {
        !self.bits.iter().any(|b| *b)
    }
    pub fn num_set_bits(&self) -> usize {
        self.bits.iter().filter(|b| **b).count()
    }
    pub fn highest_set_bit(&self) -> Option<usize> {
        self.bits.iter().rposition(|b| *b)
    }
    pub fn iter(&self) -> BitIter<'_> {
        BitIter { inner: self.bits.iter() }
    }
    fn zip(&self, o: &Self, f: impl Fn(bool, bool) -> bool) -> Self {
        let n = self.bits.len().max(o.bits.len());
        let bit = |b: &Self, i: usize| b.bits.get(i).copied().unwrap_or(false);
        Self { bits: (0..n).map(|i| f(bit(self, i), bit(o, i))).collect(), _p: PhantomData }
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.bits.iter().enumerate().all(|(i, b)| !b || o.get(i).unwrap_or(false))
    }
    pub fn intersection(&self, o: &Self) -> Self {
        let n = self.bits.len().min(o.bits.len());
        Self { bits: (0..n).map(|i| self.bits[i] && o.bits[i]).collect(), _p: PhantomData }
    }
    pub fn union(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a || b)
    }
    pub fn difference(&self, o: &Self) -> Self {
        let mut r = self.clone();
        r.difference_inplace(o);
        r
    }
    pub fn difference_inplace(&mut self, o: &Self) {
        for (i, b) in self.bits.iter_mut().enumerate() {
            *b = *b && !o.get(i).unwrap_or(false);
        }
    }
    pub fn into_raw_bytes(self) -> Vec<u8> {
        self.pack(false)
    }
    fn pack(&self, delimiter: bool) -> Vec<u8> {
        let mut bits = self.bits.clone();
        if delimiter {
            bits.push(true);
        }
        let mut out = vec![0u8; bits.len().div_ceil(8).max(1)];
        for (i, b) in bits.iter().enumerate() {
            out[i / 8] |= (*b as u8) << (i % 8);
        }
        out
    }
}
pub struct BitIter<'a> {
    inner: std::slice::Iter<'a, bool>,
}
impl Iterator for BitIter<'_> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        self.inner.next().copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl ExactSizeIterator for BitIter<'_> {}
impl DoubleEndedIterator for BitIter<'_> {
    fn next_back(&mut self) -> Option<bool> {
        self.inner.next_back().copied()
    }
}
impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(n: usize) -> Result<Self, Error> {
        if n > N::to_usize() {
            return Err(Error::OutOfBounds { i: n, len: N::to_usize() });
        }
        Ok(Self { bits: vec![false; n], _p: PhantomData })
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.pack(true)
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let last = *b.last().ok_or(Error::MissingLengthInformation)?;
        if last == 0 {
            return Err(Error::MissingLengthInformation);
        }
        let len = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
        if len > N::to_usize() {
            return Err(Error::OutOfBounds { i: len, len: N::to_usize() });
        }
        Ok(Self { bits: (0..len).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect(), _p: PhantomData })
    }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self {
        Self::new()
    }
}
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self {
        Self { bits: vec![false; N::to_usize()], _p: PhantomData }
    }
    pub fn capacity() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.pack(false)
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let n = N::to_usize();
        if b.len() != n.div_ceil(8) {
            return Err(Error::InvalidByteCount { given: b.len(), expected: n.div_ceil(8) });
        }
        let all: Vec<bool> = (0..b.len() * 8).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect();
        if all[n..].iter().any(|b| *b) {
            return Err(Error::ExcessBits);
        }
        Ok(Self { bits: all[..n].to_vec(), _p: PhantomData })
    }
}
impl<N: Unsigned> ssz::Encode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(self.pack(true))
    }
    fn ssz_bytes_len(&self) -> usize {
        self.pack(true).len()
    }
}
impl<N: Unsigned> ssz::Decode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
        Self::from_bytes(b).map_err(|e| ssz::DecodeError::BytesInvalid(format!("BitList failed to decode: {e:?}")))
    }
}
impl<N: Unsigned> ssz::Encode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8).max(1)
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(self.pack(false))
    }
    fn ssz_bytes_len(&self) -> usize {
        N::to_usize().div_ceil(8).max(1)
    }
}
impl<N: Unsigned> ssz::Decode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N::to_usize().div_ceil(8).max(1)
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
        Self::from_bytes(b).map_err(|e| ssz::DecodeError::BytesInvalid(format!("BitVector failed to decode: {e:?}")))
    }
}
