//! Stand-in for `ethereum_ssz` (library name `ssz`).
pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.ssz_append(&mut v);
        v
    }
}

pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
            fn ssz_bytes_len(&self) -> usize { std::mem::size_of::<$t>() }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { std::mem::size_of::<$t>() }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
                Ok(<$t>::from_le_bytes(bytes.try_into().map_err(|_| DecodeError::InvalidByteLength { len: bytes.len(), expected: std::mem::size_of::<$t>() })?))
            }
        }
    )*}
}
uint!(u8, u16, u32, u64, usize);

impl Encode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn ssz_bytes_len(&self) -> usize { 1 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(*self as u8) }
}
impl Decode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        match bytes {
            [0] => Ok(false),
            [1] => Ok(true),
            _ => Err(DecodeError::BytesInvalid(format!("Out-of-range for boolean: {bytes:?}"))),
        }
    }
}
impl<const N: usize> Encode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self) }
}
impl<const N: usize> Decode for [u8; N] {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        bytes.try_into().map_err(|_| DecodeError::InvalidByteLength { len: bytes.len(), expected: N })
    }
}
impl<const N: usize> Encode for alloy_primitives::FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn ssz_bytes_len(&self) -> usize { N }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self.as_slice()) }
}
impl<const N: usize> Decode for alloy_primitives::FixedBytes<N> {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { N }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        <[u8; N]>::from_ssz_bytes(bytes).map(Into::into)
    }
}
impl<T: Encode> Encode for &T {
    fn is_ssz_fixed_len() -> bool { T::is_ssz_fixed_len() }
    fn ssz_fixed_len() -> usize { T::ssz_fixed_len() }
    fn ssz_bytes_len(&self) -> usize { (*self).ssz_bytes_len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { (*self).ssz_append(buf) }
}

/// Encodes container fields: fixed parts with offsets, then variable parts.
pub struct ContainerEncoder {
    fixed: Vec<u8>,
    variable: Vec<u8>,
    fixed_len: usize,
}
impl ContainerEncoder {
    pub fn new(fixed_len: usize) -> Self {
        Self { fixed: vec![], variable: vec![], fixed_len }
    }
    pub fn field<T: Encode>(&mut self, v: &T) {
        if T::is_ssz_fixed_len() {
            v.ssz_append(&mut self.fixed);
        } else {
            let off = (self.fixed_len + self.variable.len()) as u32;
            self.fixed.extend_from_slice(&off.to_le_bytes());
            v.ssz_append(&mut self.variable);
        }
    }
    pub fn finish(self, buf: &mut Vec<u8>) {
        buf.extend(self.fixed);
        buf.extend(self.variable);
    }
}

/// Splits the bytes of a container into one slice per field. `lens[i]` is `Some(n)` for fixed fields.
pub fn split_container<'a>(bytes: &'a [u8], lens: &[Option<usize>]) -> Result<Vec<&'a [u8]>, DecodeError> {
    let fixed: usize = lens.iter().map(|l| l.unwrap_or(4)).sum();
    if bytes.len() < fixed || (lens.iter().all(|l| l.is_some()) && bytes.len() != fixed) {
        return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: fixed });
    }
    let mut pos = 0;
    let mut out: Vec<&[u8]> = vec![];
    let mut offs: Vec<(usize, usize)> = vec![];
    for (i, l) in lens.iter().enumerate() {
        let n = l.unwrap_or(4);
        let part = &bytes[pos..pos + n];
        pos += n;
        if l.is_none() {
            let off = u32::from_le_bytes(part.try_into().unwrap()) as usize;
            match offs.last() {
                None if off < fixed => return Err(DecodeError::OffsetIntoFixedPortion(off)),
                None if off > fixed => return Err(DecodeError::OffsetSkipsVariableBytes(off)),
                Some((_, p)) if off < *p => return Err(DecodeError::OffsetsAreDecreasing(off)),
                _ => {}
            }
            if off > bytes.len() {
                return Err(DecodeError::OffsetOutOfBounds(off));
            }
            offs.push((i, off));
            out.push(&[]);
        } else {
            out.push(part);
        }
    }
    for k in 0..offs.len() {
        let end = offs.get(k + 1).map(|o| o.1).unwrap_or(bytes.len());
        out[offs[k].0] = &bytes[offs[k].1..end];
    }
    Ok(out)
}

#[macro_export]
macro_rules! impl_container {
    ([$($g:tt)*] $t:ty { $($f:ident : $ft:ty),* $(,)? }) => {
        impl<$($g)*> $crate::Encode for $t {
            fn is_ssz_fixed_len() -> bool { true $(&& <$ft as $crate::Encode>::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as $crate::Encode>::is_ssz_fixed_len() { 0 $(+ <$ft as $crate::Encode>::ssz_fixed_len())* } else { 4 }
            }
            fn ssz_bytes_len(&self) -> usize { $crate::Encode::as_ssz_bytes(self).len() }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                let fixed = 0 $(+ if <$ft as $crate::Encode>::is_ssz_fixed_len() { <$ft as $crate::Encode>::ssz_fixed_len() } else { 4 })*;
                let mut e = $crate::ContainerEncoder::new(fixed);
                $(e.field(&self.$f);)*
                e.finish(buf)
            }
        }
        impl<$($g)*> $crate::Decode for $t {
            fn is_ssz_fixed_len() -> bool { true $(&& <$ft as $crate::Decode>::is_ssz_fixed_len())* }
            fn ssz_fixed_len() -> usize {
                if <Self as $crate::Decode>::is_ssz_fixed_len() { 0 $(+ <$ft as $crate::Decode>::ssz_fixed_len())* } else { 4 }
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, $crate::DecodeError> {
                let lens = [$(if <$ft as $crate::Decode>::is_ssz_fixed_len() { Some(<$ft as $crate::Decode>::ssz_fixed_len()) } else { None }),*];
                let parts = $crate::split_container(bytes, &lens)?;
                let mut it = parts.into_iter();
                $(let $f = <$ft as $crate::Decode>::from_ssz_bytes(it.next().unwrap())?;)*
                Ok(Self { $($f),* })
            }
        }
    }
}
