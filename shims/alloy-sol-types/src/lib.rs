//! Stand-in for `alloy-sol-types`: static Solidity structs and their standard ABI encoding.
pub use alloy_primitives as private;
use alloy_primitives::{Address, FixedBytes, U256};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Overrun,
    ReserMismatch,
    Other(std::borrow::Cow<'static, str>),
}
impl Error {
    pub fn custom(s: impl Into<std::borrow::Cow<'static, str>>) -> Self {
        Self::Other(s.into())
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Overrun => f.write_str("buffer overrun while deserializing"),
            Self::ReserMismatch => f.write_str("reserialization did not match original"),
            Self::Other(e) => f.write_str(e),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

/// A statically sized ABI value: a fixed number of 32-byte words.
pub trait AbiStatic: Sized {
    const WORDS: usize;
    fn put(&self, out: &mut Vec<u8>);
    /// As the non-validating decoder: only the significant bytes of a word are looked at.
    fn take(data: &[u8], pos: &mut usize) -> Result<Self>;
}
fn word<'a>(data: &'a [u8], pos: &mut usize) -> Result<&'a [u8; 32]> {
    let w = data.get(*pos..*pos + 32).ok_or(Error::Overrun)?;
    *pos += 32;
    Ok(w.try_into().unwrap())
}
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl AbiStatic for $t {
            const WORDS: usize = 1;
            fn put(&self, out: &mut Vec<u8>) {
                let b = self.to_be_bytes();
                out.extend(std::iter::repeat(0u8).take(32 - b.len()));
                out.extend_from_slice(&b);
            }
            fn take(data: &[u8], pos: &mut usize) -> Result<Self> {
                let w = word(data, pos)?;
                Ok(<$t>::from_be_bytes(w[32 - std::mem::size_of::<$t>()..].try_into().unwrap()))
            }
        }
    )*}
}
uint!(u8, u16, u32, u64, u128);
impl AbiStatic for bool {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        (*self as u8).put(out)
    }
    fn take(data: &[u8], pos: &mut usize) -> Result<Self> {
        Ok(u8::take(data, pos)? != 0)
    }
}
impl AbiStatic for U256 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_be_bytes::<32>())
    }
    fn take(data: &[u8], pos: &mut usize) -> Result<Self> {
        Ok(U256::from_be_bytes(*word(data, pos)?))
    }
}
impl<const N: usize> AbiStatic for FixedBytes<N> {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(self.as_slice());
        out.extend(std::iter::repeat(0u8).take(32 - N));
    }
    fn take(data: &[u8], pos: &mut usize) -> Result<Self> {
        Ok(FixedBytes::from_slice(&word(data, pos)?[..N]))
    }
}
impl AbiStatic for Address {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend([0u8; 12]);
        out.extend_from_slice(self.as_slice());
    }
    fn take(data: &[u8], pos: &mut usize) -> Result<Self> {
        Ok(Address::from_slice(&word(data, pos)?[12..]))
    }
}

pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    const SOL_NAME: &'static str = "";
    fn abi_encoded_size(r: &Self::RustType) -> usize;
    fn abi_encode(r: &Self::RustType) -> Vec<u8>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType>;
}
pub trait SolStruct {
    const NAME: &'static str;
}
pub trait SolValue: Sized {
    fn abi_encoded_size(&self) -> usize;
    fn abi_encode(&self) -> Vec<u8>;
    fn abi_encode_params(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_encode_sequence(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_decode(data: &[u8]) -> Result<Self>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self>;
    fn abi_decode_params(data: &[u8]) -> Result<Self> {
        <Self as SolValue>::abi_decode(data)
    }
}
fn enc<T: AbiStatic>(v: &T) -> Vec<u8> {
    let mut o = vec![];
    v.put(&mut o);
    o
}
fn dec<T: AbiStatic>(data: &[u8], validate: bool) -> Result<T> {
    let mut pos = 0;
    let v = T::take(data, &mut pos)?;
    if validate && enc(&v) != data {
        return Err(Error::ReserMismatch);
    }
    Ok(v)
}
impl<T: AbiStatic> SolValue for T {
    fn abi_encoded_size(&self) -> usize {
        T::WORDS * 32
    }
    fn abi_encode(&self) -> Vec<u8> {
        enc(self)
    }
    fn abi_decode(data: &[u8]) -> Result<Self> {
        dec(data, false)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<Self> {
        dec(data, true)
    }
}
impl<T: AbiStatic + SolStruct> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_encoded_size(_r: &T) -> usize {
        T::WORDS * 32
    }
    fn abi_encode(r: &T) -> Vec<u8> {
        enc(r)
    }
    fn abi_decode(data: &[u8]) -> Result<T> {
        dec(data, false)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<T> {
        dec(data, true)
    }
}

#[macro_export]
macro_rules! sol {
    ($($(#[$a:meta])* struct $n:ident { $($fa:ident $f:ident ;)* })*) => {
        $(
            $(#[$a])*
            #[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
            #[allow(non_camel_case_types, non_snake_case)]
            pub struct $n { $(pub $f: $crate::sol_ty!($fa)),* }
            impl $crate::SolStruct for $n { const NAME: &'static str = stringify!($n); }
            impl $crate::AbiStatic for $n {
                const WORDS: usize = 0 $(+ <$crate::sol_ty!($fa) as $crate::AbiStatic>::WORDS)*;
                fn put(&self, out: &mut Vec<u8>) { $($crate::AbiStatic::put(&self.$f, out);)* }
                fn take(data: &[u8], pos: &mut usize) -> $crate::Result<Self> {
                    $(let $f = <$crate::sol_ty!($fa) as $crate::AbiStatic>::take(data, pos)?;)*
                    Ok(Self { $($f),* })
                }
            }
        )*
    };
}
#[macro_export]
macro_rules! sol_ty {
    (uint8) => { u8 };
    (uint16) => { u16 };
    (uint32) => { u32 };
    (uint64) => { u64 };
    (uint128) => { u128 };
    (uint256) => { $crate::private::U256 };
    (bytes4) => { $crate::private::FixedBytes<4> };
    (bytes20) => { $crate::private::FixedBytes<20> };
    (bytes32) => { $crate::private::FixedBytes<32> };
    (address) => { $crate::private::Address };
    (bool) => { bool };
    ($t:ident) => { $t };
}
