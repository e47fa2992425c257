use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::ops::*;

/// Reads an unsigned integer given as a number or as a quoted number; writes it quoted (lighthouse's `quoted_u64`).
pub mod quoted {
    use super::*;
    pub fn serialize<S: Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = u64;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a quoted or unquoted integer")
            }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<u64, E> {
                s.parse().map_err(|_| E::custom(format!("invalid integer: {s}")))
            }
            fn visit_u64<E>(self, v: u64) -> Result<u64, E> {
                Ok(v)
            }
        }
        d.deserialize_any(V)
    }
}

macro_rules! common {
    ($t:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        pub struct $t(u64);
        impl $t {
            pub const fn new(v: u64) -> Self {
                Self(v)
            }
            pub const fn as_u64(self) -> u64 {
                self.0
            }
            pub fn as_usize(self) -> usize {
                self.0 as usize
            }
            pub const fn max_value() -> Self {
                Self(u64::MAX)
            }
            pub fn saturating_sub<T: Into<$t>>(&self, o: T) -> $t {
                $t(self.0.saturating_sub(o.into().0))
            }
            pub fn saturating_add<T: Into<$t>>(&self, o: T) -> $t {
                $t(self.0.saturating_add(o.into().0))
            }
            pub fn checked_div<T: Into<$t>>(&self, o: T) -> Option<$t> {
                self.0.checked_div(o.into().0).map($t)
            }
            pub fn saturating_mul<T: Into<$t>>(&self, o: T) -> $t {
                $t(self.0.saturating_mul(o.into().0))
            }
            pub fn saturating_pow(&self, exp: u32) -> $t {
                $t(self.0.saturating_pow(exp))
            }
            pub fn is_power_of_two(&self) -> bool {
                self.0.is_power_of_two()
            }
        }
        impl From<u64> for $t {
            fn from(v: u64) -> Self {
                Self(v)
            }
        }
        impl From<$t> for u64 {
            fn from(v: $t) -> u64 {
                v.0
            }
        }
        impl From<&$t> for $t {
            fn from(v: &$t) -> $t {
                *v
            }
        }
        impl PartialEq<u64> for $t {
            fn eq(&self, o: &u64) -> bool {
                self.0 == *o
            }
        }
        impl PartialOrd<u64> for $t {
            fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> {
                self.0.partial_cmp(o)
            }
        }
        common!(@ops $t, $t, u64);
        common!(@safe $t, $t);
        common!(@safe $t, u64);
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&self.0, f)
            }
        }
        impl std::str::FromStr for $t {
            type Err = std::num::ParseIntError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                s.parse().map(Self)
            }
        }
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                quoted::serialize(&self.0, s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                quoted::deserialize(d).map(Self)
            }
        }
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn ssz_bytes_len(&self) -> usize {
                8
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                self.0.ssz_append(buf)
            }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                u64::from_ssz_bytes(b).map(Self)
            }
        }
        impl tree_hash::TreeHash for $t {
            fn tree_hash_type() -> tree_hash::TreeHashType {
                tree_hash::TreeHashType::Basic
            }
            fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
                self.0.tree_hash_packed_encoding()
            }
            fn tree_hash_packing_factor() -> usize {
                4
            }
            fn tree_hash_root(&self) -> tree_hash::Hash256 {
                self.0.tree_hash_root()
            }
        }
    };
    (@ops $t:ident, $($r:ident),*) => {$(
        impl Add<$r> for $t {
            type Output = $t;
            fn add(self, o: $r) -> $t { $t(self.0.saturating_add(u64::from(o))) }
        }
        impl AddAssign<$r> for $t {
            fn add_assign(&mut self, o: $r) { *self = *self + o; }
        }
        impl Sub<$r> for $t {
            type Output = $t;
            fn sub(self, o: $r) -> $t { $t(self.0.saturating_sub(u64::from(o))) }
        }
        impl SubAssign<$r> for $t {
            fn sub_assign(&mut self, o: $r) { *self = *self - o; }
        }
        impl Mul<$r> for $t {
            type Output = $t;
            fn mul(self, o: $r) -> $t { $t(self.0.saturating_mul(u64::from(o))) }
        }
        impl MulAssign<$r> for $t {
            fn mul_assign(&mut self, o: $r) { *self = *self * o; }
        }
        impl Div<$r> for $t {
            type Output = $t;
            fn div(self, o: $r) -> $t { $t(self.0.checked_div(u64::from(o)).expect("Cannot divide by zero-valued Slot/Epoch")) }
        }
        impl DivAssign<$r> for $t {
            fn div_assign(&mut self, o: $r) { *self = *self / o; }
        }
        impl Rem<$r> for $t {
            type Output = $t;
            fn rem(self, o: $r) -> $t { $t(self.0 % u64::from(o)) }
        }
    )*};
    (@safe $t:ident, $r:ident) => {
        impl SafeArith<$r> for $t {
            const ZERO: Self = $t(0);
            const ONE: Self = $t(1);
            fn safe_add(&self, o: $r) -> Result<Self, ArithError> { self.0.safe_add(u64::from(o)).map($t) }
            fn safe_sub(&self, o: $r) -> Result<Self, ArithError> { self.0.safe_sub(u64::from(o)).map($t) }
            fn safe_mul(&self, o: $r) -> Result<Self, ArithError> { self.0.safe_mul(u64::from(o)).map($t) }
            fn safe_div(&self, o: $r) -> Result<Self, ArithError> { self.0.safe_div(u64::from(o)).map($t) }
            fn safe_rem(&self, o: $r) -> Result<Self, ArithError> { self.0.safe_rem(u64::from(o)).map($t) }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> { self.0.safe_shl(o).map($t) }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> { self.0.safe_shr(o).map($t) }
        }
    };
}
common!(Slot);
common!(Epoch);

impl Slot {
    pub fn epoch(self, slots_per_epoch: u64) -> Epoch {
        Epoch::new(self.0.checked_div(slots_per_epoch).expect("slots_per_epoch is not 0"))
    }
}
impl Epoch {
    /// Position of `slot` in the epoch, if it belongs to it.
    pub fn position(&self, slot: Slot, slots_per_epoch: u64) -> Option<usize> {
        let start = self.start_slot(slots_per_epoch);
        let end = self.end_slot(slots_per_epoch);
        (start <= slot && slot <= end).then(|| (slot - start).as_usize())
    }
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch))
    }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(
            self.0
                .saturating_add(1)
                .saturating_mul(slots_per_epoch)
                .saturating_sub(1),
        )
    }
    pub fn slot_iter(&self, slots_per_epoch: u64) -> impl DoubleEndedIterator<Item = Slot> {
        (self.start_slot(slots_per_epoch).0..=self.end_slot(slots_per_epoch).0).map(Slot)
    }
}
