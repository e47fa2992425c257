//! Stand-in for the parts of `serde_with` used by the code under test.
pub use serde_with_macros::serde_as;
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;

pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}
pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}
pub struct Same;
pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I: ?Sized>(v: &I, s: S) -> Result<S::Ok, S::Error>
    where
        T: SerializeAs<I>,
    {
        T::serialize_as(v, s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(d: D) -> Result<I, D::Error>
    where
        T: DeserializeAs<'de, I>,
    {
        T::deserialize_as(d)
    }
}
impl<T: ?Sized + Serialize> SerializeAs<T> for Same {
    fn serialize_as<S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        T::deserialize(d)
    }
}
pub struct SerializeAsWrap<'a, T: ?Sized, U: ?Sized>(&'a T, PhantomData<U>);
impl<T: ?Sized, U: ?Sized + SerializeAs<T>> Serialize for SerializeAsWrap<'_, T, U> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        U::serialize_as(self.0, s)
    }
}
pub struct DeserializeAsWrap<T, U>(T, PhantomData<U>);
impl<'de, T, U: DeserializeAs<'de, T>> Deserialize<'de> for DeserializeAsWrap<T, U> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Self(U::deserialize_as(d)?, PhantomData))
    }
}

macro_rules! seq {
    ($t:ident [$($b:path),*] $push:ident) => {
        impl<T, U: SerializeAs<T>> SerializeAs<$t<T>> for $t<U> {
            fn serialize_as<S: Serializer>(v: &$t<T>, s: S) -> Result<S::Ok, S::Error> {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v { q.serialize_element(&SerializeAsWrap::<T, U>(x, PhantomData))?; }
                q.end()
            }
        }
        impl<'de, T $(: $b)*, U: DeserializeAs<'de, T>> DeserializeAs<'de, $t<T>> for $t<U> {
            fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$t<T>, D::Error> {
                struct V<T, U>(PhantomData<(T, U)>);
                impl<'de, T $(: $b)*, U: DeserializeAs<'de, T>> Visitor<'de> for V<T, U> {
                    type Value = $t<T>;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a sequence") }
                    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                        let mut out = $t::new();
                        while let Some(x) = a.next_element::<DeserializeAsWrap<T, U>>()? { out.$push(x.0); }
                        Ok(out)
                    }
                }
                d.deserialize_seq(V::<T, U>(PhantomData))
            }
        }
    }
}
seq!(Vec [] push);
seq!(VecDeque [] push_back);
seq!(BTreeSet [Ord] insert);

macro_rules! map {
    ($t:ident [$($kb:tt)*]) => {
        impl<K, KU: SerializeAs<K>, V, VU: SerializeAs<V>> SerializeAs<$t<K, V>> for $t<KU, VU> {
            fn serialize_as<S: Serializer>(v: &$t<K, V>, s: S) -> Result<S::Ok, S::Error> {
                let mut q = s.serialize_map(Some(v.len()))?;
                for (k, x) in v {
                    q.serialize_entry(&SerializeAsWrap::<K, KU>(k, PhantomData), &SerializeAsWrap::<V, VU>(x, PhantomData))?;
                }
                q.end()
            }
        }
        impl<'de, K: $($kb)*, KU: DeserializeAs<'de, K>, V, VU: DeserializeAs<'de, V>> DeserializeAs<'de, $t<K, V>> for $t<KU, VU> {
            fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$t<K, V>, D::Error> {
                struct W<A, B, C, E>(PhantomData<(A, B, C, E)>);
                impl<'de, K: $($kb)*, KU: DeserializeAs<'de, K>, V, VU: DeserializeAs<'de, V>> Visitor<'de> for W<K, KU, V, VU> {
                    type Value = $t<K, V>;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
                    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                        let mut out = $t::new();
                        while let Some((k, v)) = a.next_entry::<DeserializeAsWrap<K, KU>, DeserializeAsWrap<V, VU>>()? {
                            out.insert(k.0, v.0);
                        }
                        Ok(out)
                    }
                }
                d.deserialize_map(W::<K, KU, V, VU>(PhantomData))
            }
        }
    }
}
map!(BTreeMap [Ord]);
map!(HashMap [Eq + Hash]);

impl<T, U: SerializeAs<T>> SerializeAs<Option<T>> for Option<U> {
    fn serialize_as<S: Serializer>(v: &Option<T>, s: S) -> Result<S::Ok, S::Error> {
        match v {
            Some(x) => s.serialize_some(&SerializeAsWrap::<T, U>(x, PhantomData)),
            None => s.serialize_none(),
        }
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Option<T>> for Option<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Option<T>, D::Error> {
        Ok(Option::<DeserializeAsWrap<T, U>>::deserialize(d)?.map(|x| x.0))
    }
}
macro_rules! tuple {
    ($($n:tt $t:ident $u:ident),*) => {
        impl<$($t, $u: SerializeAs<$t>),*> SerializeAs<($($t,)*)> for ($($u,)*) {
            fn serialize_as<S: Serializer>(v: &($($t,)*), s: S) -> Result<S::Ok, S::Error> {
                ($(SerializeAsWrap::<$t, $u>(&v.$n, PhantomData),)*).serialize(s)
            }
        }
        impl<'de, $($t, $u: DeserializeAs<'de, $t>),*> DeserializeAs<'de, ($($t,)*)> for ($($u,)*) {
            fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<($($t,)*), D::Error> {
                let v = <($(DeserializeAsWrap<$t, $u>,)*)>::deserialize(d)?;
                Ok(($(v.$n.0,)*))
            }
        }
    }
}
tuple!(0 A UA, 1 B UB);
tuple!(0 A UA, 1 B UB, 2 C UC);

/// Efficient (de)serialization of byte sequences, as in `serde_with::Bytes`.
pub struct Bytes;
impl<T: ?Sized + AsRef<[u8]>> SerializeAs<T> for Bytes {
    fn serialize_as<S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v.as_ref())
    }
}
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> {
        <&'de [u8]>::deserialize(d)
    }
}
struct OwnedBytes;
impl<'de> Visitor<'de> for OwnedBytes {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a byte array")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
        let mut v = vec![];
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(v)
    }
}
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        d.deserialize_byte_buf(OwnedBytes)
    }
}
impl<'de> DeserializeAs<'de, Box<[u8]>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Box<[u8]>, D::Error> {
        d.deserialize_byte_buf(OwnedBytes).map(Into::into)
    }
}
impl<'de> DeserializeAs<'de, Cow<'de, [u8]>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Cow<'de, [u8]>, D::Error> {
        d.deserialize_byte_buf(OwnedBytes).map(Cow::Owned)
    }
}
pub struct DisplayFromStr;
impl<T: fmt::Display> SerializeAs<T> for DisplayFromStr {
    fn serialize_as<S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(v)
    }
}
impl<'de, T: std::str::FromStr> DeserializeAs<'de, T> for DisplayFromStr
where
    T::Err: fmt::Display,
{
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
