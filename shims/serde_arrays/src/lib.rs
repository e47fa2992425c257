//! Stand-in for `serde_arrays`: fixed-size arrays as tuples.
use serde::de::{Error, SeqAccess, Visitor};
use serde::ser::SerializeTuple;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;

pub fn serialize<S: Serializer, T: Serialize, const N: usize>(a: &[T; N], s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(N)?;
    for x in a {
        t.serialize_element(x)?;
    }
    t.end()
}

pub fn deserialize<'de, D: Deserializer<'de>, T: Deserialize<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    struct V<T, const N: usize>(PhantomData<T>);
    impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
        type Value = [T; N];
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "an array of size {N}")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<[T; N], A::Error> {
            let mut v = Vec::with_capacity(N);
            for i in 0..N {
                v.push(a.next_element()?.ok_or_else(|| A::Error::invalid_length(i, &self))?);
            }
            Ok(v.try_into().ok().unwrap())
        }
    }
    d.deserialize_tuple(N, V(PhantomData))
}
