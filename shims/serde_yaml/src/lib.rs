//! Stand-in for `serde_yaml`: flat `KEY: scalar` documents, which is what chain configurations are.
//! Nested values (indented lines below a key) are left out.
use serde::de::value::{MapDeserializer, StrDeserializer};
use serde::de::{DeserializeOwned, IntoDeserializer, Visitor};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;

struct Scalar<'a>(&'a str);
impl<'a> Scalar<'a> {
    fn text(&self) -> &'a str {
        let s = self.0;
        for q in ['\'', '"'] {
            if let Some(x) = s.strip_prefix(q).and_then(|x| x.strip_suffix(q)) {
                return x;
            }
        }
        s
    }
}
impl<'de, 'a> serde::Deserializer<'de> for Scalar<'a> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0.parse::<u64>() {
            Ok(n) => v.visit_u64(n),
            Err(_) if self.0 == "true" => v.visit_bool(true),
            Err(_) if self.0 == "false" => v.visit_bool(false),
            Err(_) if self.0.is_empty() || self.0 == "null" || self.0 == "~" => v.visit_unit(),
            Err(_) => v.visit_str(self.text()),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_str(self.text())
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_str(self.text())
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if self.0.is_empty() || self.0 == "null" {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a> IntoDeserializer<'de, Error> for Scalar<'a> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    let mut out: Vec<(&str, Scalar<'_>)> = vec![];
    for line in s.lines() {
        if line.starts_with('#') || line.starts_with(' ') || line.starts_with('\t') || line.starts_with('-') {
            continue;
        }
        let Some((k, v)) = line.split_once(':') else {
            if line.trim().is_empty() {
                continue;
            }
            return Err(Error(format!("unsupported line: {line}")));
        };
        let v = v.trim();
        let v = if v.starts_with('#') { "" } else { v.split(" #").next().unwrap().trim() };
        if out.iter().any(|(o, _)| *o == k.trim()) {
            return Err(Error(format!("duplicate entry with key {k:?}")));
        }
        out.push((k.trim(), Scalar(v)));
    }
    let it = out.into_iter().map(|(k, v)| (K(k), v));
    T::deserialize(MapDeserializer::new(it))
}
struct K<'a>(&'a str);
impl<'de, 'a> IntoDeserializer<'de, Error> for K<'a> {
    type Deserializer = StrDeserializer<'a, Error>;
    fn into_deserializer(self) -> Self::Deserializer {
        self.0.into_deserializer()
    }
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
}
