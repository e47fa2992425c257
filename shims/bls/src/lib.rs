//! Stand-in for lighthouse's `bls`: an *idealized* signature scheme with the interface of BLS.
//!
//! A secret key is a 32-byte string, its public key is a hash of it. A signature over `m` by key `k` is
//! H("sig", pk, m) read as an integer; aggregation is addition modulo 2^256, as aggregation in BLS is addition in
//! the signature group. Hence an aggregate verifies for a message and a multiset of keys exactly if it is the sum of
//! the individual signatures: forging, splitting or re-targeting is as hopeless as in the real scheme, and
//! multiplicity matters as it does in the real scheme.
use alloy_primitives::{B256, U256};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha2::{Digest, Sha256};
use std::fmt;

pub type Hash256 = B256;
pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const SIGNATURE_BYTES_LEN: usize = 96;
pub const SECRET_KEY_BYTES_LEN: usize = 32;

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    InvalidByteLength { got: usize, expected: usize },
    InvalidInfinityPublicKey,
    InvalidZeroSecretKey,
    InvalidSecretKeyLength { got: usize, expected: usize },
    BlstError(&'static str),
}

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = Sha256::new();
    for p in parts {
        s.update((p.len() as u32).to_le_bytes());
        s.update(p);
    }
    s.finalize().into()
}

/// A public key: 48 compressed bytes (flag byte 0xa0|.., 31 bytes of hash, 16 bytes of hash), determined by its key.
#[derive(Clone)]
pub struct PublicKey {
    bytes: [u8; 48],
}

impl PublicKey {
    fn y(bytes: &[u8; 48]) -> [u8; 48] {
        let a = h(&[b"y0", bytes]);
        let b = h(&[b"y1", bytes]);
        let mut out = [0u8; 48];
        out[..32].copy_from_slice(&a);
        out[32..].copy_from_slice(&b[..16]);
        out
    }
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] {
        self.bytes
    }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] {
        let mut out = [0u8; 96];
        out[..48].copy_from_slice(&self.bytes);
        out[0] &= 0x1f; // uncompressed encodings carry no flags
        out[48..].copy_from_slice(&Self::y(&self.bytes));
        out
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        let bytes: [u8; 48] = bytes
            .try_into()
            .map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 48 })?;
        if bytes[0] == 0xc0 && bytes[1..].iter().all(|b| *b == 0) {
            return Err(Error::InvalidInfinityPublicKey);
        }
        if bytes[0] & 0xe0 != 0xa0 {
            return Err(Error::BlstError("BLST_BAD_ENCODING"));
        }
        Ok(Self { bytes })
    }
    pub fn deserialize_uncompressed(bytes: &[u8]) -> Result<Self, Error> {
        if bytes.len() != 96 {
            return Err(Error::InvalidByteLength { got: bytes.len(), expected: 96 });
        }
        let mut c: [u8; 48] = bytes[..48].try_into().unwrap();
        if c[0] & 0xe0 != 0 {
            return Err(Error::BlstError("BLST_BAD_ENCODING"));
        }
        c[0] |= 0xa0;
        if Self::y(&c) != bytes[48..] {
            return Err(Error::BlstError("BLST_POINT_NOT_ON_CURVE"));
        }
        Ok(Self { bytes: c })
    }
    pub fn compress(&self) -> PublicKeyBytes {
        PublicKeyBytes { bytes: self.bytes }
    }
    pub fn as_hex_string(&self) -> String {
        format!("0x{}", hex::encode(self.bytes))
    }
    fn sig(&self, msg: &Hash256) -> U256 {
        U256::from_be_bytes(h(&[b"sig", &self.bytes, msg.as_slice()]))
    }
}
impl PartialEq for PublicKey {
    fn eq(&self, o: &Self) -> bool {
        self.bytes == o.bytes
    }
}
impl Eq for PublicKey {}
impl std::hash::Hash for PublicKey {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.bytes.hash(s)
    }
}
impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_hex_string())
    }
}
impl fmt::Display for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_hex_string())
    }
}
impl Serialize for PublicKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.as_hex_string())
    }
}
impl<'de> Deserialize<'de> for PublicKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        PublicKey::deserialize(&b).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct PublicKeyBytes {
    bytes: [u8; 48],
}
impl PublicKeyBytes {
    pub fn empty() -> Self {
        Self { bytes: [0; 48] }
    }
    pub fn serialize(&self) -> [u8; 48] {
        self.bytes
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        Ok(Self { bytes: b.try_into().map_err(|_| Error::InvalidByteLength { got: b.len(), expected: 48 })? })
    }
    pub fn decompress(&self) -> Result<PublicKey, Error> {
        PublicKey::deserialize(&self.bytes)
    }
}

#[derive(Clone)]
pub struct SecretKey {
    seed: [u8; 32],
}
impl SecretKey {
    /// Deterministic stand-in: every call gives the next key of a sequence.
    pub fn random() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1 << 32);
        Self::from_index(N.fetch_add(1, Ordering::Relaxed))
    }
    pub fn from_index(i: u64) -> Self {
        Self { seed: h(&[b"sk", &i.to_le_bytes()]) }
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        Ok(Self {
            seed: b.try_into().map_err(|_| Error::InvalidSecretKeyLength { got: b.len(), expected: 32 })?,
        })
    }
    pub fn public_key(&self) -> PublicKey {
        let a = h(&[b"pk0", &self.seed]);
        let b = h(&[b"pk1", &self.seed]);
        let mut bytes = [0u8; 48];
        bytes[..32].copy_from_slice(&a);
        bytes[32..].copy_from_slice(&b[..16]);
        bytes[0] = 0xa0 | (bytes[0] & 0x1f);
        PublicKey { bytes }
    }
    pub fn sign(&self, msg: Hash256) -> Signature {
        Signature { v: self.public_key().sig(&msg) }
    }
}

#[derive(Clone)]
pub struct Keypair {
    pub sk: SecretKey,
    pub pk: PublicKey,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Signature {
    v: U256,
}

/// An aggregate signature; `None` is the empty signature, `Some(0)` the point at infinity.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct AggregateSignature {
    v: Option<U256>,
}
impl AggregateSignature {
    pub fn infinity() -> Self {
        Self { v: Some(U256::ZERO) }
    }
    pub fn empty() -> Self {
        Self { v: None }
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_none()
    }
    pub fn is_infinity(&self) -> bool {
        self.v == Some(U256::ZERO)
    }
    pub fn add_assign(&mut self, s: &Signature) {
        self.v = Some(self.v.unwrap_or(U256::ZERO).wrapping_add(s.v));
    }
    pub fn add_assign_aggregate(&mut self, s: &Self) {
        if let Some(v) = s.v {
            self.v = Some(self.v.unwrap_or(U256::ZERO).wrapping_add(v));
        }
    }
    pub fn serialize(&self) -> [u8; SIGNATURE_BYTES_LEN] {
        let mut out = [0u8; 96];
        if let Some(v) = self.v {
            out[0] = 0x80;
            if v.is_zero() {
                out[0] = 0xc0;
            }
            out[64..].copy_from_slice(&v.to_be_bytes::<32>());
        }
        out
    }
    pub fn deserialize(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 96 {
            return Err(Error::InvalidByteLength { got: b.len(), expected: 96 });
        }
        if b.iter().all(|x| *x == 0) {
            return Ok(Self::empty());
        }
        let v = U256::from_be_slice(&b[64..]);
        let r = Self { v: Some(v) };
        if r.serialize() != *b {
            return Err(Error::BlstError("BLST_BAD_ENCODING"));
        }
        Ok(r)
    }
    /// Verifies an aggregate over one message; false for no keys.
    pub fn fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() {
            return false;
        }
        let sum = pubkeys.iter().fold(U256::ZERO, |a, p| a.wrapping_add(p.sig(&msg)));
        self.v == Some(sum)
    }
    pub fn eth_fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() && self.is_infinity() {
            true
        } else {
            self.fast_aggregate_verify(msg, pubkeys)
        }
    }
    pub fn aggregate_verify(&self, msgs: &[Hash256], pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() || msgs.len() != pubkeys.len() {
            return false;
        }
        let sum = pubkeys.iter().zip(msgs).fold(U256::ZERO, |a, (p, m)| a.wrapping_add(p.sig(m)));
        self.v == Some(sum)
    }
}
impl ssz::Encode for AggregateSignature {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        96
    }
    fn ssz_bytes_len(&self) -> usize {
        96
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.serialize())
    }
}
impl ssz::Decode for AggregateSignature {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        96
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
        Self::deserialize(b).map_err(|e| ssz::DecodeError::BytesInvalid(format!("{e:?}")))
    }
}
impl tree_hash::TreeHash for AggregateSignature {
    fn tree_hash_type() -> tree_hash::TreeHashType {
        tree_hash::TreeHashType::Vector
    }
    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256 {
        tree_hash::merkle_root(&self.serialize(), 0)
    }
}

pub fn get_withdrawal_credentials(pk: &PublicKey, prefix: u8) -> Vec<u8> {
    let mut v = h(&[&pk.serialize()]).to_vec();
    v[0] = prefix;
    v
}
