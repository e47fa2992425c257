use sha2::{Digest, Sha256};

pub type B32 = [u8; 32];

pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hash2(a: &B32, b: &B32) -> B32 {
    sha(&[a, b])
}
/// A distinct 32-byte value per (seed, label, index).
pub fn val(seed: u64, label: &str, i: u64) -> B32 {
    sha(&[&seed.to_le_bytes(), label.as_bytes(), &i.to_le_bytes()])
}
pub fn u64_chunk(v: u64) -> B32 {
    let mut c = [0u8; 32];
    c[..8].copy_from_slice(&v.to_le_bytes());
    c
}
/// All subsets of `items` as index bit masks are cheap; this gives all k-subsets in order.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    rec(n, k, 0, &mut vec![], &mut out);
    out
}
/// Calls `f` with every tuple of the mixed-radix space `radix`.
pub fn product(radix: &[usize], mut f: impl FnMut(&[usize])) {
    if radix.iter().any(|r| *r == 0) {
        return;
    }
    let mut cur = vec![0; radix.len()];
    loop {
        f(&cur);
        let mut i = 0;
        loop {
            if i == radix.len() {
                return;
            }
            cur[i] += 1;
            if cur[i] < radix[i] {
                break;
            }
            cur[i] = 0;
            i += 1;
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A multiproof of exactly these parts.
#[cfg(not(verif_serde))]
pub fn forge(data: std::borrow::Cow<'_, [u8]>, mask: bitvec::vec::BitVec<u32, bitvec::order::Lsb0>, desc: bitvec::vec::BitVec<u32, bitvec::order::Lsb0>, hint: usize) -> ssz_multiproofs::Multiproof<'_> {
    ssz_multiproofs::Multiproof::verif_from_parts(data, mask, desc, hint as _)
}
/// The same by way of the serialized form, for a tree in which the hook does not build (say, as a field was renamed).
#[cfg(verif_serde)]
pub fn forge(data: std::borrow::Cow<'_, [u8]>, mask: bitvec::vec::BitVec<u32, bitvec::order::Lsb0>, desc: bitvec::vec::BitVec<u32, bitvec::order::Lsb0>, hint: usize) -> ssz_multiproofs::Multiproof<'_> {
    use bincode::Options;
    let bytes = bincode::serialize(&(&data[..], mask, desc, hint)).unwrap();
    let options = bincode::DefaultOptions::new().with_fixint_encoding();
    serde::Deserialize::deserialize(&mut bincode::Deserializer::with_reader(&bytes[..], options)).unwrap()
}
