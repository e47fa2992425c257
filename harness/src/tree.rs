//! SSZ Merkle trees and multiproofs over them, written independently of the code under test.
use crate::util::*;
use ssz_multiproofs::Multiproof;
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::sync::{Arc, OnceLock};

pub enum Tree {
    Leaf(B32),
    Pair(B32, Arc<Tree>, Arc<Tree>),
    /// a full subtree of zero chunks
    Zero(u32),
}
pub type T = Arc<Tree>;

pub fn zero_hash(d: u32) -> B32 {
    static Z: OnceLock<Vec<B32>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            v.push(hash2(&v[i], &v[i]));
        }
        v
    })[d as usize]
}
impl Tree {
    pub fn root(&self) -> B32 {
        match self {
            Tree::Leaf(b) => *b,
            Tree::Pair(h, ..) => *h,
            Tree::Zero(d) => zero_hash(*d),
        }
    }
}
pub fn leaf(b: B32) -> T {
    Arc::new(Tree::Leaf(b))
}
pub fn num(v: u64) -> T {
    leaf(u64_chunk(v))
}
pub fn pair(a: T, b: T) -> T {
    Arc::new(Tree::Pair(hash2(&a.root(), &b.root()), a, b))
}
/// A container or list: its parts as the leftmost leaves of a tree of the given depth.
pub fn merkle(mut parts: Vec<T>, depth: u32) -> T {
    assert!(parts.len() as u64 <= 1 << depth);
    if parts.is_empty() {
        return Arc::new(Tree::Zero(depth));
    }
    for d in 0..depth {
        if parts.len() % 2 == 1 {
            parts.push(Arc::new(Tree::Zero(d)));
        }
        parts = parts.chunks(2).map(|c| pair(c[0].clone(), c[1].clone())).collect();
    }
    parts.pop().unwrap()
}
pub fn container(parts: Vec<T>) -> T {
    let d = (parts.len() as u64).next_power_of_two().trailing_zeros();
    merkle(parts, d)
}
pub fn list(parts: Vec<T>, depth: u32) -> T {
    let n = parts.len() as u64;
    pair(merkle(parts, depth), num(n))
}
/// Content of the node at a generalized index.
pub fn node(t: &T, g: u64) -> Option<B32> {
    let mut cur = t.clone();
    for i in (0..63 - g.leading_zeros() as u64).rev() {
        let right = g >> i & 1 == 1;
        cur = child(&cur, right)?;
    }
    Some(cur.root())
}
fn child(t: &T, right: bool) -> Option<T> {
    match &**t {
        Tree::Leaf(_) => None,
        Tree::Pair(_, l, r) => Some(if right { r.clone() } else { l.clone() }),
        Tree::Zero(0) => None,
        Tree::Zero(d) => Some(Arc::new(Tree::Zero(d - 1))),
    }
}

/// A multiproof in parts, free to be altered.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Proof {
    pub leaves: Vec<B32>,
    pub mask: Vec<bool>,
    pub desc: Vec<bool>,
}
impl Proof {
    pub fn mp(&self) -> Multiproof<'static> {
        self.mp_hint(0)
    }
    /// With the given preallocation hint.
    pub fn mp_hint(&self, hint: u64) -> Multiproof<'static> {
        let bits = |b: &[bool]| b.iter().copied().collect();
        forge(Cow::Owned(self.leaves.concat()), bits(&self.mask), bits(&self.desc), hint as _)
    }
}
/// The proof of the given nodes, in which an index may be shown without being marked as a value.
pub fn prove_marked(t: &T, gindices: &[(u64, bool)]) -> Proof {
    fn go(t: &T, g: u64, want: &BTreeSet<(u64, bool)>, inner: &BTreeSet<u64>, p: &mut Proof) {
        let marked = want.contains(&(g, true));
        if !inner.contains(&g) || marked || want.contains(&(g, false)) {
            p.desc.push(true);
            p.mask.push(marked);
            p.leaves.push(t.root());
        } else {
            p.desc.push(false);
            go(&child(t, false).expect("below a leaf"), 2 * g, want, inner, p);
            go(&child(t, true).unwrap(), 2 * g + 1, want, inner, p);
        }
    }
    let want: BTreeSet<_> = gindices.iter().copied().collect();
    let mut inner = BTreeSet::new();
    for (g, _) in gindices {
        let mut a = g >> 1;
        while a > 0 && inner.insert(a) {
            a >>= 1;
        }
    }
    let mut p = Proof::default();
    go(t, 1, &want, &inner, &mut p);
    p
}
pub fn prove(t: &T, gindices: &[u64]) -> Proof {
    prove_marked(t, &gindices.iter().map(|g| (*g, true)).collect::<Vec<_>>())
}
