use crate::{GeneralizedIndex, MerkleizationError, Node, Prove};
use sha2::{Digest, Sha256};
use std::sync::{Arc, OnceLock};

/// A Merkle tree; subtrees of zero chunks are not stored.
#[derive(Debug, Clone)]
pub enum Tree {
    Leaf(Node),
    Zero(usize),
    Pair(Arc<(Node, Tree, Tree)>),
}
fn zero(depth: usize) -> Node {
    static Z: OnceLock<Vec<Node>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![Node::ZERO];
        for i in 0..64 {
            v.push(combine(&v[i], &v[i]));
        }
        v
    })[depth]
}
fn combine(a: &Node, b: &Node) -> Node {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    Node::from_slice(&h.finalize())
}
impl Tree {
    pub fn root(&self) -> Node {
        match self {
            Tree::Leaf(n) => *n,
            Tree::Zero(d) => zero(*d),
            Tree::Pair(p) => p.0,
        }
    }
    pub fn pair(a: Tree, b: Tree) -> Tree {
        Tree::Pair(Arc::new((combine(&a.root(), &b.root()), a, b)))
    }
    /// `parts` as the leftmost of (the next power of two of) `limit` nodes.
    pub fn merkleize(mut parts: Vec<Tree>, limit: usize) -> Tree {
        let depth = limit.max(1).next_power_of_two().trailing_zeros() as usize;
        assert!(parts.len() <= limit.max(1));
        if parts.is_empty() {
            return Tree::Zero(depth);
        }
        for d in 0..depth {
            if parts.len() % 2 == 1 {
                parts.push(Tree::Zero(d));
            }
            let mut i = parts.into_iter();
            let mut next = vec![];
            while let (Some(a), Some(b)) = (i.next(), i.next()) {
                next.push(Tree::pair(a, b));
            }
            parts = next;
        }
        parts.pop().unwrap()
    }
    pub fn container(parts: Vec<Tree>) -> Tree {
        let n = parts.len();
        Self::merkleize(parts, n)
    }
    pub fn bytes(b: &[u8], limit: usize) -> Tree {
        Self::merkleize(chunks(b), limit.div_ceil(32))
    }
    pub fn with_length(self, n: usize) -> Tree {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&(n as u64).to_le_bytes());
        Tree::pair(self, Tree::Leaf(b.into()))
    }
    pub fn node(&self, index: GeneralizedIndex) -> Result<Node, MerkleizationError> {
        Ok(self.subtree(index)?.root())
    }
    fn subtree(&self, index: GeneralizedIndex) -> Result<Tree, MerkleizationError> {
        if index == 0 {
            return Err(MerkleizationError::InvalidGeneralizedIndex);
        }
        let mut cur = self.clone();
        for i in (0..index.ilog2()).rev() {
            let right = index >> i & 1 == 1;
            cur = match cur {
                Tree::Pair(p) if right => p.2.clone(),
                Tree::Pair(p) => p.1.clone(),
                Tree::Zero(d) if d > 0 => Tree::Zero(d - 1),
                _ => return Err(MerkleizationError::NoInnerElement),
            };
        }
        Ok(cur)
    }
}
pub fn chunks(b: &[u8]) -> Vec<Tree> {
    b.chunks(32)
        .map(|c| {
            let mut n = [0u8; 32];
            n[..c.len()].copy_from_slice(c);
            Tree::Leaf(n.into())
        })
        .collect()
}

#[derive(Debug, Clone)]
pub struct Proof {
    pub leaf: Node,
    pub branch: Vec<Node>,
    pub index: GeneralizedIndex,
}
#[derive(Debug)]
pub struct Prover {
    proof: Proof,
}
impl From<GeneralizedIndex> for Prover {
    fn from(index: GeneralizedIndex) -> Self {
        Self { proof: Proof { leaf: Node::ZERO, branch: vec![], index } }
    }
}
impl Prover {
    pub fn compute_proof_cached_tree<T: Prove + ?Sized>(&mut self, _data: &T, tree: &Tree) -> Result<(), MerkleizationError> {
        self.proof.leaf = tree.node(self.proof.index)?;
        let mut g = self.proof.index;
        while g > 1 {
            self.proof.branch.push(tree.node(g ^ 1)?);
            g /= 2;
        }
        Ok(())
    }
    pub fn compute_proof<T: Prove>(&mut self, data: &T) -> Result<(), MerkleizationError> {
        let tree = data.compute_tree()?;
        self.compute_proof_cached_tree(data, &tree)
    }
    pub fn into_proof(self) -> Proof {
        self.proof
    }
}
impl From<Prover> for Proof {
    fn from(p: Prover) -> Self {
        p.proof
    }
}
