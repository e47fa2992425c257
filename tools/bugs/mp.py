MP = "ssz-multiproofs/src/multiproof.rs"
HEAD = '''
use std::borrow::Cow;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::guard;
use ssz_multiproofs::Multiproof;
'''
BUGS = [
    {
        "id": "mp-deep-right-index",
        "property": "C11",
        "needs": "a multiproof with a value below a right turn at depth 33 or more (validator fields lie there, the unit test's tree is five levels deep)",
        "breaks": "the gindex reported for nodes in deep right branches is truncated to 32 bits, so values are reported at the wrong index",
        "edits": [(MP, "self.current_gindex = self.stack.pop()? * 2 + 1;", "self.current_gindex = u64::from(self.stack.pop()? as u32) * 2 + 1;")],
        "demo": HEAD + '''
fn main() {
    let t = list((0..3).map(|i| leaf(val(1, "x", i))).collect(), 40);
    let g = (2u64 << 40) + 1;
    let p = prove(&t, &[g]).mp();
    p.verify(&t.root()).unwrap();
    assert_eq!(p.values().map(|(g, v)| (g, *v)).collect::<Vec<_>>(), vec![(g, val(1, "x", 1))]);
}
''',
    },
    {
        "id": "mp-trailing-subtree",
        "property": "C10",
        "needs": "a descriptor holding more than one complete tree, i.e. a forged proof with a complete foreign tree in front of the true one",
        "breaks": "the end-of-descriptor check accepts more than one tree on the stack, so only the last tree is bound to the root and the nodes before it are reported unverified",
        "edits": [(MP, "    assert_eq!(stack.len(), 1);\n    Ok(match", "    assert!(!stack.is_empty());\n    Ok(match")],
        "demo": HEAD + '''
fn main() {
    let t = pair(leaf(val(1, "a", 0)), leaf(val(1, "b", 0)));
    let good = prove(&t, &[2, 3]);
    good.mp().verify(&t.root()).unwrap();
    let mut forged = good.clone();
    forged.desc = [good.desc.clone(), good.desc.clone()].concat();
    forged.mask = [good.mask.clone(), good.mask.clone()].concat();
    forged.leaves = [vec![[7; 32], [8; 32]], good.leaves.clone()].concat();
    let p = forged.mp();
    if guard(|| p.verify(&t.root()).is_ok()) == Ok(true) {
        panic!("forged proof accepted");
    }
}
''',
    },
    {
        "id": "mp-skip-to-index",
        "property": "C11",
        "needs": "reading an index that is not next in the proof although it occurs later",
        "breaks": "a read that asserts an index silently skips values instead of reporting a mismatch",
        "edits": [(MP, "let (g, node) = self.inner.next().ok_or(Error::MissingValue)?;", "let (g, node) = self\n            .inner\n            .find(|(g, _)| *g >= gindex || g.ilog2() == gindex.ilog2())\n            .ok_or(Error::MissingValue)?;")],
        "demo": HEAD + '''
fn main() {
    let t = list((0..4).map(|i| leaf(val(1, "x", i))).collect(), 2);
    let p = prove(&t, &[8, 3]).mp();
    p.verify(&t.root()).unwrap();
    assert!(p.values().next_assert_gindex(8).is_ok());
    let t = container((0..8).map(|i| leaf(val(1, "x", i))).collect());
    let p = prove(&t, &[2, 12]).mp();
    assert!(p.values().next_assert_gindex(12).is_err(), "a value was skipped");
}
''',
    },
    {
        "id": "mp-empty-mask-not-serialized",
        "property": "C12",
        "needs": "a multiproof without any node (an empty value mask)",
        "breaks": "the value mask is left out of the serialized form when it is empty, which the non-self-describing formats cannot read back",
        "edits": [(MP, "    pub(crate) value_mask: BitVec<u32, Lsb0>,", "    #[serde(skip_serializing_if = \"BitVec::is_empty\")]\n    pub(crate) value_mask: BitVec<u32, Lsb0>,")],
        "demo": HEAD + '''
fn main() {
    for p in [Proof::default(), prove(&pair(leaf([1; 32]), leaf([2; 32])), &[2])] {
        let p = p.mp();
        let bytes = bincode::serialize(&p).unwrap();
        let q: Multiproof = bincode::deserialize(&bytes).unwrap();
        assert!(p == q);
    }
}
''',
    },
    {
        "id": "mp-values-zip-order",
        "property": "C11",
        "needs": "a proof in which a value has the all-zero content",
        "breaks": "values whose content is all zero are not reported",
        "edits": [(MP, ".filter_map(|(node, is_value)| if *is_value { Some(node) } else { None }),", ".filter_map(|(node, is_value)| {\n                    // padding nodes are never values\n                    (*is_value && node.1 != &[0u8; CHUNK_SIZE]).then_some(node)\n                }),")],
        "demo": HEAD + '''
fn main() {
    let t = container(vec![num(5), num(0), num(7)]);
    let p = prove(&t, &[4, 5, 6]).mp();
    p.verify(&t.root()).unwrap();
    assert_eq!(p.values().map(|x| x.0).collect::<Vec<_>>(), vec![4, 5, 6]);
}
''',
    },
    {
        "id": "mp-two-right-children",
        "property": "C09",
        "needs": "a forged descriptor in which a bare leaf sits in front of a complete tree",
        "breaks": "reduction no longer checks that a pair's parent is an internal node and drops leftover leaves below the root, so a leading unverified leaf is accepted",
        "edits": [
            (MP, "    assert_eq!(stack.len(), 1);\n    Ok(match", "    stack.retain(|node| !matches!(node, TreeNode::Leaf(_)));\n    assert_eq!(stack.len(), 1);\n    Ok(match"),
        ],
        "demo": HEAD + '''
fn main() {
    let t = pair(leaf(val(1, "a", 0)), leaf(val(1, "b", 0)));
    let good = prove(&t, &[2, 3]);
    let forged = Proof { leaves: [vec![[9; 32]], good.leaves.clone()].concat(), mask: vec![true; 3], desc: [vec![true], good.desc.clone()].concat() };
    let p = forged.mp();
    if guard(|| p.verify(&t.root()).is_ok()) == Ok(true) {
        assert!(p.values().all(|(g, v)| node(&t, g) == Some(*v)), "an accepted proof reports what is not in the tree");
    }
}
''',
    },
    {
        "id": "mp-skips-padding",
        "property": "C11",
        "needs": "a proof of 1 KiB or more that holds an all-zero node",
        "breaks": "all-zero nodes are taken for padding in larger proofs, so every node after one is reported at the index of its predecessor",
        "edits": [(MP, "GIndexIterator::new(&self.descriptor).zip(nodes)", "// zero chunks of larger proofs are padding\n        let padded = self.data.len() >= 1024;\n        GIndexIterator::new(&self.descriptor)\n            .zip(nodes.filter(move |node| !padded || node.iter().any(|b| *b != 0)))")],
        "demo": HEAD + '''
fn main() {
    let n = 64u64;
    let t = list((0..n).map(|i| leaf(if i == 40 { [0; 32] } else { val(1, "x", i) })).collect(), 6);
    let all: Vec<u64> = (0..n).map(|i| t_index(i)).collect();
    let p = prove(&t, &all).mp();
    p.verify(&t.root()).unwrap();
    for i in 0..n {
        let want = if i == 40 { [0; 32] } else { val(1, "x", i) };
        assert_eq!(p.get(t_index(i)).copied(), Some(want), "element {i}");
    }
}
fn t_index(i: u64) -> u64 {
    (2 << 6) + i
}
''',
    },
]
