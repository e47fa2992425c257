B = "ssz-multiproofs/src/builder.rs"
BUGS = [
    {
        "id": "builder-forgets-second-half",
        "property": "C13",
        "needs": "so many requested nodes that their paths are collected in several parts",
        "breaks": "when the parts' nodes are put together, the paths of the second part are lost, so nodes on them are also given as helpers and the proof does not hold",
        "edits": [(B, "                p1.extend(p2);\n", "                if p1.is_empty() {\n                    p1 = p2;\n                }\n")],
        "features": "builder",
        "demo": '''
use ssz_multiproofs::MultiproofBuilder;
use ssz_rs::{HashTreeRoot, List};
fn main() {
    // a registry's worth of roots: every element is asked for
    for n in [8usize, 1 << 13, 1 << 16] {
        let mut l = List::<[u8; 32], 1099511627776>::default();
        for i in 0..n {
            let mut x = [0u8; 32];
            x[..8].copy_from_slice(&(i as u64 + 1).to_le_bytes());
            l.push(x);
        }
        let root = l.hash_tree_root().unwrap();
        let first = 2usize << 40;
        let m = MultiproofBuilder::new().with_gindices((0..n).map(|i| first + i)).build(&l).unwrap();
        m.verify(&root).unwrap();
        let got: Vec<u64> = m.values().map(|(g, _)| g).collect();
        assert_eq!(got, (0..n).map(|i| (first + i) as u64).collect::<Vec<_>>());
    }
}
''',
    },
]
