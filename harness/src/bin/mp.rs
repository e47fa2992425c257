//! C09-C12: `ssz-multiproofs`, explored over all proof descriptions up to a length, deep spines and malformed data.
use bitvec::prelude::*;
use rayon::prelude::*;
use serde_json::json;
use ssz_multiproofs::{Error, Multiproof};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use verif_harness::util::*;
use verif_harness::{guard, start, Ctx};

type Mp = Multiproof<'static>;

fn make(data: &[u8], mask: &[bool], desc: &[bool], hint: usize) -> Mp {
    forge(Cow::Owned(data.to_vec()), bits(mask), bits(desc), hint)
}
fn bits(b: &[bool]) -> BitVec<u32, Lsb0> {
    b.iter().copied().collect()
}
fn flat(leaves: &[B32]) -> Vec<u8> {
    leaves.concat()
}

/// The oracle: a proof description read as the preorder of a full binary tree (0 inner node, 1 leaf).
#[derive(Clone)]
struct Shape {
    desc: Vec<bool>,
    /// the path from the root to each leaf, left to right
    paths: Vec<Vec<bool>>,
}
impl Shape {
    /// `None` unless the whole string is the preorder of one tree.
    fn parse(desc: &[bool]) -> Option<Shape> {
        let s = Self::prefix(desc)?;
        (s.desc.len() == desc.len()).then_some(s)
    }
    /// The tree described by the (only) prefix that is complete.
    fn prefix(desc: &[bool]) -> Option<Shape> {
        fn node(desc: &[bool], pos: &mut usize, path: &mut Vec<bool>, out: &mut Vec<Vec<bool>>) -> Option<()> {
            let b = *desc.get(*pos)?;
            *pos += 1;
            if b {
                out.push(path.clone());
            } else {
                for side in [false, true] {
                    path.push(side);
                    node(desc, pos, path, out)?;
                    path.pop();
                }
            }
            Some(())
        }
        let (mut pos, mut paths) = (0, vec![]);
        node(desc, &mut pos, &mut vec![], &mut paths)?;
        Some(Shape { desc: desc[..pos].to_vec(), paths })
    }
    fn n(&self) -> usize {
        self.paths.len()
    }
    fn depth(&self) -> usize {
        self.paths.iter().map(|p| p.len()).max().unwrap()
    }
    /// Content of every node, by path.
    fn nodes(&self, leaves: &[B32]) -> BTreeMap<Vec<bool>, B32> {
        fn node(desc: &[bool], pos: &mut usize, next: &mut usize, leaves: &[B32], path: &mut Vec<bool>, out: &mut BTreeMap<Vec<bool>, B32>) -> B32 {
            let b = desc[*pos];
            *pos += 1;
            let v = if b {
                *next += 1;
                leaves[*next - 1]
            } else {
                path.push(false);
                let l = node(desc, pos, next, leaves, path, out);
                path.pop();
                path.push(true);
                let r = node(desc, pos, next, leaves, path, out);
                path.pop();
                hash2(&l, &r)
            };
            out.insert(path.clone(), v);
            v
        }
        let mut out = BTreeMap::new();
        node(&self.desc, &mut 0, &mut 0, leaves, &mut vec![], &mut out);
        out
    }
    fn root(&self, leaves: &[B32]) -> B32 {
        self.nodes(leaves)[&vec![]]
    }
}
/// A tree too large for the map of all its nodes.
struct Large {
    name: String,
    desc: Vec<bool>,
    /// index of each leaf, left to right
    indices: Vec<u64>,
}
impl Large {
    fn new(name: String, desc: Vec<bool>) -> Large {
        fn node(desc: &[bool], pos: &mut usize, g: u64, out: &mut Vec<u64>) {
            *pos += 1;
            if desc[*pos - 1] {
                out.push(g);
            } else {
                node(desc, pos, 2 * g, out);
                node(desc, pos, 2 * g + 1, out);
            }
        }
        let (mut pos, mut indices) = (0, vec![]);
        node(&desc, &mut pos, 1, &mut indices);
        assert_eq!(pos, desc.len());
        Large { name, desc, indices }
    }
    fn root(&self, leaves: &[B32]) -> B32 {
        fn node(desc: &[bool], pos: &mut usize, next: &mut usize, leaves: &[B32]) -> B32 {
            *pos += 1;
            if desc[*pos - 1] {
                *next += 1;
                leaves[*next - 1]
            } else {
                let l = node(desc, pos, next, leaves);
                let r = node(desc, pos, next, leaves);
                hash2(&l, &r)
            }
        }
        node(&self.desc, &mut 0, &mut 0, leaves)
    }
}
/// Trees whose numbers of leaves, nodes and bytes lie around powers of two, up to 2^max leaves.
fn large(max: u32) -> Vec<Large> {
    fn balanced(n: usize, out: &mut Vec<bool>) {
        out.push(n == 1);
        if n > 1 {
            balanced(n - n / 2, out);
            balanced(n / 2, out);
        }
    }
    let mut out = vec![];
    for k in 5..=max {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2] {
            if n > 1 << 12 && (n % 2 == 0) != (k % 2 == 0) && n != 1 << 16 {
                continue;
            }
            let mut d = vec![];
            balanced(n, &mut d);
            // the tree itself, and below a list's top: first and last in its depth
            out.push(Large::new(format!("balanced, {n} leaves"), d.clone()));
            if [8, 11, 16].contains(&k) {
                for side in [false, true] {
                    let deep = 40 - k as usize;
                    let mut x = vec![];
                    for _ in 0..deep {
                        x.push(false);
                        if side {
                            x.push(true);
                        }
                    }
                    x.extend(&d);
                    if !side {
                        x.extend(vec![true; deep]);
                    }
                    out.push(Large::new(format!("balanced, {n} leaves, {deep} below the root, right {side}"), x));
                }
            }
        }
    }
    out
}
fn numbered(ctx: &Ctx, n: usize) -> Vec<B32> {
    let base = val(ctx.seed, "large", n as u64);
    (0..n)
        .map(|i| {
            let mut v = base;
            v[..8].copy_from_slice(&(i as u64).to_be_bytes());
            v
        })
        .collect()
}
/// Positions around every power of two.
/// Numbered leaves, and leaves of which many are equal to others: zero, full, or one and the same.
fn contents(ctx: &Ctx, n: usize) -> [Vec<B32>; 2] {
    let distinct = numbered(ctx, n);
    let mut same = distinct.clone();
    for i in 0..n {
        match i % 8 {
            1 | 5 => same[i] = [0; 32],
            2 => same[i] = [0xff; 32],
            3 => same[i] = same[0],
            6 => same[i] = hash2(&[0; 32], &[0; 32]),
            _ => {}
        }
    }
    [distinct, same]
}
fn marks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..usize::BITS - 1).map(|k| 1usize << k).take_while(|p| *p <= n).flat_map(|p| [p - 1, p, p + 1]).chain([n - 1, n - 2, n / 3, 2 * n / 3]).filter(|p| *p < n).collect();
    v.sort();
    v.dedup();
    v
}

/// The generalized index of a path, where it exists as a 64-bit number.
fn gindex(path: &[bool]) -> Option<u64> {
    (path.len() <= 63).then(|| path.iter().fold(1u64, |g, b| g * 2 + *b as u64))
}

/// All bit strings of a length.
fn strings(len: usize) -> impl ParallelIterator<Item = Vec<bool>> {
    (0u64..1 << len).into_par_iter().map(move |x| (0..len).map(|i| x >> i & 1 == 1).collect())
}
/// All complete descriptions with at most `leaves` leaves.
fn shapes(leaves: usize) -> Vec<Shape> {
    fn trees(n: usize, memo: &mut HashMap<usize, Vec<Vec<bool>>>) -> Vec<Vec<bool>> {
        if n == 1 {
            return vec![vec![true]];
        }
        if let Some(v) = memo.get(&n) {
            return v.clone();
        }
        let mut out = vec![];
        for l in 1..n {
            for a in trees(l, memo) {
                for b in trees(n - l, memo) {
                    let mut t = vec![false];
                    t.extend(&a);
                    t.extend(&b);
                    out.push(t);
                }
            }
        }
        memo.insert(n, out.clone());
        out
    }
    let mut memo = HashMap::new();
    (1..=leaves).flat_map(|n| trees(n, &mut memo)).map(|d| Shape::parse(&d).unwrap()).collect()
}
/// A spine: the node at the end of `path` with all siblings of the path, and `bush` in the place of that node.
fn spine(path: &[bool], bush: &[bool]) -> Shape {
    // left siblings come before, right siblings after the rest
    let mut desc: Vec<bool> = vec![];
    let mut after = 0;
    for side in path {
        desc.push(false);
        if *side {
            desc.push(true);
        } else {
            after += 1;
        }
    }
    desc.extend(bush);
    desc.extend(std::iter::repeat_n(true, after));
    Shape::parse(&desc).unwrap()
}
fn spine_paths(max: usize) -> Vec<Vec<bool>> {
    let mut out = vec![];
    for d in 1..=max {
        for base in [false, true] {
            out.push(vec![base; d]);
            out.push((0..d).map(|i| (i % 2 == 0) == base).collect());
            for k in 0..d {
                let mut p = vec![base; d];
                p[k] = !base;
                out.push(p);
            }
        }
        // a path that ends like a small generalized index
        for low in 1u64..16 {
            out.push((0..d).map(|i| d - 1 - i < 64 && low >> (d - 1 - i) & 1 == 1).collect());
        }
    }
    out.sort();
    out.dedup();
    out
}
fn leaves(ctx: &Ctx, n: usize, label: &str) -> Vec<B32> {
    (0..n as u64).map(|i| val(ctx.seed, label, i)).collect()
}
fn show(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}
fn describe(shape: &[bool], mask: &[bool], data: &[u8], hint: usize) -> String {
    format!("descriptor={} mask={} data({} bytes)={} hint={hint}", show(shape), show(mask), data.len(), hex(&data[..data.len().min(320)]))
}
/// Masks worth looking at for n leaves: all of them when there are few.
fn masks(n: usize, all_up_to: usize) -> Vec<Vec<bool>> {
    if n <= all_up_to {
        return (0u64..1 << n).map(|x| (0..n).map(|i| x >> i & 1 == 1).collect()).collect();
    }
    let mut out = vec![vec![false; n], vec![true; n]];
    out.push((0..n).map(|i| i % 2 == 0).collect());
    for i in 0..n {
        out.push((0..n).map(|j| j == i).collect());
        out.push((0..n).map(|j| j != i).collect());
    }
    out
}

/// Soundness of one proof object: if it verifies against `root`, all it reports must be in the tree of that root.
/// `truth` is the content by path of the tree with root `truth[""]`.
fn sound(ctx: &Ctx, space: &str, mp: &Mp, root: &B32, truth: &BTreeMap<Vec<bool>, B32>, by_index: &HashMap<u64, B32>, what: &dyn Fn() -> String) {
    let accepted = matches!(guard(|| mp.verify(root)), Ok(Ok(())));
    ctx.eval(accepted);
    if !accepted {
        return;
    }
    let same_tree = truth.get(&vec![]) == Some(root);
    let truth = |g: u64| if same_tree { by_index.get(&g).copied() } else { (g == 1).then_some(*root) };
    let report = |how: &str, g: u64, v: &B32| {
        ctx.check(truth(g) == Some(*v), space, "forged-value", || {
            format!("accepted against root {} but {how} reports ({g}, {}), tree has {:?}; {}", hex(root), hex(v), truth(g).map(|x| hex(&x)), what())
        });
    };
    let r = guard(|| {
        for (g, v) in mp.nodes() {
            report("nodes()", g, v);
        }
        let mut seen = vec![];
        for (g, v) in mp.values() {
            report("values()", g, v);
            seen.push(g);
        }
        for g in seen.iter().copied().chain([0, 1, 2, 3, 4, 5, 8, 11, 66, 75, u64::MAX, 1 << 63]) {
            if let Some(v) = mp.get(g) {
                report("get()", g, v);
            }
            let mut it = mp.values();
            if let Ok(v) = it.next_assert_gindex(g) {
                report("next_assert_gindex()", g, v);
            }
        }
    });
    let _ = r; // an abort while reading reports nothing
}
fn index_map(truth: &BTreeMap<Vec<bool>, B32>) -> HashMap<u64, B32> {
    truth.iter().filter_map(|(p, v)| gindex(p).map(|g| (g, *v))).collect()
}

fn c09(ctx: &'static Ctx) -> ! {
    let len = ctx.pick(15, 20);
    ctx.space("all-descriptors", || {
        for l in 0..=len {
            strings(l).for_each(|d| {
                if ctx.stopped() {
                    return;
                }
                let ones = d.iter().filter(|b| **b).count();
                let lv = leaves(ctx, ones + 1, "leaf");
                let tree = Shape::prefix(&d);
                let truth = tree.as_ref().map(|t| t.nodes(&lv)).unwrap_or_default();
                let idx = index_map(&truth);
                for extra in 0..=1 {
                    let data = flat(&lv[..ones + extra]);
                    for mask in masks(ones + extra, if l <= 9 { 6 } else { 1 }) {
                        let mp = make(&data, &mask, &d, 4);
                        let what = || describe(&d, &mask, &data, 4);
                        // the root the tree has, and whatever root the proof itself would verify against
                        let own = guard(|| mp.calculate_root()).ok().and_then(|r| r.ok());
                        let mut roots = vec![];
                        roots.extend(truth.get(&vec![]).copied());
                        roots.extend(own);
                        roots.sort();
                        roots.dedup();
                        for r in roots {
                            sound(ctx, "all-descriptors", &mp, &r, &truth, &idx, &what);
                        }
                    }
                }
            });
        }
    });
    ctx.space("deep-spines", || {
        let paths = spine_paths(ctx.pick(132, 200));
        paths.par_iter().for_each(|p| {
            if ctx.stopped() {
                return;
            }
            let s = spine(p, &[true]);
            let lv = leaves(ctx, s.n(), "deep");
            let truth = s.nodes(&lv);
            let idx = index_map(&truth);
            let data = flat(&lv);
            let deepest = s.paths.iter().position(|q| q == p).unwrap();
            for mask in [vec![true; s.n()], (0..s.n()).map(|i| i == deepest).collect::<Vec<_>>()] {
                for hint in [0, 64, 200, 5000] {
                    let mp = make(&data, &mask, &s.desc, hint);
                    sound(ctx, "deep-spines", &mp, &truth[&vec![]], &truth, &idx, &|| describe(&s.desc, &mask, &data, hint));
                }
            }
        });
    });
    ctx.space("deep-bushes", || {
        let bushes = shapes(ctx.pick(6, 7));
        let depths: Vec<usize> = (56..=ctx.pick(70, 132)).collect();
        depths.par_iter().for_each(|d| {
            for b in &bushes {
                for low in 0..8u64 {
                    let p: Vec<bool> = (0..*d).map(|i| low >> ((d - 1 - i) % 64) & 1 == 1).collect();
                    let s = spine(&p, &b.desc);
                    let lv = leaves(ctx, s.n(), "bush");
                    let truth = s.nodes(&lv);
                    let idx = index_map(&truth);
                    let data = flat(&lv);
                    let mask = vec![true; s.n()];
                    for hint in [0, 300] {
                        let mp = make(&data, &mask, &s.desc, hint);
                        sound(ctx, "deep-bushes", &mp, &truth[&vec![]], &truth, &idx, &|| describe(&s.desc, &mask, &data, hint));
                    }
                }
            }
        });
    });
    let small = shapes(ctx.pick(6, 8));
    ctx.space("data-and-mask-lengths", || {
        small.par_iter().filter(|s| s.n() >= 2).for_each(|s| {
            let lv = leaves(ctx, s.n() + 2, "len");
            let truth = s.nodes(&lv);
            let idx = index_map(&truth);
            let full = flat(&lv);
            for bytes in 0..=full.len() {
                if bytes % 32 > 2 && bytes % 32 < 30 {
                    continue;
                }
                for mlen in 0..=s.n() + 2 {
                    for mask in masks(mlen, if s.n() <= 5 { 5 } else { 2 }) {
                        let mp = make(&full[..bytes], &mask, &s.desc, 3);
                        sound(ctx, "data-and-mask-lengths", &mp, &truth[&vec![]], &truth, &idx, &|| describe(&s.desc, &mask, &full[..bytes], 3));
                    }
                }
            }
        });
    });
    ctx.space("tampered-data", || {
        small.par_iter().filter(|s| s.n() >= 2).for_each(|s| {
            let lv = leaves(ctx, s.n(), "tamper");
            let truth = s.nodes(&lv);
            let idx = index_map(&truth);
            let root = truth[&vec![]];
            let mask = vec![true; s.n()];
            let try_data = |d: Vec<B32>, r: B32| {
                let data = flat(&d);
                let mp = make(&data, &mask, &s.desc, 3);
                sound(ctx, "tampered-data", &mp, &r, &truth, &idx, &|| describe(&s.desc, &mask, &data, 3));
            };
            // every byte of every leaf, every swap and copy of leaves, inner nodes in the place of leaves
            for i in 0..s.n() {
                for byte in 0..32 {
                    for bit in [0, 7] {
                        let mut d = lv.clone();
                        d[i][byte] ^= 1 << bit;
                        try_data(d, root);
                    }
                }
                for j in 0..s.n() {
                    let mut d = lv.clone();
                    d.swap(i, j);
                    try_data(d, root);
                    let mut d = lv.clone();
                    d[i] = d[j];
                    try_data(d, root);
                }
                for v in truth.values() {
                    let mut d = lv.clone();
                    d[i] = *v;
                    try_data(d, root);
                }
            }
            // wrong roots
            for byte in 0..32 {
                for bit in 0..8 {
                    let mut r = root;
                    r[byte] ^= 1 << bit;
                    try_data(lv.clone(), r);
                }
            }
            for v in truth.values().chain([&[0; 32]]) {
                try_data(lv.clone(), *v);
            }
        });
    });
    ctx.space("re-shaped", || {
        // proofs of one shape presented against the root of another with as many leaves
        let by_n: Vec<&Shape> = small.iter().filter(|s| s.n() >= 2).collect();
        by_n.par_iter().for_each(|a| {
            let lv = leaves(ctx, a.n(), "reshape");
            let truth = a.nodes(&lv);
            let idx = index_map(&truth);
            for b in small.iter().filter(|b| b.n() == a.n()) {
                let mask = vec![true; a.n()];
                let data = flat(&lv);
                let mp = make(&data, &mask, &b.desc, 3);
                sound(ctx, "re-shaped", &mp, &truth[&vec![]], &truth, &idx, &|| describe(&b.desc, &mask, &data, 3));
            }
        });
    });
    ctx.space("repeated-values", || repeated(ctx, "repeated-values", |s, lv, mp, data, mask| {
        let truth = s.nodes(lv);
        let idx = index_map(&truth);
        sound(ctx, "repeated-values", mp, &truth[&vec![]], &truth, &idx, &|| describe(&s.desc, mask, data, 3));
    }));
    ctx.space("large", || {
        large(ctx.pick(16, 19)).par_iter().for_each(|l| {
            if ctx.stopped() {
                return;
            }
          for lv in contents(ctx, l.indices.len()) {
            let root = l.root(&lv);
            let idx: HashMap<u64, B32> = l.indices.iter().copied().zip(lv.iter().copied()).collect();
            let n = lv.len();
            let look = |d: &[B32], what: &dyn Fn() -> String| {
                let mp = make(&flat(d), &vec![true; d.len()], &l.desc, 3);
                let accepted = matches!(guard(|| mp.verify(&root)), Ok(Ok(())));
                ctx.eval(accepted);
                if accepted {
                    let wrong = guard(|| mp.nodes().map(|(g, v)| (g, *v)).chain(mp.values().map(|(g, v)| (g, *v))).find(|(g, v)| idx.get(g) != Some(v)));
                    ctx.check(!matches!(wrong, Ok(Some(_))), "large", "forged-value", || format!("{}, {}: accepted, but reports {wrong:?}", l.name, what()));
                }
            };
            look(&lv, &|| "true leaves".into());
            // what it reports is also in the tree of the root it computes itself, whichever that is
            let own = guard(|| make(&flat(&lv), &vec![true; n], &l.desc, 3).calculate_root()).ok().and_then(|r| r.ok());
            ctx.check(own.is_none_or(|r| r == root), "large", "forged-value", || format!("{}: accepted against another tree's root {own:?}", l.name));
            let at = marks(n);
            let at: Vec<usize> = if n > 5000 { at.iter().copied().filter(|p| p % 256 < 2 || *p + 3 > n).collect() } else { at };
            for p in at {
                let mut d = lv.clone();
                d[p][31] ^= 1;
                look(&d, &|| format!("leaf {p} changed"));
                let mut d = lv.clone();
                d.swap(p, (p + 1) % n);
                look(&d, &|| format!("leaf {p} and the next one exchanged"));
            }
          }
        });
    });
    ctx.sample(|| json!({"descriptor": "00111 with leaves a b c", "reports": "(4,a) (5,b) (3,c)"}));
    ctx.sample(|| json!({"descriptor": show(&spine(&[true; 64], &[true]).desc), "depth": 64, "expected": "not accepted, or nothing reported at a 64-bit index for the deepest leaves"}));
    ctx.finish(
        "exploration",
        "every proof object of the stated spaces is built, verified against the oracle tree's root (and the root it computes itself) and, if accepted, everything it reports is looked up in the oracle tree; non-trivial = accepted",
        &["SHA-256 has no collisions among the explored values"],
        json!({"max_descriptor_len": len, "max_depth": ctx.pick(132, 200)}),
    )
}

/// All assignments of two values (and zero) to the leaves of small shapes.
fn repeated(ctx: &Ctx, _space: &str, f: impl Fn(&Shape, &[B32], &Mp, &[u8], &[bool]) + Sync) {
    let pool = [[0u8; 32], val(ctx.seed, "a", 0), [0xff; 32], hash2(&[0; 32], &[0; 32])];
    shapes(ctx.pick(5, 6)).par_iter().filter(|s| s.n() >= 2).for_each(|s| {
        product(&vec![pool.len(); s.n()], |c| {
            let lv: Vec<B32> = c.iter().map(|i| pool[*i]).collect();
            let data = flat(&lv);
            let mask = vec![true; s.n()];
            let mp = make(&data, &mask, &s.desc, 3);
            f(s, &lv, &mp, &data, &mask);
        });
    });
}

fn c10(ctx: &'static Ctx) -> ! {
    let fails = |mp: &Mp, root: &B32| !matches!(guard(|| mp.verify(root)), Ok(Ok(())));
    let computes = |mp: &Mp| guard(|| mp.calculate_root()).ok().and_then(|r| r.ok());
    let len = ctx.pick(19, 23);
    ctx.space("all-descriptors", || {
        for l in 0..=len {
            strings(l).for_each(|d| {
                if ctx.stopped() {
                    return;
                }
                let ones = d.iter().filter(|b| **b).count();
                let lv = leaves(ctx, ones, "leaf");
                let data = flat(&lv);
                let mask = vec![true; ones];
                let mp = make(&data, &mask, &d, 4);
                let shape = Shape::parse(&d);
                ctx.eval(shape.is_some());
                match shape {
                    Some(s) if s.n() >= 2 => {
                        let root = s.root(&lv);
                        let got = computes(&mp);
                        ctx.check(got == Some(root), "all-descriptors", "root", || {
                            format!("computed root {:?}, tree has {}; {}", got.map(|r| hex(&r)), hex(&root), describe(&d, &mask, &data, 4))
                        });
                        ctx.check(!fails(&mp, &root), "all-descriptors", "rejected", || format!("a matching proof is rejected; {}", describe(&d, &mask, &data, 4)));
                    }
                    Some(_) => {
                        // a lone leaf proves nothing
                        let got = computes(&mp);
                        ctx.check(got.is_none() && fails(&mp, &lv[0]) && fails(&mp, &[0; 32]), "all-descriptors", "lone-leaf", || format!("lone leaf has root {got:?}"));
                    }
                    None => {
                        let got = computes(&mp);
                        ctx.check(got.is_none(), "all-descriptors", "malformed-accepted", || {
                            format!("a malformed description has a root; {}", describe(&d, &mask, &data, 4))
                        });
                        // with more data than it can use
                        let more = flat(&leaves(ctx, l + 2, "leaf"));
                        let mp = make(&more, &mask, &d, 4);
                        ctx.check(computes(&mp).is_none(), "all-descriptors", "malformed-accepted", || {
                            format!("a malformed description has a root; {}", describe(&d, &mask, &more, 4))
                        });
                        if let Some(p) = Shape::prefix(&d) {
                            ctx.check(fails(&mp, &p.root(&lv)), "all-descriptors", "malformed-accepted", || "over-long description verified".into());
                        }
                        for r in lv.first().into_iter().chain([&[0u8; 32]]) {
                            ctx.check(fails(&mp, r), "all-descriptors", "malformed-accepted", || format!("malformed description verifies; {}", describe(&d, &mask, &more, 4)));
                        }
                    }
                }
            });
        }
    });
    let small = shapes(ctx.pick(7, 9));
    ctx.space("hints-and-storage", || {
        small.par_iter().filter(|s| s.n() >= 2).for_each(|s| {
            let lv = leaves(ctx, s.n(), "hint");
            let root = s.root(&lv);
            let data = flat(&lv);
            for hint in [0, 1, 2, 3, s.depth(), s.desc.len(), 64, 1000] {
                for mask in [vec![true; s.n()], vec![false; s.n()], vec![]] {
                    ctx.eval(true);
                    let mp = make(&data, &mask, &s.desc, hint);
                    ctx.check(computes(&mp) == Some(root) && !fails(&mp, &root), "hints-and-storage", "hint", || format!("wrong root; {}", describe(&s.desc, &mask, &data, hint)));
                    let borrowed = forge(Cow::Borrowed(&data), bits(&mask), bits(&s.desc), hint);
                    ctx.check(matches!(guard(|| borrowed.verify(&root)), Ok(Ok(()))), "hints-and-storage", "hint", || format!("borrowed data rejected; {}", describe(&s.desc, &mask, &data, hint)));
                }
            }
            let mp = make(&data, &[true], &s.desc, usize::MAX);
            let got = computes(&mp);
            ctx.eval(true);
            ctx.check(got.is_none() || got == Some(root), "hints-and-storage", "hint", || "absurd hint changes the root".into());
        });
    });
    ctx.space("missing-data", || {
        small.par_iter().filter(|s| s.n() >= 2).for_each(|s| {
            let lv = leaves(ctx, s.n(), "short");
            let root = s.root(&lv);
            let data = flat(&lv);
            for bytes in 0..data.len() {
                ctx.eval(true);
                let mp = make(&data[..bytes], &vec![true; s.n()], &s.desc, 3);
                ctx.check(computes(&mp).is_none() && fails(&mp, &root), "missing-data", "missing-data", || format!("accepted without all leaves; {}", describe(&s.desc, &[], &data[..bytes], 3)));
            }
        });
    });
    ctx.space("leaf-and-root-dependence", || {
        small.par_iter().filter(|s| s.n() >= 2).for_each(|s| {
            let lv = leaves(ctx, s.n(), "dep");
            let root = s.root(&lv);
            let mask = vec![true; s.n()];
            for i in 0..s.n() {
                for bit in 0..256 {
                    if s.n() > 5 && bit % 8 != 3 {
                        continue;
                    }
                    let mut d = lv.clone();
                    d[i][bit / 8] ^= 1 << (bit % 8);
                    ctx.eval(true);
                    let mp = make(&flat(&d), &mask, &s.desc, 3);
                    ctx.check(fails(&mp, &root) && computes(&mp) != Some(root), "leaf-and-root-dependence", "leaf", || format!("bit {bit} of leaf {i} does not matter; {}", describe(&s.desc, &mask, &flat(&d), 3)));
                    let e = guard(|| mp.verify(&s.root(&d)));
                    ctx.check(matches!(e, Ok(Ok(()))), "leaf-and-root-dependence", "leaf", || format!("matching proof rejected: {e:?}"));
                }
            }
            let mp = make(&flat(&lv), &mask, &s.desc, 3);
            for bit in 0..256 {
                let mut r = root;
                r[bit / 8] ^= 1 << (bit % 8);
                ctx.eval(true);
                ctx.check(fails(&mp, &r), "leaf-and-root-dependence", "root", || format!("verifies against a root that differs in bit {bit}; {}", show(&s.desc)));
            }
            for r in lv.iter().chain(s.nodes(&lv).values()).chain([&[0; 32]]) {
                ctx.eval(true);
                ctx.check(*r == root || fails(&mp, r), "leaf-and-root-dependence", "root", || format!("verifies against {}; {}", hex(r), show(&s.desc)));
            }
        });
        // all shapes over the same leaves have different roots
        let lv = leaves(ctx, 16, "pair");
        let mut seen: HashMap<B32, Vec<bool>> = HashMap::new();
        for s in shapes(ctx.pick(9, 11)).iter().filter(|s| s.n() >= 2) {
            ctx.eval(true);
            if let Some(r) = computes(&make(&flat(&lv[..s.n()]), &[], &s.desc, 3)) {
                if let Some(o) = seen.insert(r, s.desc.clone()) {
                    ctx.violation("leaf-and-root-dependence", "shape", || format!("{} and {} have the same root", show(&o), show(&s.desc)));
                }
            }
        }
    });
    ctx.space("repeated-values", || repeated(ctx, "repeated-values", |s, lv, mp, data, mask| {
        let root = s.root(lv);
        ctx.eval(true);
        ctx.check(computes(mp) == Some(root) && !fails(mp, &root), "repeated-values", "root", || format!("wrong root; {}", describe(&s.desc, mask, data, 3)));
    }));
    ctx.space("deep-and-wide", || {
        // every spine whose indices fit in 64 bits, and complete trees
        spine_paths(63).par_iter().for_each(|p| {
            let s = spine(p, &[true]);
            let lv = leaves(ctx, s.n(), "spine");
            let root = s.root(&lv);
            ctx.eval(true);
            let mp = make(&flat(&lv), &vec![true; s.n()], &s.desc, 3);
            ctx.check(computes(&mp) == Some(root) && !fails(&mp, &root), "deep-and-wide", "root", || format!("wrong root; {}", show(&s.desc)));
            let mut r = root;
            r[31] ^= 1;
            ctx.check(fails(&mp, &r), "deep-and-wide", "root", || format!("wrong root accepted; {}", show(&s.desc)));
        });
        // bushes at the ends of spines: accepted up to the depth of 63, and refused beyond
        let bushes = shapes(ctx.pick(6, 7));
        (1..=70usize).into_par_iter().for_each(|d| {
            for b in bushes.iter().filter(|b| d > 50 || b.n() <= 5) {
                for low in 0..8u64 {
                    let p: Vec<bool> = (0..d).map(|i| low >> ((d - 1 - i) % 3) & 1 == 1).collect();
                    let s = spine(&p, &b.desc);
                    let lv = leaves(ctx, s.n(), "bush");
                    let root = s.root(&lv);
                    let fits = s.depth() <= 63;
                    ctx.eval(fits);
                    for hint in [0, 3, 300] {
                        let mp = make(&flat(&lv), &vec![true; s.n()], &s.desc, hint);
                        ctx.check(if fits { computes(&mp) == Some(root) && !fails(&mp, &root) } else { computes(&mp).is_none() && fails(&mp, &root) }, "deep-and-wide", "bush", || format!("depth {}, hint {hint}: {}; {}", s.depth(), if fits { "refused, or another root" } else { "accepted" }, show(&s.desc)));
                    }
                }
            }
        });
        // spines that are too deep
        spine_paths(ctx.pick(132, 200)).par_iter().filter(|p| p.len() > 63).for_each(|p| {
            let s = spine(p, &[true]);
            let lv = leaves(ctx, s.n(), "spine");
            let root = s.root(&lv);
            for hint in [0, 64, 150, 5000] {
                ctx.eval(true);
                let mp = make(&flat(&lv), &[], &s.desc, hint);
                ctx.check(computes(&mp).is_none() && fails(&mp, &root), "deep-and-wide", "too deep", || format!("accepted with a depth of {}: {}", s.depth(), show(&s.desc)));
            }
        });
        for depth in 1..=ctx.pick(13, 17) {
            fn full(d: usize) -> Vec<bool> {
                if d == 0 {
                    return vec![true];
                }
                let h = full(d - 1);
                [vec![false], h.clone(), h].concat()
            }
            let s = Shape::parse(&full(depth)).unwrap();
            let lv = leaves(ctx, s.n(), "full");
            let root = s.root(&lv);
            ctx.eval(true);
            let mp = make(&flat(&lv), &[], &s.desc, depth);
            ctx.check(computes(&mp) == Some(root) && !fails(&mp, &root), "deep-and-wide", "root", || format!("wrong root of the complete tree of depth {depth}"));
        }
    });
    ctx.space("large", || {
        large(ctx.pick(17, 20)).par_iter().for_each(|l| {
            if ctx.stopped() {
                return;
            }
            let n = l.indices.len();
            // numbered leaves, and the same leaf everywhere
            for lv in [numbered(ctx, n), vec![[0; 32]; n], vec![[7; 32]; n]] {
                let root = l.root(&lv);
                let data = flat(&lv);
                let hints: &[usize] = if n > 5000 { &[0, 64] } else { &[0, 1, 17, 64, 1 << 20] };
                for hint in hints {
                    let mp = make(&data, &[], &l.desc, *hint);
                    ctx.eval(true);
                    ctx.check(computes(&mp) == Some(root) && !fails(&mp, &root), "large", "root", || format!("wrong root of {}", l.name));
                    let mut r = root;
                    r[0] ^= 128;
                    ctx.check(fails(&mp, &r), "large", "root", || format!("wrong root of {} accepted", l.name));
                }
                // one bit of the description missing, one too many, a leaf missing
                let short = make(&data, &[], &l.desc[..l.desc.len() - 1], 3);
                let long = [&l.desc[..], &[true]].concat();
                let long = make(&[&data[..], &[1; 32]].concat(), &[], &long, 3);
                let less = make(&data[..data.len() - 32], &[], &l.desc, 3);
                for (what, mp) in [("short", short), ("long", long), ("without its last leaf", less)] {
                    ctx.eval(true);
                    ctx.check(computes(&mp).is_none() && fails(&mp, &root), "large", "malformed-accepted", || format!("description of {} {what}: accepted", l.name));
                }
            }
        });
    });
    ctx.space("uniform", || {
        // complete trees of one value, whose nodes repeat on every level
        for depth in 1..=ctx.pick(12usize, 15) {
            for v in [[0u8; 32], [0xff; 32], hash2(&[0; 32], &[0; 32])] {
                let mut desc = vec![true];
                let mut root = v;
                for _ in 0..depth {
                    desc = [vec![false], desc.clone(), desc].concat();
                    root = hash2(&root, &root);
                }
                let mp = make(&vec![v; 1 << depth].concat(), &[], &desc, depth);
                ctx.eval(true);
                ctx.check(computes(&mp) == Some(root) && !fails(&mp, &root), "uniform", "root", || format!("wrong root of a complete tree of depth {depth} of equal leaves"));
            }
        }
    });
    ctx.sample(|| json!({"descriptor": "0111", "leaves": 3, "expected": "error or abort (over-long)"}));
    ctx.sample(|| json!({"descriptor": "00111", "leaves": 3, "expected": "root h(h(a,b),c)"}));
    ctx.finish(
        "exploration",
        "every bit string up to the stated length as a description, plus the variations named by the spaces, against an independent recursive reading of the description; non-trivial = complete description or its direct variation",
        &["SHA-256 has no collisions among the explored values"],
        json!({"max_descriptor_len": len}),
    )
}

fn c11(ctx: &'static Ctx) -> ! {
    let one = |space: &str, s: &Shape, lv: &[B32], mask: &[bool]| {
        ctx.eval(mask.iter().any(|b| *b));
        let data = flat(lv);
        let mp = make(&data, mask, &s.desc, 3);
        let what = || describe(&s.desc, mask, &data, 3);
        let all: Vec<(u64, B32)> = s.paths.iter().zip(lv).map(|(p, v)| (gindex(p).unwrap(), *v)).collect();
        let want: Vec<(u64, B32)> = all.iter().zip(mask).filter(|(_, m)| **m).map(|(x, _)| *x).collect();
        let r = guard(|| {
            let nodes: Vec<(u64, B32)> = mp.nodes().map(|(g, v)| (g, *v)).collect();
            ctx.check(nodes == all, space, "nodes", || format!("nodes() gives {:?}; {}", nodes.iter().map(|x| x.0).collect::<Vec<_>>(), what()));
            let vals: Vec<(u64, B32)> = mp.values().map(|(g, v)| (g, *v)).collect();
            ctx.check(vals == want, space, "values", || format!("values() gives {:?}; {}", vals.iter().map(|x| x.0).collect::<Vec<_>>(), what()));
            // lookup of every index near the tree
            let mut probe: Vec<u64> = vec![0, u64::MAX, 1 << 63];
            for p in s.nodes(lv).keys() {
                let g = gindex(p).unwrap();
                probe.extend([g, g ^ 1, g.saturating_add(1), g.wrapping_mul(2), g.wrapping_mul(2) + 1, g | 1 << 63]);
            }
            probe.sort();
            probe.dedup();
            if s.n() > 24 {
                probe = all.iter().map(|x| x.0).chain([0, 1, 2, 3, u64::MAX]).collect();
            }
            for g in probe {
                let expect = want.iter().find(|(x, _)| *x == g).map(|(_, v)| *v);
                let got = mp.get(g).copied();
                ctx.check(got == expect, space, "get", || format!("get({g}) = {:?}, expected {:?}; {}", got.map(|x| hex(&x)), expect.map(|x| hex(&x)), what()));
            }
            // asserted reads: the right index all the way, then at each position a wrong one
            for wrong_at in (0..=want.len()).map(Some).chain([None]) {
                let mut it = mp.values();
                for (i, (g, v)) in want.iter().enumerate() {
                    if Some(i) == wrong_at {
                        for bad in [g ^ 1, 0, *g << 1, g >> 1, u64::MAX] {
                            if bad == *g {
                                continue;
                            }
                            let mut it = mp.values();
                            for (h, _) in &want[..i] {
                                it.next_assert_gindex(*h).ok();
                            }
                            let e = it.next_assert_gindex(bad);
                            let ok = matches!(e, Err(Error::GIndexMismatch { expected, actual }) if expected == bad && actual == *g);
                            ctx.check(ok, space, "mismatch", || format!("read {i} asserting {bad} of index {g} gives {e:?}; {}", what()));
                        }
                        break;
                    }
                    let e = it.next_assert_gindex(*g);
                    ctx.check(matches!(&e, Ok(x) if **x == *v), space, "assert", || format!("read {i} asserting {g} gives {e:?}; {}", what()));
                }
                if wrong_at.is_none() {
                    for g in [0, 1, want.last().map(|x| x.0).unwrap_or(2), want.first().map(|x| x.0).unwrap_or(3), 1 << 63, u64::MAX] {
                        let e = it.next_assert_gindex(g);
                        ctx.check(matches!(e, Err(Error::MissingValue)), space, "end", || format!("read past the end gives {e:?}; {}", what()));
                    }
                    ctx.check(it.next().is_none(), space, "end", || format!("iterator goes on after its end; {}", what()));
                }
                if s.n() > 24 && wrong_at.is_some_and(|x| x > 4) {
                    break;
                }
            }
            // the other ways to go through an iterator
            let own = |x: Option<(u64, &B32)>| x.map(|(g, v)| (g, *v));
            for (name, all, iter) in [("nodes", &all, 0), ("values", &want, 1)] {
                macro_rules! both {
                    ($it:ident, $e:expr) => {
                        if iter == 0 { #[allow(unused_mut)] let mut $it = mp.nodes(); $e } else { #[allow(unused_mut)] let mut $it = mp.values(); $e }
                    };
                }
                let n = all.len();
                let ok = both!(it, it.count()) == n
                    && both!(it, own(it.last())) == all.last().copied()
                    && both!(it, it.fold(0, |a, _| a + 1)) == n
                    && both!(it, { let (a, b) = it.size_hint(); a <= n && b.is_none_or(|b| n <= b) })
                    && both!(it, it.max_by_key(|x| x.0).map(|x| x.0)) == all.iter().map(|x| x.0).max()
                    && (0..=n.min(20) + 1).all(|k| both!(it, own(it.nth(k))) == all.get(k).copied())
                    && (0..=n.min(20)).all(|k| both!(it, { it.by_ref().take(k).for_each(drop); it.map(|(g, v)| (g, *v)).collect::<Vec<_>>() }) == all[k..])
                    && (1..=3).all(|k| both!(it, it.step_by(k).map(|x| x.0).collect::<Vec<_>>()) == all.iter().step_by(k).map(|x| x.0).collect::<Vec<_>>());
                ctx.check(ok, space, name, || format!("{name}() goes through other nodes when counted, skipped through or read from the middle; {}", what()));
            }
            // reads and iteration are interchangeable
            let mut it = mp.values();
            for (i, (g, v)) in want.iter().enumerate() {
                let got = if i % 2 == 0 { it.next().map(|(a, b)| (a, *b)) } else { it.next_assert_gindex(*g).ok().map(|b| (*g, *b)) };
                ctx.check(got == Some((*g, *v)), space, "mixed", || format!("mixed read {i}: {got:?}; {}", what()));
            }
        });
        ctx.check(r.is_ok(), space, "abort", || format!("aborted: {r:?}; {}", what()));
    };
    ctx.space("all-shapes-all-masks", || {
        shapes(ctx.pick(9, 10)).par_iter().for_each(|s| {
            let lv = leaves(ctx, s.n(), "it");
            for mask in masks(s.n(), 10) {
                if ctx.stopped() {
                    return;
                }
                one("all-shapes-all-masks", s, &lv, &mask);
            }
        });
    });
    ctx.space("repeated-values", || {
        shapes(5).par_iter().for_each(|s| {
            let pool = [[0u8; 32], val(ctx.seed, "a", 0)];
            product(&vec![2; s.n()], |c| {
                let lv: Vec<B32> = c.iter().map(|i| pool[*i]).collect();
                for mask in masks(s.n(), 5) {
                    one("repeated-values", s, &lv, &mask);
                }
            });
        });
    });
    ctx.space("spines", || {
        spine_paths(63).par_iter().for_each(|p| {
            let s = spine(p, &[true]);
            let lv = leaves(ctx, s.n(), "sp");
            let d = s.paths.iter().position(|q| q == p).unwrap();
            for mask in [vec![true; s.n()], (0..s.n()).map(|i| i == d).collect(), (0..s.n()).map(|i| i != d).collect::<Vec<_>>()] {
                if ctx.stopped() {
                    return;
                }
                one("spines", &s, &lv, &mask);
            }
        });
    });
    ctx.space("bushes-on-spines", || {
        let b = shapes(4);
        (1..=62usize).into_par_iter().for_each(|d| {
            for bush in b.iter().filter(|b| b.depth() + d <= 63) {
                for pat in 0..4 {
                    let p: Vec<bool> = (0..d).map(|i| [false, true, i % 2 == 0, i % 3 == 0][pat]).collect();
                    let s = spine(&p, &bush.desc);
                    let lv = leaves(ctx, s.n(), "bs");
                    one("bushes-on-spines", &s, &lv, &vec![true; s.n()]);
                    one("bushes-on-spines", &s, &lv, &(0..s.n()).map(|i| i % 2 == 0).collect::<Vec<_>>());
                }
            }
        });
    });
    ctx.space("large", || {
        large(ctx.pick(17, 20)).par_iter().for_each(|l| {
            if ctx.stopped() {
                return;
            }
            let n = l.indices.len();
          for lv in contents(ctx, n) {
            let data = flat(&lv);
            let all: Vec<(u64, B32)> = l.indices.iter().copied().zip(lv).collect();
            let masks: Vec<(&str, Vec<bool>)> = vec![("all", vec![true; n]), ("none", vec![false; n]), ("last", (0..n).map(|i| i == n - 1).collect()), ("every third", (0..n).map(|i| i % 3 == 0).collect()), ("all but word ends", (0..n).map(|i| i % 32 != 31).collect()), ("first of a word", (0..n).map(|i| i % 32 == 0).collect())];
            for (name, mask) in masks {
                let mp = make(&data, &mask, &l.desc, 3);
                let want: Vec<(u64, B32)> = all.iter().zip(&mask).filter(|x| *x.1).map(|x| *x.0).collect();
                ctx.eval(!want.is_empty());
                let r = guard(|| {
                    ctx.check(mp.nodes().map(|(g, v)| (g, *v)).eq(all.iter().copied()), "large", "nodes", || format!("nodes() of {}, values: {name}", l.name));
                    ctx.check(mp.values().map(|(g, v)| (g, *v)).eq(want.iter().copied()), "large", "values", || format!("values() of {}, values: {name}", l.name));
                    let mut it = mp.values();
                    let bad = want.iter().position(|(g, v)| !matches!(it.next_assert_gindex(*g), Ok(x) if x == v));
                    ctx.check(bad.is_none(), "large", "assert", || format!("asserted read {bad:?} of {}, values: {name}", l.name));
                    ctx.check(matches!(it.next_assert_gindex(1), Err(Error::MissingValue)), "large", "end", || format!("read past the end of {}", l.name));
                    if n < 5000 || name == "every third" {
                        for p in marks(n) {
                            let (g, v) = all[p];
                            ctx.check(mp.get(g).copied() == mask[p].then_some(v), "large", "get", || format!("get({g}), leaf {p} of {}, values: {name}", l.name));
                        }
                    }
                });
                ctx.check(r.is_ok(), "large", "abort", || format!("{}: {r:?}", l.name));
            }
          }
        });
    });
    ctx.sample(|| json!({"descriptor": "00100101111", "mask": "101010", "values": [4, 42, 11]}));
    ctx.finish(
        "exploration",
        "every full binary tree with up to the stated number of leaves with every value mask, and deep spines, read in every way the interface offers; non-trivial = at least one value",
        &[],
        json!({"max_leaves_all_masks": ctx.pick(9, 10)}),
    )
}

fn c12(ctx: &'static Ctx) -> ! {
    let one = |space: &str, s: &Shape, data: &[u8], mask: &[bool], hint: usize, lv: &[B32]| {
        ctx.eval(s.n() > 1);
        let mp = make(data, mask, &s.desc, hint);
        let what = || describe(&s.desc, mask, data, hint);
        let same = |how: &str, back: &Multiproof<'_>| {
            let back: &Multiproof<'_> = back;
            let ok = *back == mp;
            ctx.check(ok, space, how, || format!("{how}: reads back as something else: {back:?}; {}", what()));
            let a = guard(|| back.calculate_root().ok());
            let b = guard(|| mp.calculate_root().ok());
            // (a hint no allocator can serve makes both fail)
            let ok = a == b && (s.n() < 2 || data.len() < 32 * s.n() || hint > 1 << 20 || a == Ok(Some(s.root(lv))));
            ctx.check(ok, space, how, || format!("{how}: root after reading back {a:?}; {}", what()));
            let a: Vec<(u64, B32)> = back.values().map(|(g, v)| (g, *v)).collect();
            let b: Vec<(u64, B32)> = s
                .paths
                .iter()
                .zip(data.chunks_exact(32))
                .zip(mask)
                .filter(|(_, m)| **m)
                .map(|((p, v), _)| (gindex(p).unwrap(), v.try_into().unwrap()))
                .collect();
            ctx.check(a == b, space, how, || format!("{how}: values after reading back {a:?}; {}", what()));
        };
        let enc = guard(|| bincode::serialize(&mp));
        match enc {
            Ok(Ok(bytes)) => {
                match guard(|| bincode::deserialize::<Multiproof<'_>>(&bytes)) {
                    Ok(Ok(back)) => {
                        same("bincode", &back);
                        let again = bincode::serialize(&back).unwrap_or_default();
                        ctx.check(again == bytes, space, "bincode", || format!("bincode: writes something else the second time; {}", what()));
                    }
                    r => ctx.violation(space, "bincode", || format!("bincode: cannot be read back: {r:?}; {}", what())),
                }
                for cut in 0..bytes.len() {
                    let r = guard(|| bincode::deserialize::<Multiproof<'_>>(&bytes[..cut]).is_ok());
                    ctx.check(r != Ok(true), space, "bincode-truncated", || format!("bincode: {cut} of {} bytes are read as a proof; {}", bytes.len(), what()));
                }
            }
            r => ctx.violation(space, "bincode", || format!("bincode: cannot be written: {r:?}; {}", what())),
        }
        let enc = guard(|| postcard::to_allocvec(&mp));
        match enc {
            Ok(Ok(bytes)) => {
                match guard(|| postcard::from_bytes::<Multiproof<'_>>(&bytes)) {
                    Ok(Ok(back)) => same("postcard", &back),
                    r => ctx.violation(space, "postcard", || format!("postcard: cannot be read back: {r:?}; {}", what())),
                }
                for cut in 0..bytes.len() {
                    let r = guard(|| postcard::from_bytes::<Multiproof<'_>>(&bytes[..cut]).is_ok());
                    ctx.check(r != Ok(true), space, "postcard-truncated", || format!("postcard: {cut} of {} bytes are read as a proof; {}", bytes.len(), what()));
                }
            }
            r => ctx.violation(space, "postcard", || format!("postcard: cannot be written: {r:?}; {}", what())),
        }
    };
    ctx.space("all-shapes", || {
        shapes(ctx.pick(6, 8)).par_iter().for_each(|s| {
            let lv = leaves(ctx, s.n(), "ser");
            for mask in masks(s.n(), 8) {
                for hint in [0, 1, 127, 128, 300, 65536, usize::MAX] {
                    if s.n() > 4 && hint > 1 && hint != 300 {
                        continue;
                    }
                    if ctx.stopped() {
                        return;
                    }
                    one("all-shapes", s, &flat(&lv), &mask, hint.min(usize::MAX), &lv);
                }
            }
        });
    });
    ctx.space("mask-lengths", || {
        // masks and descriptions around the word size of the bit vectors
        for n in (1..=ctx.pick(70, 140)).chain([255, 256, 257]) {
            // a comb with n leaves
            let s = if n <= 64 { spine(&vec![true; n - 1], &[true]) } else { comb(n) };
            let lv = leaves(ctx, s.n(), "wide");
            for mask in [vec![true; s.n()], vec![false; s.n()], (0..s.n()).map(|i| i % 3 == 0).collect::<Vec<_>>(), vec![]] {
                one("mask-lengths", &s, &flat(&lv), &mask, 7, &lv);
            }
        }
    });
    ctx.space("partial-data", || {
        for s in shapes(3) {
            let lv = leaves(ctx, s.n(), "part");
            let data = flat(&lv);
            for cut in 0..=data.len() {
                one("partial-data", &s, &data[..cut], &vec![true; s.n()], 2, &lv);
            }
        }
    });
    ctx.space("large", || {
        large(ctx.pick(16, 18)).par_iter().for_each(|l| {
            if ctx.stopped() {
                return;
            }
            let n = l.indices.len();
          for lv in contents(ctx, n) {
            let root = l.root(&lv);
            let mask: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
            let mp = make(&flat(&lv), &mask, &l.desc, 3);
            let want: Vec<u64> = l.indices.iter().copied().step_by(3).collect();
            let same = |how: &str, r: Result<Result<Multiproof<'_>, String>, String>| {
                let ok = match &r {
                    Ok(Ok(back)) => *back == mp && matches!(guard(|| back.verify(&root)), Ok(Ok(()))) && back.values().map(|x| x.0).eq(want.iter().copied()),
                    _ => false,
                };
                ctx.eval(true);
                ctx.check(ok, "large", how, || format!("{how}: {} is not read back", l.name));
            };
            let cuts = |len: usize| marks(len);
            let bytes = bincode::serialize(&mp).unwrap_or_default();
            same("bincode", guard(|| bincode::deserialize::<Multiproof<'_>>(&bytes).map_err(|e| e.to_string())));
            for c in cuts(bytes.len()) {
                ctx.check(guard(|| bincode::deserialize::<Multiproof<'_>>(&bytes[..c]).is_ok()) != Ok(true), "large", "bincode-truncated", || format!("bincode: {c} bytes of {} are read as a proof", l.name));
            }
            let bytes = postcard::to_allocvec(&mp).unwrap_or_default();
            same("postcard", guard(|| postcard::from_bytes::<Multiproof<'_>>(&bytes).map_err(|e| e.to_string())));
            for c in cuts(bytes.len()) {
                ctx.check(guard(|| postcard::from_bytes::<Multiproof<'_>>(&bytes[..c]).is_ok()) != Ok(true), "large", "postcard-truncated", || format!("postcard: {c} bytes of {} are read as a proof", l.name));
            }
          }
        });
    });
    ctx.sample(|| json!({"descriptor": "00111", "mask": "101", "encodings": ["bincode", "postcard"], "truncations": "every length"}));
    ctx.finish(
        "exploration",
        "every tree with up to the stated number of leaves with every value mask, masks and descriptions around the storage word size, and partial data; each is written and read back in both formats and cut at every length; non-trivial = at least two leaves",
        &["formats: bincode (used between host and guest) and postcard (used by the crate's own tests)"],
        json!({"max_leaves_all_masks": ctx.pick(6, 8)}),
    )
}
/// A balanced tree with n leaves.
fn comb(n: usize) -> Shape {
    fn rec(n: usize) -> Vec<bool> {
        if n == 1 {
            return vec![true];
        }
        [vec![false], rec(n / 2), rec(n - n / 2)].concat()
    }
    Shape::parse(&rec(n)).unwrap()
}

fn main() {
    let ctx = start();
    match ctx.id.as_str() {
        "C09" => c09(ctx),
        "C10" => c10(ctx),
        "C11" => c11(ctx),
        "C12" => c12(ctx),
        x => panic!("unknown property {x}"),
    }
}
