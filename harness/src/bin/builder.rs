//! C13: `MultiproofBuilder` over every tree shape with every set of requested nodes, SSZ containers by path and by
//! index, every order of registration, and sets large enough to be computed in parallel.
use rayon::prelude::*;
use serde_json::json;
use ssz_multiproofs::{Multiproof, MultiproofBuilder};
use ssz_rs::prelude::*;
use ssz_rs::proofs::Tree as ShimTree;
use std::collections::BTreeMap;
use verif_harness::tree::{self, Proof, Tree, T};
use verif_harness::util::*;
use verif_harness::{guard, start, Ctx};

/// A container of any tree shape.
struct Shape(T);
fn shim(t: &Tree) -> ShimTree {
    match t {
        Tree::Leaf(b) => ShimTree::Leaf((*b).into()),
        Tree::Pair(_, a, b) => ShimTree::pair(shim(a), shim(b)),
        Tree::Zero(d) => ShimTree::Zero(*d as usize),
    }
}
impl HashTreeRoot for Shape {
    fn tree(&self) -> ShimTree {
        shim(&self.0)
    }
}
impl GeneralizedIndexable for Shape {
    fn chunk_count() -> usize {
        1
    }
}
impl Prove for Shape {}

fn built<C: Prove + Sync>(c: &C, gindices: &[u64]) -> Result<Option<Multiproof<'static>>, String> {
    guard(|| MultiproofBuilder::new().with_gindices(gindices.iter().map(|g| *g as usize)).build(c).ok())
}
fn values(mp: &Multiproof) -> Vec<(u64, B32)> {
    mp.values().map(|(g, v)| (g, *v)).collect()
}
fn nodes(mp: &Multiproof) -> Vec<(u64, B32)> {
    mp.nodes().map(|(g, v)| (g, *v)).collect()
}
fn overlap(gindices: &[u64]) -> bool {
    gindices.iter().any(|a| gindices.iter().any(|b| a != b && (1..64).any(|k| b.checked_shr(k).is_some_and(|p| p == *a))))
}

/// One request: its outcome compared with the independently built proof.
fn request<C: Prove + Sync>(ctx: &Ctx, space: &str, c: &C, t: &T, gindices: &[u64], what: &dyn Fn() -> String) {
    let provable = !gindices.is_empty() && !overlap(gindices) && gindices.iter().all(|g| *g > 1 && tree::node(t, *g).is_some());
    let out = built(c, gindices);
    ctx.eval(provable && gindices.len() > 1);
    if provable {
        let want = tree::prove(t, gindices);
        match out {
            Ok(Some(mp)) => exact(ctx, space, &mp, t, &want, gindices, what),
            Ok(None) => ctx.violation(space, "refused", || format!("a provable request was refused: {gindices:?} in {}", what())),
            Err(e) => ctx.violation(space, "panic", || format!("a provable request panicked ({e}): {gindices:?} in {}", what())),
        }
    } else if let Ok(Some(mp)) = out {
        // whatever it is, it must not verify while reporting something else
        let root = t.root();
        if matches!(guard(|| mp.verify(&root)), Ok(Ok(()))) {
            let got = guard(|| values(&mp));
            let truth: Option<Vec<_>> = gindices.iter().map(|g| (*g > 0).then(|| tree::node(t, *g).map(|n| (*g, n))).flatten()).collect();
            let ok = match (&got, &truth) {
                (Ok(g), Some(t)) => {
                    let (mut a, mut b) = (g.clone(), t.clone());
                    a.sort();
                    b.sort();
                    a == b
                }
                (Err(_), _) => true,
                _ => false,
            };
            ctx.check(ok, space, "bad-request-verifies", || {
                format!("the request {gindices:?} in {} gave a proof that verifies and reports {:?}", what(), got.map(|g| g.iter().map(|x| x.0).collect::<Vec<_>>()))
            });
        }
    }
}
fn exact(ctx: &Ctx, space: &str, mp: &Multiproof<'static>, t: &T, want: &Proof, gindices: &[u64], what: &dyn Fn() -> String) {
    let root = t.root();
    let v = guard(|| mp.verify(&root).is_ok());
    if !ctx.check(v == Ok(true), space, "does-not-verify", || format!("the proof built for {gindices:?} in {} does not verify: {v:?}", what())) {
        return;
    }
    let want_mp = want.mp();
    let (got, expect) = (guard(|| values(mp)), guard(|| values(&want_mp)));
    // the values in the order of the tree, which is the order the reader asserts
    ctx.check(got.is_ok() && got == expect, space, "values", || format!("the proof for {gindices:?} in {} reports {:?}", what(), got.map(|g| g.iter().map(|x| (x.0, hex(&x.1))).collect::<Vec<_>>())));
    for g in gindices {
        let got = guard(|| mp.get(*g).copied());
        ctx.check(got == Ok(tree::node(t, *g)), space, "get", || format!("get({g}) of the proof for {gindices:?} in {} gives {got:?}", what()));
    }
    let (got, expect) = (guard(|| nodes(mp)), guard(|| nodes(&want_mp)));
    ctx.check(got.is_ok() && got == expect, space, "nodes", || format!("the proof for {gindices:?} in {} consists of the nodes {:?}", what(), got.map(|g| g.iter().map(|x| x.0).collect::<Vec<_>>())));
    let n = (bincode::serialize(mp).unwrap().len(), bincode::serialize(&want_mp).unwrap().len());
    ctx.check(n.0 == n.1, space, "size", || format!("the proof for {gindices:?} in {} is written as {} bytes, {} suffice", what(), n.0, n.1));
    // written and read back it is still accepted
    let back = guard(|| bincode::deserialize::<Multiproof>(&bincode::serialize(mp).unwrap()).ok().map(|m| m.verify(&root).is_ok()));
    ctx.check(back == Ok(Some(true)), space, "roundtrip", || format!("the proof for {gindices:?} in {} is not accepted after serialization", what()));
}

/// All trees with n leaves, without contents.
fn all_shapes(n: usize) -> Vec<Vec<bool>> {
    if n == 1 {
        return vec![vec![true]];
    }
    (1..n).flat_map(|l| {
        let (a, b) = (all_shapes(l), all_shapes(n - l));
        a.into_iter().flat_map(move |a| b.clone().into_iter().map(move |b| [vec![false], a.clone(), b].concat()))
    }).collect()
}
/// The shape with contents, and its nodes.
fn grow(desc: &[bool], leaf: &mut dyn FnMut() -> B32) -> T {
    fn go(desc: &[bool], pos: &mut usize, leaf: &mut dyn FnMut() -> B32) -> T {
        *pos += 1;
        if desc[*pos - 1] {
            return tree::leaf(leaf());
        }
        let a = go(desc, pos, leaf);
        let b = go(desc, pos, leaf);
        tree::pair(a, b)
    }
    go(desc, &mut 0, leaf)
}
fn all_nodes(t: &T, max_depth: u32) -> Vec<u64> {
    (1..2u64 << max_depth).filter(|g| tree::node(t, *g).is_some()).collect()
}

#[derive(SimpleSerialize, Clone, Default)]
struct Inner {
    key: ByteVector<48>,
    flag: bool,
    number: u64,
}
#[derive(SimpleSerialize, Clone, Default)]
struct Outer {
    slot: u64,
    header: Inner,
    roots: Vector<ByteVector<32>, 3>,
    inners: List<Inner, 6>,
    numbers: List<u64, 9>,
}
fn inner_tree(i: &Inner) -> T {
    let mut b = [0u8; 32];
    b[..16].copy_from_slice(&i.key[32..]);
    tree::container(vec![tree::pair(tree::leaf(i.key[..32].try_into().unwrap()), tree::leaf(b)), tree::num(i.flag as u64), tree::num(i.number)])
}
fn outer_tree(o: &Outer) -> T {
    tree::container(vec![
        tree::num(o.slot),
        inner_tree(&o.header),
        tree::merkle(o.roots.iter().map(|r| tree::leaf(r[..].try_into().unwrap())).collect(), 2),
        tree::list(o.inners.iter().map(inner_tree).collect(), 3),
        {
            let bytes: Vec<u8> = o.numbers.iter().flat_map(|n| n.to_le_bytes()).collect();
            let chunks = bytes.chunks(32).map(|c| { let mut b = [0u8; 32]; b[..c.len()].copy_from_slice(c); tree::leaf(b) }).collect();
            tree::pair(tree::merkle(chunks, 2), tree::num(o.numbers.len() as u64))
        },
    ])
}
fn outer(seed: u64, inners: usize, numbers: usize) -> Outer {
    let inner = |i: u64| {
        let (a, b) = (val(seed, "key", i), val(seed, "key2", i));
        let mut k = [0u8; 48];
        k[..32].copy_from_slice(&a);
        k[32..].copy_from_slice(&b[..16]);
        Inner { key: k.into(), flag: i % 2 == 0, number: 1000 + i }
    };
    let mut o = Outer { slot: 77, header: inner(99), ..Default::default() };
    o.roots = Vector::try_from((0..3).map(|i| ByteVector::from(val(seed, "root", i))).collect::<Vec<_>>()).unwrap();
    for i in 0..inners {
        o.inners.push(inner(i as u64));
    }
    for i in 0..numbers {
        o.numbers.push(500 + i as u64);
    }
    o
}
/// Every path into an `Outer`, with the generalized index at which the layout places it (worked out by hand).
fn outer_paths() -> Vec<(Vec<PathElement>, u64)> {
    let f = |s: &str| PathElement::from(s);
    let mut out: Vec<(Vec<PathElement>, u64)> = vec![];
    let inner = |base: Vec<PathElement>, g: u64, out: &mut Vec<(Vec<PathElement>, u64)>| {
        out.push((base.clone(), g));
        out.push(([&base[..], &[f("key")]].concat(), g * 4));
        out.push(([&base[..], &[f("key"), 0.into()]].concat(), g * 8));
        out.push(([&base[..], &[f("key"), 31.into()]].concat(), g * 8));
        out.push(([&base[..], &[f("key"), 32.into()]].concat(), g * 8 + 1));
        out.push(([&base[..], &[f("key"), 47.into()]].concat(), g * 8 + 1));
        out.push(([&base[..], &[f("flag")]].concat(), g * 4 + 1));
        out.push(([&base[..], &[f("number")]].concat(), g * 4 + 2));
    };
    out.push((vec![f("slot")], 8));
    inner(vec![f("header")], 9, &mut out);
    out.push((vec![f("roots")], 10));
    for i in 0..3 {
        out.push((vec![f("roots"), i.into()], 40 + i as u64));
    }
    out.push((vec![f("inners")], 11));
    out.push((vec![f("inners"), PathElement::Length], 23));
    for i in 0..6usize {
        inner(vec![f("inners"), i.into()], 22 * 8 + i as u64, &mut out);
    }
    out.push((vec![f("numbers")], 12));
    out.push((vec![f("numbers"), PathElement::Length], 25));
    for i in 0..9usize {
        out.push((vec![f("numbers"), i.into()], 24 * 4 + i as u64 / 4));
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}

fn c13(ctx: &'static Ctx) -> ! {
    ctx.space("all-shapes-all-sets", || {
        for n in 1..=ctx.pick(7, 8) {
            all_shapes(n).into_par_iter().for_each(|desc| {
                // distinct contents, and equal contents (where mix-ups could cancel out)
                for equal in [false, true] {
                    let mut i = 0;
                    let t = grow(&desc, &mut || { i += 1; if equal { [0; 32] } else { val(ctx.seed, "leaf", i) } });
                    let c = Shape(t.clone());
                    let ns = all_nodes(&t, n as u32);
                    assert_eq!(ns.len(), 2 * n - 1);
                    for m in 0u64..1 << ns.len() {
                        if ctx.stopped() {
                            return;
                        }
                        let set: Vec<u64> = ns.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                        request(ctx, "all-shapes-all-sets", &c, &t, &set, &|| format!("{desc:?} equal={equal}"));
                        // the same with an index that does not exist
                        if n <= 4 || m.count_ones() <= 2 {
                            for bad in [0, 2 * ns[ns.len() - 1], 2 * ns[ns.len() - 1] + 1, (1 << n) + 1, 1 << 62, u64::MAX] {
                                if bad == 0 || tree::node(&t, bad).is_none() {
                                    let set = [set.clone(), vec![bad]].concat();
                                    request(ctx, "all-shapes-all-sets", &c, &t, &set, &|| format!("{desc:?} equal={equal}"));
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    ctx.space("containers", || {
        // every set of up to 2 (3) paths of a container of every kind of field
        let paths = outer_paths();
        for (inners, numbers) in [(0, 0), (1, 1), (3, 4), (6, 9)] {
            let o = outer(ctx.seed, inners, numbers);
            let t = outer_tree(&o);
            let root: B32 = o.hash_tree_root().unwrap().as_slice().try_into().unwrap();
            assert_eq!(root, t.root(), "the stand-in for ssz_rs and the independent tree disagree");
            for (p, g) in &paths {
                assert_eq!(Outer::generalized_index(p).unwrap() as u64, *g, "{p:?}");
            }
            for k in 1..=ctx.pick(2, 3) {
                subsets(paths.len(), k).into_par_iter().for_each(|s| {
                    if ctx.stopped() {
                        return;
                    }
                    let mut gs: Vec<u64> = s.iter().map(|i| paths[*i].1).collect();
                    let by_path = guard(|| {
                        let mut b = MultiproofBuilder::default();
                        for i in &s {
                            b = b.with_path::<Outer>(&paths[*i].0);
                        }
                        b.build(&o).ok()
                    });
                    gs.sort();
                    gs.dedup();
                    let what = || format!("container with {inners} inners and {numbers} numbers");
                    request(ctx, "containers", &o, &t, &gs, &what);
                    if !overlap(&gs) && gs.iter().all(|g| tree::node(&t, *g).is_some()) {
                        match by_path {
                            Ok(Some(mp)) => exact(ctx, "containers", &mp, &t, &tree::prove(&t, &gs), &gs, &what),
                            x => ctx.violation("containers", "refused", || format!("a provable request by path was refused: {s:?}: {:?}", x.map(|m| m.is_some()))),
                        }
                    }
                });
            }
        }
    });
    ctx.space("orders", || {
        // every order of registration, through each of the three ways, with repetitions
        let paths: Vec<_> = outer_paths().into_iter().filter(|p| [8, 36, 42, 23, 178 * 8 + 1, 97, 25].contains(&p.1)).collect();
        let mut by_g = BTreeMap::new();
        for p in &paths {
            by_g.insert(p.1, p.0.clone());
        }
        let paths: Vec<_> = by_g.into_iter().collect();
        let o = outer(ctx.seed, 4, 5);
        let t = outer_tree(&o);
        for k in 1..=paths.len().min(ctx.pick(5, 6)) {
            subsets(paths.len(), k).into_par_iter().for_each(|s| {
                let gs: Vec<u64> = s.iter().map(|i| paths[*i].0).collect();
                let want = tree::prove(&t, &gs);
                for perm in permutations(k) {
                    if ctx.stopped() {
                        return;
                    }
                    for way in 0..5 {
                        let mp = guard(|| {
                            let mut b = MultiproofBuilder::new();
                            if way == 2 {
                                b = b.with_gindices(perm.iter().map(|i| gs[*i] as usize));
                            } else {
                                for (n, i) in perm.iter().enumerate() {
                                    b = match (way, n % 3) {
                                        (0, _) | (3, 0) => b.with_gindex(gs[*i] as usize),
                                        (1, _) | (3, 1) => b.with_path::<Outer>(&paths[s[*i]].1),
                                        (3, _) => b.with_gindices([gs[*i] as usize]),
                                        _ => b.with_gindex(gs[*i] as usize).with_path::<Outer>(&paths[s[*i]].1).with_gindex(gs[perm[0]] as usize),
                                    };
                                }
                            }
                            b.build(&o).ok()
                        });
                        ctx.eval(k > 1);
                        let what = || format!("registered in the order {perm:?} in way {way}");
                        match mp {
                            Ok(Some(mp)) => exact(ctx, "orders", &mp, &t, &want, &gs, &what),
                            x => ctx.violation("orders", "refused", || format!("refused: {gs:?} {}: {:?}", what(), x.map(|m| m.is_some()))),
                        }
                    }
                }
            });
        }
    });
    ctx.space("deep", || {
        // list positions far from each other under deep limits
        for depth in [8u32, 20, 31, 40, 61] {
            for len in [0u64, 1, 2, 5] {
                let t = tree::list((0..len).map(|i| tree::leaf(val(ctx.seed, "deep", i))).collect(), depth);
                let c = Shape(t.clone());
                let base = 2u64 << depth;
                let mut cand = vec![3, 2, base, base + 1, base + 2, base + 3, base + (1 << depth) - 1, base + (1 << (depth - 1)), base / 2, base / 2 + 1, 5, 4];
                cand.sort();
                cand.dedup();
                for k in 1..=ctx.pick(3, 4) {
                    subsets(cand.len(), k).into_par_iter().for_each(|s| {
                        let gs: Vec<u64> = s.iter().map(|i| cand[*i]).collect();
                        request(ctx, "deep", &c, &t, &gs, &|| format!("list of {len} elements of depth {depth}"));
                    });
                }
            }
        }
    });
    ctx.space("many", || {
        // requests large enough to be split over threads
        let depth = ctx.pick(15u32, 16);
        let n = 1u64 << depth;
        let t = tree::list((0..n - 3).map(|i| tree::leaf(val(ctx.seed, "many", i))).collect(), depth);
        let c = Shape(t.clone());
        let base = 2u64 << depth;
        for (name, gs) in [
            ("every leaf", (0..n).map(|i| base + i).collect::<Vec<_>>()),
            ("every leaf and the length", std::iter::once(3).chain((0..n).map(|i| base + i)).collect()),
            ("every other", (0..n).filter(|i| i % 2 == 1).map(|i| base + i).chain([3]).collect()),
            ("every third", (0..n).filter(|i| i % 3 == 1).map(|i| base + i).collect()),
            ("the second half", (n / 2 - 1..n).map(|i| base + i).collect()),
            ("ends", (0..10_050).chain(n - 10_050..n).map(|i| base + i).collect()),
            ("just over the split size", (0..10_001).map(|i| base + 2 * i).collect()),
            ("twice the split size", (0..20_000).map(|i| base + i + i / 3).collect()),
            ("inner nodes and leaves", (0..n / 2).filter(|i| i % 2 == 0).map(|i| base / 2 + i).chain((0..n).filter(|i| i % 4 == 2).map(|i| base + i)).collect()),
        ] {
            let mp = built(&c, &gs);
            ctx.eval(true);
            let want = tree::prove(&t, &gs);
            match mp {
                Ok(Some(mp)) => {
                    let root = t.root();
                    let v = guard(|| mp.verify(&root).is_ok());
                    ctx.check(v == Ok(true), "many", "does-not-verify", || format!("the proof for {name} does not verify: {v:?}"));
                    let w = want.mp();
                    ctx.check(guard(|| values(&mp) == values(&w)) == Ok(true), "many", "values", || format!("the proof for {name} reports other values"));
                    ctx.check(guard(|| nodes(&mp) == nodes(&w)) == Ok(true), "many", "nodes", || format!("the proof for {name} has other nodes"));
                }
                x => ctx.violation("many", "refused", || format!("refused: {name}: {:?}", x.map(|m| m.is_some()))),
            }
        }
    });
    ctx.sample(|| json!({"container": "List[Inner, 6] in a container of five fields", "request": "inners[2].key[0], inners length, slot", "orders": "all 6, by path / by index / mixed / repeated"}));
    ctx.finish(
        "exploration",
        "every tree shape up to the stated number of leaves with every set of its nodes (overlapping and empty ones included) and sets with indices outside it; every set of up to the stated number of paths of an SSZ container; every order of registration in five ways; far positions in deep lists; sets above the parallel split size. Non-trivial = a provable request of at least two nodes",
        &["ssz_rs is replaced by a stand-in (/verif/shims/ssz_rs) whose trees are compared with independently built ones", "SHA-256 is collision free on the values used"],
        json!({"max_leaves_all_sets": ctx.pick(7, 8), "paths_per_request": ctx.pick(2, 3)}),
    )
}

fn main() {
    let ctx = start();
    match ctx.id.as_str() {
        "C13" => c13(ctx),
        x => panic!("unknown property {x}"),
    }
}
