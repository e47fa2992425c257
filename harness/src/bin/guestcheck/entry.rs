//! C24: the guest program.
use crate::binding::ETH;
use beacon_types::{ChainSpec, EthSpec, ForkName, MainnetEthSpec};
use rayon::prelude::*;
use risc0_zkvm::guest::env;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{Config, ConsensusState, Epoch, GuestInput, InputReader, StatePatch};

#[path = "../../../../shadow/beacon_guest/src/bin/mainnet.rs"]
mod mainnet;
#[path = "../../../../shadow/beacon_guest/src/bin/sepolia.rs"]
mod sepolia;

/// The journal's words, written independently.
pub fn journal(pre: (Cp, Cp), post: (Cp, Cp), slot: u64) -> Vec<u8> {
    let word = |v: u64| {
        let mut w = [0u8; 32];
        w[24..].copy_from_slice(&v.to_be_bytes());
        w
    };
    let mut out = vec![];
    for (j, f) in [pre, post] {
        for c in [j, f] {
            out.extend(word(c.0));
            out.extend(c.1);
        }
    }
    out.extend(word(slot));
    out
}
fn pair_of(s: &ConsensusState) -> (Cp, Cp) {
    (un(s.current_justified_checkpoint()), un(s.finalized_checkpoint()))
}
/// Runs a guest program on the frames; what it committed, and whether it ended normally.
pub fn execute(frames: Vec<Vec<u8>>, f: impl FnOnce()) -> (Vec<u8>, usize, bool) {
    let mut ok = true;
    let io = env::with_io(frames, || ok = guard(f).is_ok());
    (io.commits.concat(), io.commits.len(), ok)
}

/// A chain in which verification can succeed, as the guest is told of it.
struct Scene<E: EthSpec> {
    world: World,
    built: Built,
    trusted: u64,
    /// checkpoints (epoch, root of a block header) and the headers
    points: Vec<(Cp, T)>,
    _e: std::marker::PhantomData<E>,
}
impl<E: EthSpec> Scene<E> {
    fn new(seed: u64, spec: ChainSpec, n: usize, trusted: u64) -> Self {
        let mut world = World::new(seed, n, 32 * ETH);
        world.spec = spec;
        let mut bs = BlockState::new::<E>(seed, &world.spec, trusted * E::slots_per_epoch(), world.registry.values().cloned().collect());
        bs.gvr = world.gvr;
        let built = bs.build();
        let points = (1..=6)
            .flat_map(|d| {
                let e = trusted + d;
                (0..2u64).map(move |alt| {
                    let h = header(seed + alt, e * E::slots_per_epoch() - alt);
                    ((e, h.root()), h)
                })
            })
            .collect();
        Scene { world, built, trusted, points, _e: Default::default() }
    }
    /// The input for links between the points, each voted for by the given number of validators.
    fn input(&mut self, links: &[(usize, usize, usize)]) -> Input<E> {
        let first = self.points[0].0;
        let mut i: Input<E> = self.built.input(self.trusted, first);
        self.world.slots.clear();
        for (s, t, voters) in links {
            let (source, target) = (self.points[*s].0, self.points[*t].0);
            i.attestations.extend(self.world.attest::<E>(cp(source), cp(target), |v| v < *voters));
            let idx = self.world.mix_index::<E>(target.0);
            if let Some(m) = self.world.mix(target.0, idx) {
                i.patches.insert(Epoch::new(target.0), StatePatch { randao_mixes: BTreeMap::from([(idx, b(m))]), validator_exits: BTreeMap::new() });
            }
        }
        for (c, h) in &self.points {
            self.world.slots.insert(c.1, node(h, 8).map(|x| u64::from_le_bytes(x[..8].try_into().unwrap())).unwrap());
            i.slots.push(slot_proof(h));
        }
        i
    }
    fn judge(&self, ctx: &Ctx, space: &str, cfg: &Config, i: &Input<E>, run: impl FnOnce(), what: impl Fn() -> String) -> Verdict {
        let atts: Vec<_> = i.attestations.iter().collect();
        let want = oracle::<E>(cfg, &self.world, &i.consensus, &atts);
        let bytes = bincode::serialize(&i.guest()).unwrap();
        let (got, n, ok) = execute(vec![bytes], run);
        ctx.eval(n > 0);
        match &want {
            Verdict::Accept(post, slot) => {
                let exact = journal(pair_of(&i.consensus), pair_of(post), *slot);
                ctx.check(n == 1 && got == exact && ok, space, "journal", || format!("{}: {n} commits, {}, expected {}", what(), hex(&got), hex(&exact)));
            }
            Verdict::Reject(why) => {
                ctx.check(n == 0 && !ok, space, "committed", || format!("{}: must be rejected ({why}), but {n} commits, {}", what(), hex(&got)));
            }
            Verdict::MayReject(..) => {}
        }
        want
    }
}

/// The fork schedules of the networks, from their published configurations.
pub fn network(sepolia: bool) -> ChainSpec {
    let mut s = ChainSpec::mainnet();
    let v = |first: u8, rest: [u8; 3]| [first, rest[0], rest[1], rest[2]];
    let e = |x: u64| Some(Epoch::new(x));
    if sepolia {
        s.config_name = Some("sepolia".into());
        s.genesis_fork_version = v(0x90, [0, 0, 0x69]);
        (s.altair_fork_version, s.altair_fork_epoch) = (v(0x90, [0, 0, 0x70]), e(50));
        (s.bellatrix_fork_version, s.bellatrix_fork_epoch) = (v(0x90, [0, 0, 0x71]), e(100));
        (s.capella_fork_version, s.capella_fork_epoch) = (v(0x90, [0, 0, 0x72]), e(56832));
        (s.deneb_fork_version, s.deneb_fork_epoch) = (v(0x90, [0, 0, 0x73]), e(132608));
        (s.electra_fork_version, s.electra_fork_epoch) = (v(0x90, [0, 0, 0x74]), e(222464));
        (s.fulu_fork_version, s.fulu_fork_epoch) = (v(0x90, [0, 0, 0x75]), e(272640));
    } else {
        s.config_name = Some("mainnet".into());
        s.genesis_fork_version = v(0, [0; 3]);
        (s.altair_fork_version, s.altair_fork_epoch) = (v(1, [0; 3]), e(74240));
        (s.bellatrix_fork_version, s.bellatrix_fork_epoch) = (v(2, [0; 3]), e(144896));
        (s.capella_fork_version, s.capella_fork_epoch) = (v(3, [0; 3]), e(194048));
        (s.deneb_fork_version, s.deneb_fork_epoch) = (v(4, [0; 3]), e(269568));
        (s.electra_fork_version, s.electra_fork_epoch) = (v(5, [0; 3]), e(364032));
        (s.fulu_fork_version, s.fulu_fork_epoch) = (v(6, [0; 3]), e(411392));
    }
    (s.gloas_fork_version, s.gloas_fork_epoch) = ([0xff; 4], None);
    s
}

pub fn c24(ctx: &'static Ctx) -> ! {
    let named = |mut s: ChainSpec| {
        s.config_name = Some("tiny".into());
        s
    };
    ctx.space("link-sequences", || {
        // every sequence of up to three links among the checkpoints, by all, by exactly enough, and by too few
        let cfg = default_config();
        let scene = || Scene::<Two>::new(ctx.seed, named(tiny_spec()), 6, 10);
        let pts: Vec<usize> = vec![0, 1, 2, 3, 4, 8];
        let mut links = vec![];
        for s in &pts {
            for t in &pts {
                for v in [4usize, 3] {
                    if v == 4 || s != t {
                        links.push((*s, *t, v));
                    }
                }
            }
        }
        let mut all = vec![vec![]];
        all.extend(links.iter().map(|l| vec![*l]));
        for a in &links {
            all.extend(links.iter().map(|l| vec![*a, *l]));
        }
        // third links only after two that are in order
        for a in links.iter().filter(|l| l.0 == 0 && l.2 == 4) {
            for x in links.iter().filter(|l| l.0 == a.1 && l.2 == 4) {
                all.extend(links.iter().map(|l| vec![*a, *x, *l]));
            }
        }
        all.par_iter().for_each_init(scene, |sc, ls| {
            let i = sc.input(ls);
            sc.judge(ctx, "link-sequences", &cfg, &i, || beacon_guest::entry::<Two>(sc.world.spec.clone(), &cfg), || format!("links {ls:?}"));
        });
    });
    ctx.space("settings", || {
        // configurations and fork schedules are the ones given
        for (min, max) in [(ForkName::Electra, ForkName::Fulu), (ForkName::Electra, ForkName::Electra), (ForkName::Fulu, ForkName::Fulu), (ForkName::Deneb, ForkName::Deneb)] {
            for fulu in [None, Some(9u64), Some(11), Some(12), Some(13)] {
                for limit in 0..=5 {
                    for (f, q) in [(2u64, 3u64), (5, 6), (1, 1), (1, 2)] {
                        let mut spec = named(tiny_spec());
                        spec.fulu_fork_epoch = fulu.map(Epoch::new);
                        spec.fulu_fork_version = [9, 9, 9, 9];
                        let cfg = config(min, max, limit, f, q);
                        let mut sc = Scene::<Two>::new(ctx.seed, spec, 6, 10);
                        for voters in 3..=6 {
                            for ls in [vec![(0, 2, voters)], vec![(0, 4, voters), (4, 6, voters)], vec![(0, 2, 6), (2, 4, voters)]] {
                                let i = sc.input(&ls);
                                sc.judge(ctx, "settings", &cfg, &i, || beacon_guest::entry::<Two>(sc.world.spec.clone(), &cfg), || format!("links {ls:?}, forks {min:?}..{max:?}, fulu at {fulu:?}, lookahead {limit}, threshold {f}/{q}"));
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.space("wide-numbers", || {
        // epochs and slots of every width
        let cfg = default_config();
        for shift in [20u32, 31, 32, 33, 47, 55, 61] {
            for trusted in [(1u64 << shift) - 4, (1 << shift) - 2, 1 << shift, (1 << shift) + 3] {
                let mut sc = Scene::<Two>::new(ctx.seed, named(tiny_spec()), 6, trusted);
                for slot in (0..64).map(|k| 1u64 << k).chain([u64::MAX, 0, 0x0102_0304_0506_0708]) {
                    for k in 0..sc.points.len() {
                        let c = sc.points[k].0;
                        let h = header(ctx.seed + k as u64, if k % 4 == 0 { slot } else { c.0 });
                        sc.points[k] = ((c.0, h.root()), h);
                    }
                    for ls in [vec![(0, 2, 6)], vec![(0, 4, 6), (4, 6, 5)], vec![(0, 4, 6), (4, 6, 3)]] {
                        let i = sc.input(&ls);
                        sc.judge(ctx, "wide-numbers", &cfg, &i, || beacon_guest::entry::<Two>(sc.world.spec.clone(), &cfg), || format!("links {ls:?} from trusted epoch {trusted}, slots {slot}"));
                    }
                }
            }
        }
    });
    ctx.space("broken-inputs", || {
        // one part missing, repeated or exchanged
        let cfg = default_config();
        let mut sc = Scene::<Two>::new(ctx.seed, named(tiny_spec()), 6, 10);
        let good = sc.input(&[(0, 4, 6), (4, 6, 5)]);
        let other = Scene::<Two>::new(ctx.seed + 1, named(tiny_spec()), 6, 10).input(&[(0, 4, 6), (4, 6, 5)]);
        let mut cases: Vec<(String, Input<Two>)> = vec![("nothing".into(), good.clone())];
        let mut put = |n: String, f: &dyn Fn(&mut Input<Two>)| {
            let mut i = good.clone();
            f(&mut i);
            cases.push((n, i));
        };
        for k in 0..good.slots.len() {
            put(format!("slot proof {k} left out"), &|i| { i.slots.remove(k); });
        }
        for k in 0..good.keys.len() {
            put(format!("key {k} left out"), &|i| { i.keys.remove(k); });
        }
        for k in 0..good.attestations.len() {
            put(format!("attestation {k} left out"), &|i| { i.attestations.remove(k); });
            put(format!("attestation {k} repeated"), &|i| { let a = i.attestations[k].clone(); i.attestations.insert(k, a) });
            put(format!("attestation {k} at the end"), &|i| { let a = i.attestations[k].clone(); i.attestations.push(a) });
            put(format!("attestation {k} of another chain"), &|i| i.attestations[k] = other.attestations[k].clone());
        }
        for e in good.patches.keys() {
            put(format!("patch {e} left out"), &|i| { i.patches.remove(e); });
            put(format!("patch {e} of another chain"), &|i| { i.patches.insert(*e, other.patches[e].clone()); });
        }
        put("block".into(), &|i| i.block = other.block.clone());
        put("state".into(), &|i| i.state = other.state.clone());
        put("validators".into(), &|i| i.validators = other.validators.clone());
        put("no block".into(), &|i| i.block = Proof::default());
        for j in 0..sc.points.len() {
            let c = sc.points[j].0;
            put(format!("justified {j}"), &|i| i.consensus = ConsensusState::new(cp(c), i.consensus.finalized_checkpoint()));
        }
        for f in 0..12 {
            put(format!("finalized at {f}"), &|i| i.consensus = ConsensusState::new(cp((11, sc.points[0].0.1)), cp((f.min(10), if f == 11 { sc.points[0].0.1 } else { sc.built.block.root() }))));
        }
        for (name, i) in &cases {
            composition(ctx, "broken-inputs", &cfg, &sc.world.spec, bincode::serialize(&i.guest()).unwrap(), || name.clone());
        }
    });
    ctx.space("broken-frames", || {
        // every truncation, every bit, every byte repeated or removed
        let cfg = default_config();
        let mut sc = Scene::<Two>::new(ctx.seed, named(tiny_spec()), 4, 10);
        let input = sc.input(&[(0, 2, 4)]);
        let bytes = bincode::serialize(&input.guest()).unwrap();
        // the hints how much to preallocate: a huge one only exhausts the memory
        let hinted = bincode::serialize(&input.guest_hint(u64::MAX)).unwrap();
        let hint = |p: usize| bytes[p] != hinted[p] || p + 1 < bytes.len() && bytes[p + 1] != hinted[p + 1] || p > 0 && bytes[p - 1] != hinted[p - 1];
        // and a justified epoch far ahead only keeps the program busy with the registry updates up to there
        let mut later = input.clone();
        later.consensus = ConsensusState::new(cp((u64::MAX << 16, sc.points[0].0.1)), input.consensus.finalized_checkpoint());
        let later = bincode::serialize(&later.guest()).unwrap();
        let far: Vec<bool> = (0..bytes.len()).map(|p| bytes[p] != later[p] && later[p] == 255).collect();
        (0..bytes.len()).into_par_iter().for_each(|p| {
            composition(ctx, "broken-frames", &cfg, &sc.world.spec, bytes[..p].to_vec(), || format!("the first {p} bytes"));
            for bit in (0..8).filter(|_| !hint(p) && !far[p]) {
                let mut d = bytes.clone();
                d[p] ^= 1 << bit;
                composition(ctx, "broken-frames", &cfg, &sc.world.spec, d, || format!("bit {bit} of byte {p}"));
            }
        });
        // no frame at all, and a good one behind a bad one
        for frames in [vec![], vec![vec![], bytes.clone()], vec![vec![0; 8], bytes.clone()]] {
            let k = frames.len();
            let (got, n, _) = execute(frames, || beacon_guest::entry::<Two>(sc.world.spec.clone(), &cfg));
            ctx.eval(true);
            ctx.check(n == 0, "broken-frames", "committed", || format!("{k} frames without an input in the first: committed {}", hex(&got)));
        }
    });
    ctx.space("network-parameters", || {
        for (name, got, want) in [("mainnet", guard(chainspec::mainnet_spec), network(false)), ("sepolia", guard(chainspec::sepolia_spec), network(true))] {
            // a fork that is not scheduled has no version yet
            let got = got.map(|s| if s.gloas_fork_epoch.is_none() { ChainSpec { gloas_fork_version: want.gloas_fork_version, ..s } } else { s });
            ctx.eval(true);
            ctx.check(got.as_ref() == Ok(&want), "network-parameters", "parameters", || format!("{name}: {got:?}, the network has {want:?}"));
        }
    });
    ctx.space("networks", || {
        // the shipped programs, around their thresholds, forks and the lookahead limit, with inputs for either network
        let mut jobs = vec![];
        for of in [false, true] {
            let spec = network(of);
            let (electra, fulu) = (spec.electra_fork_epoch.unwrap().as_u64(), spec.fulu_fork_epoch.unwrap().as_u64());
            for trusted in [electra - 3, electra - 2, electra - 1, electra, electra + 1000, fulu - 3, fulu - 2, fulu - 1, fulu, fulu + 20_000] {
                for ls in [vec![(0, 2)], vec![(0, 4), (4, 6)], vec![(0, 6), (6, 8)], vec![(0, 2), (2, 4)], vec![(0, 3)]] {
                    for voters in [100usize, 86, 85, 84, 75, 71, 70, 69, 68, 67, 66, 50] {
                        if voters != 100 && voters != 66 && ls.len() > 1 && !ctx.thorough {
                            continue;
                        }
                        jobs.push((of, trusted, ls.iter().map(|(s, t)| (*s, *t, voters)).collect::<Vec<_>>()));
                    }
                }
            }
        }
        jobs.par_iter().for_each(|(of, trusted, ls)| {
            for on in [false, true] {
                let mut sc = Scene::<MainnetEthSpec>::new(ctx.seed, network(*of), 100, *trusted);
                let i = sc.input(ls);
                let what = || format!("sepolia {of} input for trusted epoch {trusted}, links {ls:?}, run by the program of sepolia {on}");
                let run = || if on { sepolia::__run() } else { mainnet::__run() };
                // what the program's own network says
                sc.world.spec = network(on);
                let f = fork_of(&sc.world.spec, *trusted);
                if f != sc.built.bs.fork {
                    let bytes = bincode::serialize(&i.guest()).unwrap();
                    let (got, n, ok) = execute(vec![bytes], run);
                    ctx.eval(false);
                    ctx.check(n == 0 && !ok, "networks", "committed", || format!("{}: state of another fork, committed {}", what(), hex(&got)));
                    continue;
                }
                let cfg = config(ForkName::Electra, ForkName::Fulu, 4, if on { 70 } else { 85 }, 100);
                sc.judge(ctx, "networks", &cfg, &i, run, what);
            }
        });
    });
    ctx.finish(
        "exploration",
        "the real guest entry and the shipped network programs, on every link sequence, setting, broken part and broken frame of the stated families; the journal must be the independently written words, once, or nothing at all; non-trivial = a journal was committed",
        &["the zkVM's I/O is a stand-in that records frames and commits", "BLS is idealized"],
        json!({}),
    )
}

/// The program commits exactly if its parts all succeed, and then exactly their result.
fn composition(ctx: &Ctx, space: &str, cfg: &Config, spec: &ChainSpec, bytes: Vec<u8>, what: impl Fn() -> String) {
    let want = guard(|| {
        let i: GuestInput<'_, Two> = bincode::deserialize(&bytes).ok()?;
        let r = i.into_reader(spec.clone()).ok()?;
        let pre = r.consensus_state().ok()?;
        let (post, slot) = z_core::verify(cfg, &r).ok()?;
        Some(journal(pair_of(&pre), pair_of(&post), slot))
    })
    .ok()
    .flatten();
    let (got, n, ok) = execute(vec![bytes.clone()], || beacon_guest::entry::<Two>(spec.clone(), cfg));
    ctx.eval(n > 0);
    match want {
        Some(j) => ctx.check(n == 1 && got == j && ok, space, "journal", || format!("{}: {n} commits: {}, expected {}", what(), hex(&got), hex(&j))),
        None => ctx.check(n == 0 && !ok, space, "committed", || format!("{}: must be rejected, but {n} commits: {}", what(), hex(&got))),
    };
}
