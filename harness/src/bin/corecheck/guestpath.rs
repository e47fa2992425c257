//! The spaces of C01–C06 in which verification reads its input the way the guest does: from proofs of the trusted
//! state, advanced registry and patches.
use beacon_types::{Attestation, ChainSpec, EthSpec, ForkName};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{Config, Epoch, InputReader, StatePatch, ValidatorInfo};

const ETH: u64 = 1_000_000_000;

/// A chain with a trusted state; `world` is what is known of the epochs after it.
struct Guest<E: EthSpec> {
    world: World,
    built: Built,
    trusted: u64,
    justified: u64,
    /// epoch, root of the block header, header; two for each epoch after the trusted one
    points: Vec<(Cp, T)>,
    _e: std::marker::PhantomData<E>,
}
/// A validator as the trusted state has it.
fn member(i: usize, balance: u64, eligible: u64, active: u64, exit: u64, slashed: bool) -> ValidatorInfo {
    ValidatorInfo {
        activation_eligibility_epoch: Epoch::new(eligible),
        activation_epoch: Epoch::new(active),
        exit_epoch: Epoch::new(exit),
        slashed,
        ..validator(i, balance)
    }
}
fn plain(n: usize) -> Vec<ValidatorInfo> {
    (0..n).map(|i| validator(i, 32 * ETH)).collect()
}
impl<E: EthSpec> Guest<E> {
    fn new(seed: u64, spec: ChainSpec, validators: Vec<ValidatorInfo>, trusted: u64, justified: u64, exits: &BTreeMap<usize, u64>) -> Self {
        let spe = E::slots_per_epoch();
        let mut world = World::new(seed, 0, 0);
        world.spec = spec;
        let mut bs = BlockState::new::<E>(seed, &world.spec, trusted * spe, validators);
        bs.gvr = world.gvr;
        world.registry = advanced(&world.spec, &bs, trusted, trusted, justified);
        for (i, e) in exits {
            world.registry.get_mut(i).unwrap().exit_epoch = Epoch::new(*e);
        }
        let built = bs.build();
        let points = (1..=6)
            .flat_map(|d| {
                let e = trusted + d;
                // the block of the checkpoint may be from a slot before
                (0..2u64).map(move |alt| {
                    let h = header(seed + alt, (e * spe).saturating_sub(alt * (1 + d % 3)));
                    ((e, h.root()), h)
                })
            })
            .collect();
        Guest { world, built, trusted, justified, points, _e: Default::default() }
    }
    fn first(&self) -> Cp {
        self.points[2 * (self.justified - self.trusted - 1) as usize].0
    }
    /// The checkpoint `d` epochs after the trusted one.
    fn at(&self, d: u64) -> Cp {
        self.points[2 * (d - 1) as usize].0
    }
    fn patch(&self, epoch: u64, exits: &BTreeMap<usize, u64>) -> StatePatch {
        let idx = self.world.mix_index::<E>(epoch);
        StatePatch {
            randao_mixes: self.world.mix(epoch, idx).map(|m| (idx, b(m))).into_iter().collect(),
            validator_exits: exits.iter().map(|(i, e)| (*i, Epoch::new(*e))).collect(),
        }
    }
    fn input(&mut self, atts: Vec<Attestation<E>>, exits: &BTreeMap<usize, u64>) -> Input<E> {
        let mut i: Input<E> = self.built.input(self.trusted, self.first());
        let targets: BTreeSet<u64> = atts.iter().map(|a| a.data().target.epoch.as_u64()).filter(|t| *t >= self.trusted).collect();
        i.patches = targets.iter().map(|t| (Epoch::new(*t), self.patch(*t, exits))).collect();
        i.attestations = atts;
        self.world.slots.clear();
        for (c, h) in &self.points {
            self.world.slots.insert(c.1, node(h, 8).map(|x| u64::from_le_bytes(x[..8].try_into().unwrap())).unwrap());
            i.slots.push(slot_proof(h));
        }
        i
    }
    /// The links by those validators.
    fn votes(&self, links: &[(Cp, Cp)], voter: impl Fn(usize) -> bool + Copy) -> Vec<Attestation<E>> {
        links.iter().flat_map(|(s, t)| self.world.attest::<E>(cp(*s), cp(*t), voter)).collect()
    }
    fn judge(&self, ctx: &Ctx, space: &str, cfg: &Config, i: &Input<E>, what: impl Fn() -> String) -> bool {
        let atts: Vec<_> = i.attestations.iter().collect();
        let want = oracle::<E>(cfg, &self.world, &i.consensus, &atts);
        let r = guard(|| match i.guest().into_reader(self.world.spec.clone()) {
            Ok(r) => z_core::verify(cfg, &r).map_err(|e| e.to_string()),
            Err(e) => Err(format!("input refused: {e}")),
        });
        let (got, why) = match r {
            Ok(Ok(x)) => (Some(x), String::new()),
            Ok(Err(e)) => (None, e),
            Err(p) => (None, format!("panic: {p}")),
        };
        ctx.eval(!matches!(want, Verdict::Reject(_)));
        if !agrees(&want, &got) {
            let kind = match (&want, &got) {
                (Verdict::Reject(_), Some(_)) => "wrongly-accepted",
                (_, None) => "wrongly-rejected",
                _ => "wrong-result",
            };
            ctx.violation(space, kind, || format!("{}: expected {want:?}, got {got:?} {why}", what()));
        }
        matches!(want, Verdict::Accept(..))
    }
}
fn none() -> BTreeMap<usize, u64> {
    BTreeMap::new()
}

/// C01: every sequence of links among the checkpoints, and the finalized block's slot.
pub fn chains(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    ctx.space(SPACE, || {
        let cfg = default_config();
        let scene = || Guest::<Two>::new(ctx.seed, tiny_spec(), plain(6), 10, 11, &none());
        let pts: Vec<usize> = vec![0, 1, 2, 3, 4, 6, 8];
        let links: Vec<(usize, usize)> = pts.iter().flat_map(|s| pts.iter().map(|t| (*s, *t))).collect();
        let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
        all.extend(links.iter().map(|l| vec![*l]));
        for a in &links {
            all.extend(links.iter().map(|l| vec![*a, *l]));
        }
        for a in links.iter().filter(|l| l.0 == 0) {
            for x in links.iter().filter(|l| l.0 == a.1) {
                all.extend(links.iter().map(|l| vec![*a, *x, *l]));
            }
        }
        all.par_iter().for_each_init(scene, |g, ls| {
            let seq: Vec<(Cp, Cp)> = ls.iter().map(|(s, t)| (g.points[*s].0, g.points[*t].0)).collect();
            let atts = g.votes(&seq, |_| true);
            let i = g.input(atts, &none());
            if g.judge(ctx, SPACE, &cfg, &i, || format!("links {ls:?} between checkpoints at trusted+1.., two each")) {
                ctx.sample(|| json!({"links": ls}));
            }
        });
        // the proofs of the blocks' slots in any order, repeated, or the finalized block's missing
        let mut g = scene();
        for ls in [vec![(0usize, 2usize)], vec![(0, 3)], vec![(0, 5), (5, 6)], vec![(0, 4), (4, 6)]] {
            let seq: Vec<(Cp, Cp)> = ls.iter().map(|(s, t)| (g.points[*s].0, g.points[*t].0)).collect();
            let atts = g.votes(&seq, |_| true);
            let i = g.input(atts, &none());
            let n = i.slots.len();
            let fin = ls.last().unwrap().0;
            for rot in 0..n {
                for rev in [false, true] {
                    for dup in 0..=n {
                        let mut k = i.clone();
                        k.slots.rotate_left(rot);
                        if rev {
                            k.slots.reverse();
                        }
                        if dup < n {
                            let p = k.slots[dup].clone();
                            k.slots.push(p);
                        }
                        g.judge(ctx, SPACE, &cfg, &k, || format!("links {ls:?}, slot proofs turned by {rot}, reversed {rev}, repeated {dup}"));
                    }
                }
            }
            for left in 0..n {
                let mut k = i.clone();
                k.slots.remove(left);
                let gone = g.world.slots.remove(&g.points[left].0 .1);
                g.judge(ctx, SPACE, &cfg, &k, || format!("links {ls:?}, without the slot proof of block {left} (the finalized block is {fin})"));
                g.world.slots.insert(g.points[left].0 .1, gone.unwrap());
            }
        }
    });
}

/// C02: whose balance counts, with every kind of validator.
pub fn balances(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    ctx.space(SPACE, || {
        let (trusted, far) = (10u64, FAR);
        // target at trusted + 2 .. trusted + 4, justified at trusted + 1
        let kinds: Vec<(&str, ValidatorInfo)> = vec![
            ("32", member(0, 32 * ETH, 0, 0, far, false)),
            ("31", member(0, 31 * ETH, 0, 0, far, false)),
            ("1", member(0, ETH, 0, 0, far, false)),
            ("2048", member(0, 2048 * ETH, 0, 0, far, false)),
            ("slashed", member(0, 32 * ETH, 0, 0, far, true)),
            ("slashed, leaving at +3", member(0, 32 * ETH, 0, 0, trusted + 3, true)),
            ("leaving at +2", member(0, 33 * ETH, 0, 0, trusted + 2, false)),
            ("left", member(0, 34 * ETH, 0, 0, trusted, false)),
            ("coming at +3", member(0, 35 * ETH, 0, trusted + 3, far, false)),
            ("coming at +2", member(0, 36 * ETH, 0, trusted + 2, far, false)),
            ("eligible", member(0, 37 * ETH, trusted - 3, far, far, false)),
            ("deposited", member(0, 32 * ETH, far, far, far, false)),
        ];
        let jobs: Vec<Vec<usize>> = {
            let n = kinds.len();
            let mut v = vec![];
            for a in 0..n {
                for x in a..n {
                    for c in x..n {
                        if ctx.thorough || (a + x + c) % 2 == 0 {
                            v.push(vec![0, a, x, c]);
                        }
                    }
                }
            }
            v
        };
        jobs.par_iter().for_each(|ks| {
            let vs: Vec<ValidatorInfo> = ks.iter().enumerate().map(|(i, k)| ValidatorInfo { pubkey: key(i).public_key(), ..kinds[*k].1.clone() }).collect();
            let mut spec = tiny_spec();
            spec.target_committee_size = 64;
            spec.max_seed_lookahead = Epoch::new(1);
            let mut g = Guest::<One>::new(ctx.seed, spec, vs, trusted, trusted + 1, &none());
            let (j, t2, t3, t4) = (g.at(1), g.at(2), g.at(3), g.at(4));
            for set in 1u32..16 {
                for ls in [vec![(j, t2)], vec![(j, t3), (t3, t4)]] {
                    let atts = g.votes(&ls, |i| set >> i & 1 == 1);
                    let i = g.input(atts, &none());
                    for (f, q) in [(2u64, 3u64), (85, 100), (70, 100), (1, 1)] {
                        let cfg = config(ForkName::Electra, ForkName::Fulu, 4, f, q);
                        g.judge(ctx, SPACE, &cfg, &i, || format!("validators {:?}, voters {set:b}, {} links, threshold {f}/{q}", ks.iter().map(|k| kinds[*k].0).collect::<Vec<_>>(), ls.len()));
                    }
                }
            }
        });
        // exits that are known from patches only
        let n = 6usize;
        (0u32..1 << n).into_par_iter().for_each(|leaving| {
            if leaving.count_ones() > 2 {
                return;
            }
            for at in [15u64, 16, 17] {
                let exits: BTreeMap<usize, u64> = (0..n).filter(|i| leaving >> i & 1 == 1).map(|i| (i, at)).collect();
                let vs: Vec<ValidatorInfo> = (0..n).map(|i| validator(i, (30 + 2 * i as u64) * ETH)).collect();
                let mut spec = tiny_spec();
                // exits take effect five epochs after the trusted one; keep the limit out of the way
                spec.max_seed_lookahead = Epoch::new(4);
                spec.min_per_epoch_churn_limit_electra = 10_000 * ETH;
                spec.max_per_epoch_activation_exit_churn_limit = 10_000 * ETH;
                let mut g = Guest::<One>::new(ctx.seed, spec, vs, 10, 11, &exits);
                let ls = vec![(g.at(1), g.at(5)), (g.at(5), g.at(6))];
                for set in 0u32..1 << n {
                    if set.count_ones() < 3 {
                        continue;
                    }
                    let atts = g.votes(&ls, |i| set >> i & 1 == 1);
                    let i = g.input(atts, &exits);
                    let cfg = config(ForkName::Electra, ForkName::Fulu, 8, 2, 3);
                    g.judge(ctx, SPACE, &cfg, &i, || format!("validators {leaving:b} patched to leave at {at}, voters {set:b}, targets 15 and 16"));
                }
            }
        });
    });
}

/// C03: the domain and the signers, with the fork and the keys of the proven state.
pub fn votes(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    ctx.space(SPACE, || {
        let cfg = default_config();
        let spe = 2u64;
        let jobs: Vec<(Option<u64>, u64, u64)> = [None, Some(0u64), Some(9), Some(10), Some(11), Some(12), Some(13), Some(14), Some(15)].into_iter().flat_map(|f| [1u64, 2, 3].into_iter().flat_map(move |dj| (dj + 1..=4).map(move |dt| (f, dj, dt)))).collect();
        jobs.par_iter().for_each(|(fulu, dj, dt)| {
            let mut spec = tiny_spec();
            spec.fulu_fork_epoch = fulu.map(Epoch::new);
            let mut g = Guest::<Two>::new(ctx.seed, spec, plain(8), 10, 10 + dj, &none());
            let link = (g.at(*dj), g.at(*dt));
            // followed, if need be, by a finalizing one
            let mut rest = vec![];
            if dt - dj > 1 && *dt < 4 {
                rest = g.votes(&[(g.at(*dt), g.at(dt + 1))], |_| true);
            }
            let versions = [g.world.spec.electra_fork_version, g.world.spec.fulu_fork_version, g.world.spec.deneb_fork_version, [0; 4], [9; 4]];
            for version in versions {
                for gvr in [g.world.gvr, [0; 32], val(1, "g", 1)] {
                    for kind in [1u32, 0, 2] {
                        let mut atts = vec![];
                        for slot in link.1 .0 * spe..(link.1 .0 + 1) * spe {
                            let cs = g.world.committees::<Two>(slot).unwrap();
                            let data = g.world.data(slot, cp(link.0), cp(link.1));
                            let root = hash2(&data_root(&data), &domain(kind, version, &gvr));
                            let members = cs.concat();
                            atts.push(attestation::<Two>(&(0..cs.len()).collect::<Vec<_>>(), &vec![true; members.len()], data, g.world.sign(&members, &root)));
                        }
                        atts.extend(rest.clone());
                        let i = g.input(atts, &none());
                        g.judge(ctx, SPACE, &cfg, &i, || format!("fulu at {fulu:?}, link {} to {}, signed for version {version:?}, domain {kind}, genesis root {}", 10 + dj, 10 + dt, hex(&gvr[..4])));
                    }
                }
            }
        });
        // signed by one validator in another's place, or bits for another
        let mut g = Guest::<Two>::new(ctx.seed, tiny_spec(), plain(8), 10, 11, &none());
        let link = (g.at(1), g.at(2));
        let honest = g.votes(&[link], |_| true);
        let slot = link.1 .0 * spe;
        let members = g.world.committees::<Two>(slot).unwrap().concat();
        let data = g.world.data(slot, cp(link.0), cp(link.1));
        let root = g.world.signing_root(&data);
        for claim in 1u32..1 << members.len() {
            let bits: Vec<bool> = (0..members.len()).map(|i| claim >> i & 1 == 1).collect();
            let base: Vec<usize> = members.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
            let mut variants = vec![base.clone()];
            for k in 0..base.len() {
                for v in 0..8 {
                    let mut x = base.clone();
                    x[k] = v;
                    variants.push(x);
                }
                let mut x = base.clone();
                x.remove(k);
                variants.push(x);
            }
            for signers in variants {
                let mut atts = honest.clone();
                atts.push(attestation::<Two>(&[0], &bits, data.clone(), g.world.sign(&signers, &root)));
                let i = g.input(atts, &none());
                g.judge(ctx, SPACE, &cfg, &i, || format!("votes of {base:?} signed by {signers:?}"));
            }
        }
    });
}

/// C04: the committees that verification uses, over active sets with every gap.
pub fn gaps(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    ctx.space(SPACE, || {
        let cfg = default_config();
        let n = ctx.pick(9usize, 12);
        (1u32..1 << n).into_par_iter().for_each(|set| {
            let vs: Vec<ValidatorInfo> = (0..n)
                .map(|i| if set >> i & 1 == 1 { validator(i, 32 * ETH) } else { [member(i, 32 * ETH, 0, 0, 10, false), member(i, 32 * ETH, 0, 0, 11, false), member(i, 32 * ETH, 12, 17, FAR, false)][i % 3].clone() })
                .collect();
            let mut spec = tiny_spec();
            spec.target_committee_size = 2;
            let mut g = Guest::<Two>::new(ctx.seed + set as u64, spec, vs, 10, 11, &none());
            for ls in [vec![(g.at(1), g.at(2))], vec![(g.at(1), g.at(3)), (g.at(3), g.at(4))]] {
                let atts = g.votes(&ls, |_| true);
                let i = g.input(atts, &none());
                g.judge(ctx, SPACE, &cfg, &i, || format!("validators {set:b} of {n} active, {} links", ls.len()));
            }
        });
    });
}

/// C05: the mix of the very epoch.
pub fn mixes(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    fn run<E: EthSpec>(ctx: &'static Ctx, hist: u64) {
        (2..2 + 3 * hist).chain([(1 << 40) - 2, (1 << 40) + 5]).collect::<Vec<_>>().into_par_iter().for_each(|trusted| {
            let mut g = Guest::<E>::new(ctx.seed, tiny_spec(), plain(9), trusted, trusted + 1, &none());
            let base = g.input(vec![], &none());
            // every epoch has every mix, and they all differ
            let full: BTreeMap<Epoch, StatePatch> = (trusted..=trusted + 5)
                .map(|e| (Epoch::new(e), StatePatch { randao_mixes: (0..hist as u32).map(|i| (i, b(g.world.mix(e, i).unwrap()))).collect(), validator_exits: BTreeMap::new() }))
                .collect();
            // all, all of one epoch missing, a single one missing, a single one there
            let mut cases = vec![(full.clone(), "all".to_string())];
            for e in trusted..=trusted + 5 {
                let mut p = full.clone();
                p.remove(&Epoch::new(e));
                cases.push((p, format!("without epoch {e}")));
                for i in 0..hist as u32 {
                    let mut p = full.clone();
                    p.get_mut(&Epoch::new(e)).unwrap().randao_mixes.remove(&i);
                    cases.push((p, format!("without {i} of epoch {e}")));
                    let mut p = full.clone();
                    p.get_mut(&Epoch::new(e)).unwrap().randao_mixes.retain(|k, _| *k == i);
                    cases.push((p, format!("only {i} of epoch {e}")));
                }
            }
            for (patches, what) in cases {
                let mut i = base.clone();
                i.patches = patches.clone();
                let got = guard(|| {
                    let r = i.guest().into_reader(g.world.spec.clone()).map_err(|e| e.to_string())?;
                    Ok::<_, String>(
                        (trusted.saturating_sub(1)..=trusted + 6)
                            .map(|e| {
                                let s = guard(|| r.get_seed(Epoch::new(e), 1u32.to_le_bytes().into()));
                                (e, s.ok().and_then(|s| s.ok()).map(|s| s.0))
                            })
                            .collect::<Vec<_>>(),
                    )
                });
                let Ok(Ok(got)) = got else {
                    ctx.violation(SPACE, "refused", || format!("trusted epoch {trusted}, mixes {what}: {got:?}"));
                    continue;
                };
                for (e, s) in got {
                    let idx = g.world.mix_index::<E>(e);
                    let mix = patches.get(&Epoch::new(e)).and_then(|p| p.randao_mixes.get(&idx));
                    let want = mix.map(|m| sha(&[&1u32.to_le_bytes(), &e.to_le_bytes(), &m.0]));
                    ctx.eval(want.is_some());
                    ctx.check(s == want, SPACE, "seed", || format!("trusted epoch {trusted}, mixes {what}: seed of epoch {e} is {s:?}, specified {want:?}"));
                }
            }
        });
    }
    ctx.space(SPACE, || {
        run::<Two>(ctx, 8);
        run::<Four>(ctx, 16);
    });
}

/// C06: the limits.
pub fn limits(ctx: &'static Ctx) {
    const SPACE: &str = "guest-input";
    ctx.space(SPACE, || {
        let mut jobs = vec![];
        for fulu in [None, Some(0u64), Some(10), Some(11), Some(12), Some(13), Some(14), Some(15), Some(16)] {
            for gloas in [None, Some(12u64), Some(14), Some(15)] {
                if gloas.is_none_or(|g| fulu.is_some_and(|f| f <= g)) {
                    for dj in 1..=4u64 {
                        jobs.push((fulu, gloas, dj));
                    }
                }
            }
        }
        jobs.par_iter().for_each(|(fulu, gloas, dj)| {
            let mut spec = tiny_spec();
            spec.fulu_fork_epoch = fulu.map(Epoch::new);
            spec.gloas_fork_epoch = gloas.map(Epoch::new);
            let mut g = Guest::<Two>::new(ctx.seed, spec, plain(4), 10, 10 + dj, &none());
            let mut chains = vec![vec![(g.at(*dj), g.at(dj + 1))]];
            for m in dj + 2..=5 {
                chains.push(vec![(g.at(*dj), g.at(m)), (g.at(m), g.at(m + 1))]);
            }
            for ls in chains {
                let atts = g.votes(&ls, |_| true);
                let i = g.input(atts, &none());
                for limit in (0..=7).chain([u64::MAX]) {
                    for (min, max) in [(ForkName::Electra, ForkName::Fulu), (ForkName::Electra, ForkName::Electra), (ForkName::Fulu, ForkName::Fulu), (ForkName::Base, ForkName::Gloas), (ForkName::Gloas, ForkName::Gloas), (ForkName::Deneb, ForkName::Electra)] {
                        let cfg = config(min, max, limit, 2, 3);
                        g.judge(ctx, SPACE, &cfg, &i, || format!("fulu at {fulu:?}, gloas at {gloas:?}, supported {min}..{max}, limit {limit}, links {:?} from trusted epoch 10", ls.iter().map(|l| (l.0 .0, l.1 .0)).collect::<Vec<_>>()));
                    }
                }
            }
        });
    });
}
