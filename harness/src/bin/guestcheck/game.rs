//! C32: whatever a prover makes up, the guest finalizes only what enough of the trusted stake voted for.
//!
//! A prover is free in everything: it holds the keys of some validators, knows every signature that the others have
//! published, and composes an input from these and whatever it makes up. What the guest makes of the input is not
//! predicted here; whatever it commits is compared with what the validators really signed.
use crate::binding::ETH;
use crate::entry::execute;
use beacon_types::{Attestation, ChainSpec, EthSpec};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{Config, ConsensusState, Epoch, StatePatch, ValidatorInfo};

const TRUSTED: u64 = 10;
type Edge = (Cp, Cp);

/// What the honest validators have signed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum History {
    Silent,
    /// one link from each epoch to the next
    Dense,
    /// the same, by the first validators only
    Some(usize),
    /// every target from the same justified checkpoint
    Stalled,
    /// even and odd validators on different branches
    Split,
    /// an epoch without a justification
    Gap,
}
struct Board<E: EthSpec> {
    world: World,
    built: Built,
    points: Vec<(Cp, T)>,
    _e: std::marker::PhantomData<E>,
}
/// Who takes part in a play.
#[derive(Clone, Copy, Debug)]
struct Side {
    attackers: u32,
    history: History,
}
/// An attestation that the prover makes: the slot in the epoch, the claimed members, and where the signature is from.
#[derive(Clone, Copy, Debug)]
struct Claim {
    slot: u64,
    members: u32,
    from: From,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum From {
    /// the signatures for the very message that there are
    Own,
    /// for those without one, their signature of another vote in that epoch
    Other,
    /// for those without one, one more of an attacker
    Padded,
    /// the signatures of another vote as a whole
    Moved,
    /// a vote with its slot left as it was signed
    Late,
}
/// The prover's claims for a link.
type Group = (Edge, Vec<Claim>);

impl<E: EthSpec> Board<E> {
    fn new(seed: u64, mut spec: ChainSpec, validators: Vec<ValidatorInfo>) -> Self {
        spec.config_name = Some("tiny".into());
        let spe = E::slots_per_epoch();
        let mut world = World::new(seed, 0, 0);
        world.spec = spec;
        let mut bs = BlockState::new::<E>(seed, &world.spec, TRUSTED * spe, validators);
        bs.gvr = world.gvr;
        world.registry = advanced(&world.spec, &bs, TRUSTED, TRUSTED, TRUSTED + 1);
        let points: Vec<(Cp, T)> = (1..=4)
            .flat_map(|d| {
                (0..2u64).map(move |alt| {
                    let h = header(seed + alt, (TRUSTED + d) * spe - alt);
                    ((TRUSTED + d, h.root()), h)
                })
            })
            .collect();
        world.slots = points.iter().map(|(c, h)| (c.1, u64::from_le_bytes(node(h, 8).unwrap()[..8].try_into().unwrap()))).collect();
        Board { built: bs.build(), world, points, _e: Default::default() }
    }
    fn edge(&self, s: usize, t: usize) -> Edge {
        (self.points[s].0, self.points[t].0)
    }
    fn pre(&self) -> (Cp, Cp) {
        (self.points[0].0, (TRUSTED, self.built.block.root()))
    }
    fn branch(&self, d: u64, alt: usize) -> Cp {
        self.points[2 * (d as usize - 1) + alt].0
    }
    /// Whether the validator has signed, or is ready to sign, a vote for the link.
    fn genuine(&self, side: Side, v: usize, l: Edge) -> bool {
        side.attackers >> v & 1 == 1 || self.votes(side.history, v).contains(&l)
    }
    fn votes(&self, h: History, v: usize) -> Vec<Edge> {
        let j = self.branch(1, 0);
        let on = |alt| vec![(j, self.branch(2, alt)), (self.branch(2, alt), self.branch(3, alt)), (self.branch(3, alt), self.branch(4, alt))];
        match h {
            History::Silent => vec![],
            History::Dense => on(0),
            History::Some(n) => if v < n { on(0) } else { vec![] },
            History::Stalled => (2..=4).map(|d| (j, self.branch(d, 0))).collect(),
            History::Split => on(v % 2),
            History::Gap => vec![(j, self.branch(3, 0)), (self.branch(3, 0), self.branch(4, 0))],
        }
    }
    fn members(&self, active: &[usize], epoch: u64, mix: &B32, slot: u64) -> Vec<usize> {
        let spe = E::slots_per_epoch();
        let seed = sha(&[&1u32.to_le_bytes(), &epoch.to_le_bytes(), mix]);
        assert_eq!(committees_per_slot::<E>(active.len(), &self.world.spec), 1, "one committee a slot");
        committee(active, &seed, (slot % spe) as usize, spe as usize, self.world.spec.shuffle_round_count)
    }
    /// In which slot of an epoch the validator really is to vote.
    fn duty(&self, v: usize, epoch: u64) -> Option<u64> {
        let mix = self.world.mix(epoch, self.world.mix_index::<E>(epoch)).unwrap();
        let active = self.world.active(epoch);
        (0..E::slots_per_epoch()).find(|s| self.members(&active, epoch, &mix, *s).contains(&v))
    }
    /// An attestation with the claimed votes; `active` and `mix` are what the prover shows.
    fn claim(&self, side: Side, l: Edge, c: Claim, active: &[usize], mix: &B32) -> Option<Attestation<E>> {
        let spe = E::slots_per_epoch();
        let epoch = l.1 .0;
        let members = self.members(active, epoch, mix, c.slot);
        let bits: Vec<bool> = (0..members.len()).map(|i| c.members >> i & 1 == 1).collect();
        let claimed: Vec<usize> = members.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
        let attacker = (0..32).find(|v| side.attackers >> v & 1 == 1);
        let has = |v: usize, l: Edge, slot: u64| side.attackers >> v & 1 == 1 || self.votes(side.history, v).contains(&l) && self.duty(v, l.1 .0) == Some(slot % spe);
        let data = |l: Edge, slot: u64| self.world.data(slot, cp(l.0), cp(l.1));
        let mut shown = data(l, epoch * spe + c.slot);
        let mut sigs = vec![];
        // the vote whose signatures are moved here
        let donor = || claimed.iter().flat_map(|v| self.votes(side.history, *v)).find(|x| *x != l);
        for v in &claimed {
            let slot = epoch * spe + c.slot;
            match c.from {
                From::Moved | From::Late => {
                    let d = donor()?;
                    let at = if c.from == From::Late { d.1 .0 * spe + c.slot } else { slot };
                    if has(*v, d, at) {
                        sigs.push((*v, data(d, at)));
                    }
                    shown = data(l, at);
                }
                _ if has(*v, l, slot) => sigs.push((*v, data(l, slot))),
                From::Own => {}
                From::Other => {
                    if let Some(o) = self.votes(side.history, *v).into_iter().find(|o| o.1 .0 == epoch) {
                        sigs.push((*v, data(o, slot)));
                    }
                }
                From::Padded => sigs.push((attacker?, data(l, slot))),
            }
        }
        let mut total = beacon_types::AggregateSignature::empty();
        for (v, d) in &sigs {
            total.add_assign(&key(*v).sign(b(self.world.signing_root(d))));
        }
        Some(attestation(&[0], &bits, shown, total))
    }
    fn input(&self) -> Input<E> {
        let mut i: Input<E> = self.built.input(TRUSTED, self.points[0].0);
        i.slots = self.points.iter().map(|(_, h)| slot_proof(h)).collect();
        i
    }
    fn play(&self, side: Side, groups: &[Group], mixes: u64) -> Option<Input<E>> {
        let mut i = self.input();
        for (l, cs) in groups {
            let e = l.1 .0;
            let idx = self.world.mix_index::<E>(e);
            let mix = if mixes == 0 { self.world.mix(e, idx).unwrap() } else { val(mixes, "made-up mix", e) };
            i.patches.insert(Epoch::new(e), StatePatch { randao_mixes: BTreeMap::from([(idx, b(mix))]), validator_exits: BTreeMap::new() });
            let active = self.world.active(e);
            for c in cs {
                i.attestations.push(self.claim(side, *l, *c, &active, &mix)?);
            }
        }
        Some(i)
    }
    /// How much of the balance the prover may leave out at an epoch: what can exit until then at all.
    fn leavable(&self, epoch: u64) -> u128 {
        let s = &self.world.spec;
        let total: u64 = self.world.active(TRUSTED).iter().map(|v| self.world.registry[v].effective_balance).sum();
        let churn = s.min_per_epoch_churn_limit_electra.max(total / s.churn_limit_quotient);
        let churn = 2 * (churn - churn % s.effective_balance_increment) as u128;
        let first = TRUSTED + 1 + s.max_seed_lookahead.as_u64();
        if epoch < first { 0 } else { churn * (epoch - first + 1) as u128 }
    }
    /// Whether enough of the stake has signed votes for the link.
    fn supported(&self, cfg: &Config, side: Side, l: Edge) -> bool {
        let active = self.world.active(l.1 .0);
        let bal = |v: &usize| self.world.registry[v].effective_balance as u128;
        let total: u128 = active.iter().map(bal).sum();
        let voted: u128 = active.iter().filter(|v| self.genuine(side, **v, l) && !self.world.registry[*v].slashed).map(bal).sum();
        let need = total.saturating_sub(self.leavable(l.1 .0));
        // with nobody left, the increment that stands for no balance at all would be compared with itself
        voted > 0 && voted * cfg.justification_threshold_quotient as u128 >= need * cfg.justification_threshold_factor as u128
    }
    /// Every state that the votes there are lead to.
    fn outcomes(&self, cfg: &Config, side: Side) -> BTreeSet<(Cp, Cp)> {
        let mut out = BTreeSet::new();
        let mut open = vec![self.pre()];
        while let Some(s) = open.pop() {
            for (t, _) in &self.points {
                let l = (s.0, *t);
                if let Some(n) = step(s, l).filter(|_| self.supported(cfg, side, l)) {
                    if n.1 != s.1 {
                        out.insert(n);
                    } else {
                        open.push(n);
                    }
                }
            }
        }
        out
    }
    /// Gives the guest the input; whatever it commits from the trusted state on must be among the outcomes.
    fn judge(&self, ctx: &Ctx, space: &str, cfg: &Config, i: &Input<E>, allowed: &BTreeSet<(Cp, Cp)>, what: impl Fn() -> String) {
        let bytes = bincode::serialize(&i.guest()).unwrap();
        let (got, n, _) = execute(vec![bytes], || beacon_guest::entry::<E>(self.world.spec.clone(), cfg));
        ctx.eval(n > 0);
        if n == 0 {
            return;
        }
        let known = |pre: (Cp, Cp), post: (Cp, Cp)| self.world.slots.get(&post.1 .1).is_some_and(|slot| crate::entry::journal(pre, post, *slot) == got);
        // a journal from another starting point is nobody's
        let pre = crate::entry::journal(self.pre(), self.pre(), 0);
        if n == 1 && got.len() == pre.len() && got[..128] != pre[..128] {
            return;
        }
        let ok = n == 1 && allowed.iter().any(|post| known(self.pre(), *post));
        ctx.check(ok, space, "finalized-without-the-votes", || format!("{}: {n} commits: {}; the votes allow {allowed:?}", what(), hex(&got)));
    }
}

fn mask(side: u32, n: usize) -> u32 {
    side & ((1 << n) - 1)
}
const HISTORIES: [History; 8] = [History::Silent, History::Dense, History::Some(1), History::Some(2), History::Some(3), History::Stalled, History::Split, History::Gap];

pub fn c32(ctx: &'static Ctx) -> ! {
    let cfg = default_config();
    let plain = |n: usize| (0..n).map(|i| validator(i, (32 + 3 * i as u64) * ETH)).collect::<Vec<_>>();
    let modes = [From::Own, From::Other, From::Padded, From::Moved, From::Late];
    ctx.space("votes", || {
        // one link, every claim for either slot and every two for one, and every origin of the signatures
        let n = ctx.pick(4usize, 5);
        let b: Board<Two> = Board::new(ctx.seed, tiny_spec(), plain(n));
        let mut jobs = vec![];
        for attackers in 0u32..1 << n {
            for history in HISTORIES {
                for t in 1..6usize {
                    for mixes in 0..2u64 {
                        jobs.push((Side { attackers: mask(attackers, n), history }, t, mixes));
                    }
                }
            }
        }
        jobs.par_iter().for_each(|(side, t, mixes)| {
            let allowed = b.outcomes(&cfg, *side);
            let l = b.edge(0, *t);
            let claims = |slot: u64| {
                let mut v = vec![vec![]];
                for members in 1u32..1 << n.div_ceil(2) {
                    for from in modes {
                        v.push(vec![Claim { slot, members, from }]);
                    }
                }
                v
            };
            // all of the other slot's that there are
            let rest: Vec<Claim> = {
                let mix = b.world.mix(l.1 .0, b.world.mix_index::<Two>(l.1 .0)).unwrap();
                let ms = b.members(&b.world.active(l.1 .0), l.1 .0, &mix, 1);
                let members = ms.iter().enumerate().filter(|m| b.genuine(*side, *m.1, l)).map(|m| 1 << m.0).sum();
                (members > 0).then_some(Claim { slot: 1, members, from: From::Own }).into_iter().collect()
            };
            for x in claims(0) {
                for y in claims(1).into_iter().chain(claims(0)) {
                    let mut cs: Vec<Claim> = x.iter().chain(&y).copied().collect();
                    let same = cs.iter().all(|c| c.slot == 0);
                    if same {
                        cs.extend(&rest);
                    }
                    // once, and everything repeated
                    for group in [cs.clone(), [cs.clone(), cs.clone()].concat()] {
                        if let Some(i) = b.play(*side, &[(l, group)], *mixes) {
                            b.judge(ctx, "votes", &cfg, &i, &allowed, || format!("{side:?}, link to point {t}, claims {cs:?}, mixes {mixes}"));
                        }
                    }
                }
            }
        });
    });
    ctx.space("chains", || {
        // up to three links in any order, each with the votes there are, or with votes that are not there
        let n = 5usize;
        let b: Board<Two> = Board::new(ctx.seed, tiny_spec(), plain(n));
        let all = |from: From| (0..2u64).map(|slot| Claim { slot, members: u32::MAX, from }).collect::<Vec<_>>();
        // those with a signature for the link, both slots
        let real = |side: Side, l: Edge| -> Vec<Claim> {
            let mix = b.world.mix(l.1 .0, b.world.mix_index::<Two>(l.1 .0)).unwrap();
            let active = b.world.active(l.1 .0);
            (0..2u64)
                .map(|slot| {
                    let ms = b.members(&active, l.1 .0, &mix, slot);
                    Claim { slot, members: ms.iter().enumerate().filter(|m| b.genuine(side, *m.1, l)).map(|m| 1 << m.0).sum(), from: From::Own }
                })
                .filter(|c| c.members > 0)
                .collect()
        };
        let points: Vec<usize> = (0..8).collect();
        let edges: Vec<(usize, usize)> = points.iter().flat_map(|s| points.iter().map(move |t| (*s, *t))).filter(|e| e.0 != e.1).collect();
        let mut seqs: Vec<Vec<(usize, usize)>> = edges.iter().map(|e| vec![*e]).collect();
        for a in &edges {
            seqs.extend(edges.iter().map(|e| vec![*a, *e]));
        }
        for a in edges.iter().filter(|e| e.0 == 0) {
            for x in edges.iter().filter(|e| e.0 == a.1 || ctx.thorough && e.0 == 0) {
                seqs.extend(edges.iter().map(|e| vec![*a, *x, *e]));
            }
        }
        let mut sides = vec![];
        for attackers in [0u32, 0b1, 0b11, 0b10100, 0b111, 0b11100, 0b1111, 0b11111] {
            for history in [History::Dense, History::Some(3), History::Stalled, History::Split, History::Gap] {
                sides.push(Side { attackers, history });
            }
        }
        seqs.par_iter().for_each(|seq| {
            for side in &sides {
                let allowed = b.outcomes(&cfg, *side);
                let ways: &[u8] = if seq.len() == 1 { &[0, 1, 2, 3] } else { &[0, 1] };
                product(&vec![ways.len(); seq.len()], |w| {
                    let groups: Vec<Group> = seq
                        .iter()
                        .zip(w)
                        .map(|((s, t), w)| {
                            let l = b.edge(*s, *t);
                            (l, match ways[*w] {
                                0 => real(*side, l),
                                1 => all(From::Other),
                                2 => all(From::Padded),
                                _ => all(From::Moved),
                            })
                        })
                        .collect();
                    if groups.iter().any(|g| g.1.is_empty()) {
                        return;
                    }
                    if let Some(i) = b.play(*side, &groups, 0) {
                        b.judge(ctx, "chains", &cfg, &i, &allowed, || format!("{side:?}, links {seq:?} in ways {w:?}"));
                    }
                });
            }
        });
    });
    ctx.space("exits", || {
        // made-up exits next to votes of every set of validators
        let n = 5usize;
        let mut spec = tiny_spec();
        spec.max_seed_lookahead = Epoch::new(1);
        spec.min_per_epoch_churn_limit_electra = 20 * ETH;
        spec.churn_limit_quotient = 1 << 16;
        let vs: Vec<ValidatorInfo> = [32u64, 40, 32, 48, 64].iter().enumerate().map(|(i, x)| validator(i, x * ETH)).collect();
        let b: Board<One> = Board::new(ctx.seed, spec, vs);
        let mut jobs = vec![];
        for gone in 0u32..1 << n {
            for later in 0u32..1 << n {
                if gone & later == 0 {
                    jobs.push((gone, later));
                }
            }
        }
        jobs.par_iter().for_each(|(gone, later)| {
            for e in 11..=14u64 {
                for e2 in 11..=14u64 {
                    if (*later == 0 && e2 != 11) || (*later != 0 && e2 == e) {
                        continue;
                    }
                    let exits: BTreeMap<usize, u64> = (0..n).filter_map(|i| if gone >> i & 1 == 1 { Some((i, e)) } else { (later >> i & 1 == 1).then_some((i, e2)) }).collect();
                    // in which epochs' patches the exits are said
                    for place in 0..4u8 {
                        for seq in [vec![(0, 2)], vec![(0, 4), (4, 6)], vec![(0, 3)]] {
                            for attackers in 1u32..1 << n {
                                // those left out need not vote
                                if attackers & gone != 0 {
                                    continue;
                                }
                                let side = Side { attackers, history: History::Silent };
                                let allowed = b.outcomes(&cfg, side);
                                if !allowed.is_empty() && !ctx.thorough && seq.len() > 1 {
                                    continue;
                                }
                                let mut i = b.input();
                                let targets: Vec<u64> = seq.iter().map(|s| b.points[s.1].0 .0).collect();
                                let at: Vec<u64> = match place {
                                    0 => targets.clone(),
                                    1 => (TRUSTED..=14).collect(),
                                    2 => (TRUSTED + 1..=targets[0]).chain(targets.clone()).collect(),
                                    _ => targets.iter().map(|t| t - 1).chain(targets.clone()).collect(),
                                };
                                for t in at {
                                    i.patches.entry(Epoch::new(t)).or_insert(StatePatch { randao_mixes: BTreeMap::new(), validator_exits: BTreeMap::new() }).validator_exits = exits.iter().map(|(v, e)| (*v, Epoch::new(*e))).collect();
                                }
                                for (s, t) in &seq {
                                    let l = b.edge(*s, *t);
                                    let idx = b.world.mix_index::<One>(l.1 .0);
                                    let mix = b.world.mix(l.1 .0, idx).unwrap();
                                    i.patches.get_mut(&Epoch::new(l.1 .0)).unwrap().randao_mixes.insert(idx, verif_harness::spec::b(mix));
                                    let active: Vec<usize> = b.world.active(l.1 .0).into_iter().filter(|v| exits.get(v).is_none_or(|e| l.1 .0 < *e)).collect();
                                    if active.is_empty() {
                                        continue;
                                    }
                                    let ms = b.members(&active, l.1 .0, &mix, 0);
                                    let members = ms.iter().enumerate().filter(|m| side.attackers >> *m.1 & 1 == 1).map(|m| 1 << m.0).sum();
                                    if members > 0 {
                                        i.attestations.extend(b.claim(side, l, Claim { slot: 0, members, from: From::Own }, &active, &mix));
                                    }
                                }
                                b.judge(ctx, "exits", &cfg, &i, &allowed, || format!("exits {exits:?} said in way {place}, links {seq:?}, by {attackers:b}"));
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.space("registries", || {
        // two of five validators make the guest see whichever registry they can make up
        let n = 5usize;
        let b: Board<One> = Board::new(ctx.seed, tiny_spec(), plain(n));
        let side = Side { attackers: 0b11, history: History::Silent };
        let allowed = b.outcomes(&cfg, side);
        assert!(allowed.is_empty());
        // a world in which they are alone, or the others have left, are slashed, or have little
        let mut worlds: Vec<(String, Vec<ValidatorInfo>)> = vec![];
        let base = plain(n);
        for kept in 1..n {
            worlds.push((format!("only the first {kept}"), base[..kept].to_vec()));
        }
        for (name, f) in [
            ("left", (|v| v.exit_epoch = Epoch::new(1)) as fn(&mut ValidatorInfo)),
            ("not yet there", |v| v.activation_epoch = Epoch::new(FAR)),
            ("poor", |v| v.effective_balance = ETH),
            ("slashed", |v| v.slashed = true),
            ("the attacker's", |v| v.pubkey = key(0).public_key()),
        ] {
            let mut vs = base.clone();
            vs[2..].iter_mut().for_each(f);
            worlds.push((format!("others {name}"), vs));
        }
        let fakes: Vec<(String, Built)> = worlds
            .into_iter()
            .map(|(name, vs)| {
                let mut bs = b.built.bs.clone();
                bs.validators = vs;
                (name, bs.build())
            })
            .collect();
        let shown = |i: &mut Input<One>, reg: &BTreeMap<usize, ValidatorInfo>| {
            let l = b.edge(0, 2);
            let idx = b.world.mix_index::<One>(l.1 .0);
            let mix = b.world.mix(l.1 .0, idx).unwrap();
            i.patches.insert(Epoch::new(l.1 .0), StatePatch { randao_mixes: BTreeMap::from([(idx, verif_harness::spec::b(mix))]), validator_exits: BTreeMap::new() });
            let active: Vec<usize> = reg.iter().filter(|(_, v)| v.activation_epoch.as_u64() <= l.1 .0 && l.1 .0 < v.exit_epoch.as_u64()).map(|x| *x.0).collect();
            let ms = b.members(&active, l.1 .0, &mix, 0);
            // signed by the attackers in the others' places, too
            let variants = [From::Own, From::Padded].into_iter().flat_map(|from| (1u32..1 << ms.len().min(5)).map(move |members| Claim { slot: 0, members, from }));
            variants.filter_map(|c| b.claim(side, l, c, &active, &mix)).collect::<Vec<_>>()
        };
        // which of block, state, registry proof, keys, and the root that is trusted are of the made-up world
        for (name, f) in &fakes {
            for parts in 0u32..1 << 5 {
                let (real, fake): (Input<One>, Input<One>) = (b.input(), f.input(TRUSTED, b.points[0].0));
                let mut i = real.clone();
                if parts & 1 > 0 { i.block = fake.block.clone(); }
                if parts & 2 > 0 { i.state = fake.state.clone(); }
                if parts & 4 > 0 { i.validators = fake.validators.clone(); }
                if parts & 8 > 0 { i.keys = fake.keys.clone(); }
                if parts & 16 > 0 { i.consensus = fake.consensus.clone(); }
                let reg = f.bs.validators.iter().cloned().enumerate().collect();
                for a in shown(&mut i, &reg) {
                    i.attestations = vec![a];
                    b.judge(ctx, "registries", &cfg, &i, &allowed, || format!("{name}, parts {parts:b} made up"));
                }
            }
        }
        // of every validator: all shown, only the exit, nothing, or all of it without saying so
        product(&[5; 5], |how| {
            for length in [true, false] {
                let mut want: Vec<(u64, bool)> = vec![(3, length)];
                let mut keys = vec![];
                let mut reg = BTreeMap::new();
                for (v, h) in how.iter().enumerate() {
                    match h {
                        0 => {
                            want.extend(validator_indices(v as u64, true).into_iter().map(|g| (g, true)));
                            keys.push(b.built.bs.validators[v].pubkey.clone());
                            reg.insert(v, b.built.bs.validators[v].clone());
                        }
                        1 => want.extend(validator_indices(v as u64, false).into_iter().map(|g| (g, true))),
                        2 => {}
                        3 => want.extend(validator_indices(v as u64, true).into_iter().map(|g| (g, false))),
                        _ => want.push((validator_g(v as u64, "withdrawable_epoch"), true)),
                    }
                }
                if reg.is_empty() {
                    continue;
                }
                let mut i = b.input();
                i.validators = prove_marked(&b.built.registry, &want);
                for all_keys in [false, true] {
                    i.keys = if all_keys { b.built.bs.validators.iter().map(|v| v.pubkey.clone()).collect() } else { keys.clone() };
                    // the ones shown, as they are numbered, and as if they were numbered without the others
                    let squeezed: BTreeMap<usize, ValidatorInfo> = reg.values().cloned().enumerate().collect();
                    for r in [&reg, &squeezed] {
                        for a in shown(&mut i, r) {
                            i.attestations = vec![a];
                            b.judge(ctx, "registries", &cfg, &i, &allowed, || format!("validators shown in ways {how:?}, length {length}, all keys {all_keys}"));
                        }
                    }
                }
            }
        });
        // keys in any places, the attackers' among them
        product(&[5; 5], |ks| {
            let mut i = b.input();
            i.keys = ks.iter().map(|k| key(*k).public_key()).collect();
            for a in shown(&mut i, &b.world.registry) {
                i.attestations = vec![a];
                b.judge(ctx, "registries", &cfg, &i, &allowed, || format!("keys {ks:?}"));
            }
        });
    });
    ctx.space("mixed", || {
        // made-up registry, exits and mixes together, of validators in all conditions
        let mut spec = tiny_spec();
        spec.max_seed_lookahead = Epoch::new(1);
        spec.min_per_epoch_churn_limit_electra = 16 * ETH;
        spec.churn_limit_quotient = 1 << 16;
        let mut vs = plain(6);
        vs[2].exit_epoch = Epoch::new(TRUSTED);
        vs[3].slashed = true;
        vs[3].exit_epoch = Epoch::new(TRUSTED + 5);
        vs[4].activation_epoch = Epoch::new(TRUSTED + 3);
        let n = vs.len();
        let b: Board<One> = Board::new(ctx.seed, spec, vs);
        let l = b.edge(0, 2);
        let sides: Vec<Side> = [0b1u32, 0b1011, 0b10001, 0b100000, 0b100001, 0b100010, 0b100011, 0b101010].into_iter().map(|attackers| Side { attackers, history: History::Silent }).collect();
        let allowed: Vec<_> = sides.iter().map(|s| b.outcomes(&cfg, *s)).collect();
        let mut jobs = vec![];
        product(&[3; 6], |how| jobs.push(how.to_vec()));
        jobs.par_iter().for_each(|how| {
            let mut want: Vec<(u64, bool)> = vec![(3, true)];
            let mut keys = vec![];
            let mut reg = BTreeMap::new();
            for (v, h) in how.iter().enumerate() {
                if *h == 1 {
                    want.extend(validator_indices(v as u64, false).into_iter().map(|g| (g, true)));
                } else {
                    want.extend(validator_indices(v as u64, true).into_iter().map(|g| (g, *h == 0)));
                }
                if *h == 0 {
                    keys.push(b.built.bs.validators[v].pubkey.clone());
                    reg.insert(v, b.built.bs.validators[v].clone());
                }
            }
            let mut base = b.input();
            base.validators = prove_marked(&b.built.registry, &want);
            base.keys = keys;
            for gone in 0u32..1 << n {
                for at in [TRUSTED + 2, TRUSTED + 1] {
                    let exits: BTreeMap<usize, Epoch> = (0..n).filter(|v| gone >> v & 1 == 1).map(|v| (v, Epoch::new(at))).collect();
                    let active: Vec<usize> = reg.iter().filter(|(v, i)| i.activation_epoch.as_u64() <= l.1 .0 && l.1 .0 < i.exit_epoch.as_u64() && !exits.contains_key(*v)).map(|x| *x.0).collect();
                    if active.is_empty() || at != TRUSTED + 2 && gone.count_ones() > 2 {
                        continue;
                    }
                    for mixes in 0..2u64 {
                        let idx = b.world.mix_index::<One>(l.1 .0);
                        let mix = if mixes == 0 { b.world.mix(l.1 .0, idx).unwrap() } else { val(mixes, "made-up mix", l.1 .0) };
                        let ms = b.members(&active, l.1 .0, &mix, 0);
                        let mut i = base.clone();
                        i.patches.insert(Epoch::new(l.1 .0), StatePatch { randao_mixes: BTreeMap::from([(idx, verif_harness::spec::b(mix))]), validator_exits: exits.clone() });
                        for (side, allowed) in sides.iter().zip(&allowed) {
                            let own: u32 = ms.iter().enumerate().filter(|m| side.attackers >> *m.1 & 1 == 1).map(|m| 1 << m.0).sum();
                            for (members, from) in [(own, From::Own), (u32::MAX, From::Own), (u32::MAX, From::Padded)] {
                                if members == 0 {
                                    continue;
                                }
                                i.attestations = b.claim(*side, l, Claim { slot: 0, members, from }, &active, &mix).into_iter().collect();
                                b.judge(ctx, "mixed", &cfg, &i, allowed, || format!("{side:?}, validators shown in ways {how:?}, {gone:b} made to leave at {at}, mixes {mixes}, claims {members:b} {from:?}"));
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.space("blocks", || {
        // enough votes, but everything else said of the finalized block
        let b: Board<One> = Board::new(ctx.seed, tiny_spec(), plain(4));
        let side = Side { attackers: 0, history: History::Dense };
        let allowed = b.outcomes(&cfg, side);
        let groups = [(b.edge(0, 2), vec![Claim { slot: 0, members: 0b1111, from: From::Own }])];
        let good = b.play(side, &groups, 0).unwrap();
        for k in 0..b.points.len() {
            for g in 1u64..16 {
                for (more, marked) in [(0u64, true), (8, true), (8, false), (9, true), (12, true), (10, false), (2, true), (3, false)] {
                    let h = &b.points[k].1;
                    if node(h, g).is_none() {
                        continue;
                    }
                    let mut want = vec![(g, true)];
                    if more > 0 && node(h, more).is_some() && more != g {
                        want.push((more, marked));
                    }
                    let mut i = good.clone();
                    for only in [false, true] {
                        if only {
                            i.slots.clear();
                        }
                        i.slots.push(prove_marked(h, &want));
                        b.judge(ctx, "blocks", &cfg, &i, &allowed, || format!("slot of block {k} shown by index {g} and {more} {marked}, only {only}"));
                    }
                }
            }
            // altered: every leaf exchanged for every other, and every bit of the leaves turned
            let p = slot_proof(&b.points[k].1);
            for l in 0..p.leaves.len() {
                for bit in 0..256 {
                    let mut q = p.clone();
                    q.leaves[l][bit / 8] ^= 1 << (bit % 8);
                    let mut i = good.clone();
                    i.slots.push(q);
                    b.judge(ctx, "blocks", &cfg, &i, &allowed, || format!("bit {bit} of leaf {l} of the slot proof of block {k}"));
                }
                for m in 0..l {
                    let mut q = p.clone();
                    q.leaves.swap(l, m);
                    let mut i = good.clone();
                    i.slots.push(q);
                    b.judge(ctx, "blocks", &cfg, &i, &allowed, || format!("leaves {l} and {m} of the slot proof of block {k}"));
                }
            }
        }
        // another starting point
        for j in 0..b.points.len() {
            for f in (0..b.points.len()).map(|f| b.points[f].0).chain((8..14).map(|e| (e, b.built.block.root()))) {
                // of other states there is none to put into an input
                if f.0 >= b.points[j].0 .0 {
                    continue;
                }
                let mut i = good.clone();
                i.consensus = ConsensusState::new(cp(b.points[j].0), cp(f));
                b.judge(ctx, "blocks", &cfg, &i, &allowed, || format!("starting from point {j} and {}", f.0));
            }
        }
    });
    ctx.finish(
        "exploration",
        "a prover with the keys of any of the validators and all signatures of the others, composing inputs for the real guest program from true, foreign, moved and made-up parts, every combination of the stated families; a journal that starts from the trusted state must lie on a chain of links that enough stake really signed; non-trivial = a journal was committed",
        &["BLS is idealized: signatures can only be added up", "the prover cannot find hash collisions", "the zkVM's I/O is a stand-in that records frames and commits"],
        json!({}),
    )
}
