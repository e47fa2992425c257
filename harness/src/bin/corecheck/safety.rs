//! C27: accountable safety. Everything the real verification accepts is put against every view of Casper FFG that
//! finalizes something conflicting: at least a third of the stake must have broken a slashing condition.
use beacon_types::{AggregateSignature, Attestation, EthSpec, ForkName};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::Relaxed;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{Config, ConsensusState};

const F: u64 = 10;
/// A link by the epochs of its ends; on the verifier's branch or on the other one.
type L = (u64, u64);

/// Whether voting for both links breaks a slashing condition; `same` says whether epochs up to it are shared.
fn slashable(a: L, b: L, shared: u64) -> bool {
    let identical = a == b && a.1 <= shared;
    let double = a.1 == b.1 && !identical;
    let surround = (a.0 < b.0 && b.1 < a.1) || (b.0 < a.0 && a.1 < b.1);
    double || surround
}

/// Every minimal set of links with which Casper FFG (1- and 2-finality) finalizes something beyond `shared`.
fn views(shared: u64, horizon: u64) -> Vec<(u64, BTreeSet<L>)> {
    // all chains of justifications from F, by their end
    let mut chains: BTreeMap<u64, Vec<BTreeSet<L>>> = BTreeMap::new();
    chains.insert(F, vec![BTreeSet::new()]);
    for t in F + 1..=horizon {
        let mut here = vec![];
        for s in F..t {
            for c in &chains[&s] {
                let mut c = c.clone();
                c.insert((s, t));
                here.push(c);
            }
        }
        chains.insert(t, here);
    }
    let mut out = BTreeSet::new();
    for x in shared + 1..horizon {
        for c in &chains[&x] {
            let mut one = c.clone();
            one.insert((x, x + 1));
            out.insert((x, one));
            if x + 2 <= horizon {
                for mid in &chains[&(x + 1)] {
                    let mut two: BTreeSet<L> = c.union(mid).copied().collect();
                    two.insert((x, x + 2));
                    out.insert((x, two));
                }
            }
        }
    }
    out.into_iter().collect()
}

struct Stake {
    name: &'static str,
    weights: Vec<u64>,
    slashed: u32,
}
impl Stake {
    fn of(&self, set: u32) -> u64 {
        self.weights.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|x| x.1).sum()
    }
    /// Whether every set with two thirds of the stake shares a third of the stake with this one.
    fn strong(&self, set: u32) -> bool {
        let all = (1u32 << self.weights.len()) - 1;
        let total = self.of(all);
        (0..=all).filter(|m| self.of(*m) * 3 >= total * 2).all(|m| self.of(m & set) * 3 >= total)
    }
}

const FORMS: usize = 7;
/// Attestations for a link that `set`, and nobody else, has signed.
fn votes<E: EthSpec>(w: &World, l: L, set: u32, form: usize) -> Vec<Attestation<E>> {
    let (s, t) = (point(w, l.0), point(w, l.1));
    let honest = || w.attest::<E>(cp(s), cp(t), |i| set >> i & 1 == 1);
    let everyone = |sign: &dyn Fn(&World, &beacon_types::AttestationData, &[usize]) -> AggregateSignature| {
        // all the bits of the epoch, with a signature of another making
        let mut out: Vec<Attestation<E>> = vec![];
        for slot in t.0 * E::slots_per_epoch()..(t.0 + 1) * E::slots_per_epoch() {
            let cs = w.committees::<E>(slot).unwrap();
            let named: Vec<usize> = (0..cs.len()).collect();
            let members: Vec<usize> = cs.concat();
            if members.is_empty() {
                continue;
            }
            let data = w.data(slot, cp(s), cp(t));
            let signature = sign(w, &data, &members);
            out.push(attestation(&named, &vec![true; members.len()], data, signature));
        }
        out
    };
    let within = |m: &[usize]| m.iter().copied().filter(|i| set >> i & 1 == 1).collect::<Vec<_>>();
    match form {
        0 => honest(),
        // more bits than signers
        1 => everyone(&|w, d, m| w.sign(&within(m), &w.signing_root(d))),
        // the same aggregate again and again
        2 => (0..4).flat_map(|_| honest()).collect(),
        // one by one, and then overlapping
        3 => {
            let mut out: Vec<Attestation<E>> = vec![];
            for i in (0..w.registry.len()).filter(|i| set >> i & 1 == 1) {
                out.extend(w.attest::<E>(cp(s), cp(t), |k| k == i));
            }
            out.extend(honest());
            out
        }
        // everybody has signed, but a vote for another source
        4 => {
            let mut out = honest();
            out.extend(everyone(&|w, d, m| {
                let mut d = d.clone();
                d.source = cp((l.0 - 1, val(w.seed, "other", 0))).into();
                w.sign(m, &w.signing_root(&d))
            }));
            out
        }
        // everybody has signed, but for another chain
        5 => {
            let mut out = honest();
            out.extend(everyone(&|w, d, m| {
                let mut other = w.clone();
                other.gvr = val(w.seed, "other chain", 0);
                w.sign(m, &other.signing_root(d))
            }));
            out
        }
        // each signer's signature in place of everybody's
        _ => everyone(&|w, d, m| {
            let mine = within(m);
            let padded: Vec<usize> = (0..m.len()).filter_map(|i| mine.get(i % mine.len().max(1)).copied()).collect();
            w.sign(&padded, &w.signing_root(d))
        }),
    }
}
/// The checkpoint of an epoch; in a world with an odd seed, pairs of epochs share a block (no block in the later one's
/// first slots).
fn point(w: &World, epoch: u64) -> Cp {
    (epoch, val(w.seed, "a", if w.seed % 2 == 1 { epoch / 2 } else { epoch }))
}
fn show(seq: &[L]) -> String {
    seq.iter().map(|l| format!("{}->{}", l.0, l.1)).collect::<Vec<_>>().join(" ")
}

struct Bench<E: EthSpec> {
    world: World,
    n: usize,
    horizon: u64,
    full: BTreeMap<L, Vec<Attestation<E>>>,
}
fn bench<E: EthSpec>(seed: u64, stake: &Stake, horizon: u64, shared_blocks: bool) -> Bench<E> {
    let n = stake.weights.len();
    let mut world = World::new(seed * 2 + shared_blocks as u64, n, 0);
    world.spec.effective_balance_increment = 1;
    for (i, v) in world.registry.iter_mut() {
        v.effective_balance = stake.weights[*i];
        v.slashed = stake.slashed >> i & 1 == 1;
    }
    for e in F..=horizon {
        let c = point(&world, e);
        world.slots.insert(c.1, e * E::slots_per_epoch());
    }
    let all = (1u32 << n) - 1;
    let mut full = BTreeMap::new();
    for s in F..=horizon {
        for t in F..=horizon {
            full.insert((s, t), votes(&world, (s, t), all, 0));
        }
    }
    Bench { world, n, horizon, full }
}
/// Every run (a sequence of links) that the real verification accepts with everybody's votes, and the state it gives.
fn runs<E: EthSpec>(ctx: &Ctx, cfg: &Config, b: &Bench<E>, st: (u64, u64), max: usize) -> Vec<(Vec<L>, (u64, u64))> {
    let alphabet: Vec<L> = b.full.keys().copied().collect();
    let n = alphabet.len();
    let state = ConsensusState::new(cp(point(&b.world, st.0)), cp(point(&b.world, st.1)));
    let mut out = vec![];
    for len in 1..=max {
        let found: Vec<_> = (0..n.pow(len as u32))
            .into_par_iter()
            .filter_map(|x| {
                let mut y = x;
                let seq: Vec<L> = (0..len).map(|_| { let r = alphabet[y % n]; y /= n; r }).collect();
                // the same link twice in a row is one link
                if seq.windows(2).any(|w| w[0] == w[1]) {
                    return None;
                }
                let atts: Vec<&Attestation<E>> = seq.iter().flat_map(|l| b.full[l].iter()).collect();
                let (got, _) = run(cfg, &b.world, &state, &atts);
                ctx.eval(got.is_some());
                let (s, _) = got?;
                let (j, f) = (un(s.current_justified_checkpoint()), un(s.finalized_checkpoint()));
                Some((seq, (j.0, f.0)))
            })
            .collect();
        out.extend(found);
    }
    out
}
/// For a run: which of its links have strong support, over everything that is accepted.
fn masks<E: EthSpec>(ctx: &Ctx, cfg: &Config, b: &Bench<E>, stake: &Stake, st: (u64, u64), seq: &[L], forms: bool) -> BTreeSet<u32> {
    let state = ConsensusState::new(cp(point(&b.world, st.0)), cp(point(&b.world, st.1)));
    let sets = 1usize << b.n;
    let k = seq.len();
    let made: Vec<Vec<Vec<Vec<Attestation<E>>>>> =
        seq.iter().map(|l| (0..if forms { FORMS } else { 1 }).map(|f| (0..sets).map(|s| votes(&b.world, *l, s as u32, f)).collect()).collect()).collect();
    let strong: Vec<bool> = (0..sets).map(|s| stake.strong(s as u32)).collect();
    // every form on one of the links at a time, honest aggregates on the others
    let mut shapes: BTreeSet<Vec<usize>> = BTreeSet::from([vec![0; k]]);
    if forms {
        for i in 0..k {
            for f in 1..FORMS {
                let mut v = vec![0; k];
                v[i] = f;
                shapes.insert(v);
            }
        }
    }
    let (made, strong, state) = (&made, &strong, &state);
    shapes
        .par_iter()
        .flat_map(|shape| {
            (0..sets.pow(k as u32)).into_par_iter().filter_map(move |x| {
                let mut y = x;
                let v: Vec<usize> = (0..k).map(|_| { let r = y % sets; y /= sets; r }).collect();
                let atts: Vec<&Attestation<E>> = (0..k).flat_map(|i| made[i][shape[i]][v[i]].iter()).collect();
                // a link without any attestation is not in the input at all
                if (0..k).any(|i| made[i][shape[i]][v[i]].is_empty()) {
                    return None;
                }
                let (got, _) = run(cfg, &b.world, state, &atts);
                ctx.eval(got.is_some());
                got?;
                Some((0..k).map(|i| (strong[v[i]] as u32) << i).sum())
            })
        })
        .collect()
}

fn explore<E: EthSpec>(ctx: &Ctx, space: &str, cfg: &Config, stake: &Stake, horizon: u64, max: usize, forms: bool) {
    for shared_blocks in [false, true] {
        explore_one::<E>(ctx, space, cfg, stake, bench(ctx.seed, stake, horizon, shared_blocks), max, forms);
    }
}
fn explore_one<E: EthSpec>(ctx: &Ctx, space: &str, cfg: &Config, stake: &Stake, b: Bench<E>, max: usize, forms: bool) {
    let horizon = b.horizon;
    // from (justified, finalized): everything that is accepted, with the weakest support it is accepted with
    let mut accepted: BTreeMap<(u64, u64), Vec<(Vec<L>, (u64, u64), BTreeSet<u32>)>> = BTreeMap::new();
    let mut todo: Vec<(u64, u64)> = (F + 1..horizon).map(|j| (j, F)).collect();
    let starts = todo.clone();
    while let Some(st) = todo.pop() {
        if accepted.contains_key(&st) || ctx.stopped() {
            continue;
        }
        let found: Vec<_> = runs(ctx, cfg, &b, st, max)
            .into_iter()
            .map(|(seq, end)| {
                let m = masks(ctx, cfg, &b, stake, st, &seq, forms && seq.len() <= 2);
                (seq, end, m)
            })
            .collect();
        for x in &found {
            if x.1 .0 < horizon {
                todo.push(x.1);
            }
        }
        accepted.insert(st, found);
    }
    // histories of a verifier: the link that justified the start, and one run after another; every link with the mark
    // whether its support is strong in the history at hand
    let mut histories: BTreeSet<(BTreeSet<(L, bool)>, u64)> = BTreeSet::new();
    for st in starts {
        let first: BTreeSet<(L, bool)> = [((F, st.0), true)].into();
        let mut level = BTreeSet::from([(first, st)]);
        for _ in 0..3 {
            let mut next = BTreeSet::new();
            for (have, st) in &level {
                for (seq, end, ms) in accepted.get(st).into_iter().flatten() {
                    for m in ms {
                        let mut have = have.clone();
                        have.extend(seq.iter().enumerate().map(|(i, l)| (*l, m >> i & 1 == 1)));
                        histories.insert((have.clone(), end.1));
                        next.insert((have, *end));
                    }
                }
            }
            level = next;
        }
    }
    let histories: Vec<_> = histories.into_iter().collect();
    ctx.transitions.fetch_add(histories.len() as u64, Relaxed);
    for shared in F..horizon {
        let views = views(shared, horizon + 1);
        histories.par_iter().filter(|h| h.1 > shared).for_each(|(have, fin)| {
            for (x, view) in &views {
                ctx.tick();
                let caught = have.iter().any(|(l, strong)| *strong && view.iter().any(|m| slashable(*l, *m, shared)));
                if !caught {
                    ctx.violation(space, "unaccountable", || {
                        format!(
                            "stake {:?} ({}), threshold {}/{}: a verifier that starts from finalized {F} accepts the links {} and finalizes {fin}, while a chain that parts \
                             after epoch {shared} finalizes its own checkpoint of epoch {x} with the links {}, and no third of the stake has broken a slashing condition \
                             (links not backed by two thirds: {})",
                            stake.weights,
                            stake.name,
                            cfg.justification_threshold_factor,
                            cfg.justification_threshold_quotient,
                            show(&have.iter().map(|h| h.0).collect::<Vec<_>>()),
                            show(&view.iter().copied().collect::<Vec<_>>()),
                            show(&have.iter().filter(|h| !h.1).map(|h| h.0).collect::<Vec<_>>()),
                        )
                    });
                    return;
                }
            }
        });
        // and two verifiers against each other
        histories.par_iter().filter(|h| h.1 > shared).for_each(|(a, fa)| {
            for (c, fc) in histories.iter().filter(|h| h.1 > shared) {
                ctx.tick();
                let caught = a.iter().any(|(l, s)| *s && c.iter().any(|(m, r)| *r && slashable(*l, *m, shared)));
                if !caught {
                    ctx.violation(space, "split", || {
                        format!(
                            "stake {:?} ({}): two verifiers finalize {fa} and {fc} on chains that part after epoch {shared}, with the links {} and {}, and no third of the stake has broken a slashing condition",
                            stake.weights, stake.name,
                            show(&a.iter().map(|h| h.0).collect::<Vec<_>>()), show(&c.iter().map(|h| h.0).collect::<Vec<_>>()),
                        )
                    });
                    return;
                }
            }
        });
    }
    ctx.sample(|| json!({"stake": stake.weights, "histories": histories.len(), "example": histories.last().map(|h| show(&h.0.iter().map(|x| x.0).collect::<Vec<_>>()))}));
}

pub fn c27(ctx: &'static Ctx) -> ! {
    let cfg = |limit, a, q| config(ForkName::Electra, ForkName::Fulu, limit, a, q);
    let s = |name, weights: &[u64], slashed| Stake { name, weights: weights.to_vec(), slashed };
    ctx.space("links", || {
        // which runs are accepted at all: every sequence of links up to three, from every state reached
        for limit in [4, 6] {
            explore::<One>(ctx, "links", &cfg(limit, 2, 3), &s("one voter", &[1], 0), 10 + ctx.pick(5, 6), 3, false);
        }
        for limit in [4, 6, 9] {
            explore::<Two>(ctx, "links", &cfg(limit, 70, 100), &s("two voters", &[3, 2], 0), 10 + ctx.pick(7, 9), 2, false);
        }
    });
    ctx.space("support", || {
        // the least support with which they are accepted: every voter set on every link
        let stakes = [
            s("equal", &[1, 1, 1, 1, 1, 1], 0),
            s("nearly equal", &[31, 32, 32, 32, 32, 33], 0),
            s("skewed", &[8, 5, 4, 2, 1, 1], 0),
            s("one giant", &[20, 3, 3, 2, 1, 1], 0),
            s("some slashed", &[4, 4, 4, 4, 4, 4], 0b10010),
        ];
        for stake in &stakes[..ctx.pick(4, 5)] {
            for (a, q) in [(2, 3), (70, 100), (85, 100), (1, 2), (0, 1)] {
                explore::<Two>(ctx, "support", &cfg(4, a, q), stake, ctx.pick(14, 16), 2, ctx.thorough || stake.name != "nearly equal");
            }
        }
        explore::<Two>(ctx, "support", &cfg(4, 2, 3), &stakes[4], 13, 2, true);
    });
    ctx.space("long-runs", || {
        // three links in one run
        for w in [&[1u64, 1, 1][..], &[1, 1, 1, 1], &[3, 2, 2, 1], &[2, 2, 2, 1, 1]][..ctx.pick(3, 4)].iter() {
            for (a, q) in [(2, 3), (85, 100), (1, 2)] {
                explore::<One>(ctx, "long-runs", &cfg(5, a, q), &s("few voters", w, 0), ctx.pick(15, 16), 3, true);
            }
        }
    });
    ctx.finish(
        "exploration",
        "every sequence of links up to the length from every state reached, every set of voters on every link and every listed way of claiming more support, each decided by the \
         real verify; each history of accepted runs against every minimal Casper FFG view (1- and 2-finality) and every other history that finalizes on a branch parting after any \
         epoch; non-trivial = accepted",
        &["idealized BLS and SSZ stand-ins", "one validator set for the whole history", "a view of Casper FFG has two thirds of the stake behind every link"],
        json!({"histories": ctx.transitions.load(Relaxed)}),
    )
}
