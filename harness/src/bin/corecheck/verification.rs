//! C01, C02, C03, C06: `z_core::verify` against the specification's verdict.
use beacon_types::{AggregateSignature, Attestation, EthSpec, ForkName};
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{Config, ConsensusState, Epoch};

fn short(c: Cp) -> String {
    format!("({},{})", c.0, &hex(&c.1)[..4])
}
fn judge<E: EthSpec>(ctx: &Ctx, space: &str, cfg: &Config, w: &World, s: &ConsensusState, atts: &[&Attestation<E>], what: impl Fn() -> String) -> bool {
    let want = oracle(cfg, w, s, atts);
    let (got, why) = run(cfg, w, s, atts);
    let ok = agrees(&want, &got);
    ctx.eval(!matches!(want, Verdict::Reject(_)));
    if !ok {
        let kind = match (&want, &got) {
            (Verdict::Reject(_), Some(_)) => "wrongly-accepted",
            (_, None) => "wrongly-rejected",
            _ => "wrong-result",
        };
        ctx.violation(space, kind, || format!("{}: expected {want:?}, got {got:?} {why}", what()));
    }
    matches!(want, Verdict::Accept(..))
}

/// A world whose links can all be attested, and the attestations of each link.
struct Links<E: EthSpec> {
    world: World,
    cps: Vec<Cp>,
    atts: BTreeMap<(Cp, Cp), Vec<Attestation<E>>>,
}
fn links<E: EthSpec>(seed: u64, n: usize, cps: Vec<Cp>) -> Links<E> {
    let mut world = World::new(seed, n, 32_000_000_000);
    for c in &cps {
        world.slots.insert(c.1, c.0 * E::slots_per_epoch() - (c.0 % 3).min(c.0));
    }
    let mut atts = BTreeMap::new();
    for s in &cps {
        for t in &cps {
            atts.insert((*s, *t), world.attest::<E>(cp(*s), cp(*t), |_| true));
        }
    }
    Links { world, cps, atts }
}
fn state(justified: Cp, finalized: Cp) -> ConsensusState {
    ConsensusState::new(cp(justified), cp(finalized))
}

pub fn c01(ctx: &'static Ctx) -> ! {
    let v = |i| val(ctx.seed, "root", i);
    let f = (10, v(0));
    let universe: Vec<Cp> = vec![f, (11, v(1)), (11, v(2)), (12, v(3)), (12, v(4)), (13, v(5)), (14, v(6)), (15, v(7)), (9, v(8))];
    let l = links::<Two>(ctx.seed, 8, universe.clone());
    let cfg = default_config();
    let sequences = |space: &str, l: &Links<Two>, st: &ConsensusState, alphabet: &[(Cp, Cp)], len: usize| {
        let n = alphabet.len();
        (0..(n.pow(len as u32))).into_par_iter().for_each(|x| {
            if ctx.stopped() {
                return;
            }
            let mut y = x;
            let seq: Vec<(Cp, Cp)> = (0..len).map(|_| { let r = alphabet[y % n]; y /= n; r }).collect();
            let atts: Vec<&Attestation<Two>> = seq.iter().flat_map(|k| l.atts[k].iter()).collect();
            let show = || format!("state {} finalized {}, links {:?}", short(un(st.current_justified_checkpoint())), short(un(st.finalized_checkpoint())),
                seq.iter().map(|(a, b)| format!("{}->{}", short(*a), short(*b))).collect::<Vec<_>>());
            if judge(ctx, space, &cfg, &l.world, st, &atts, show) {
                ctx.sample(|| json!(show()));
            }
        });
    };
    let all: Vec<(Cp, Cp)> = l.atts.keys().copied().collect();
    let starts = [((11, v(1)), f), ((12, v(3)), f), ((14, v(6)), f), ((12, v(4)), (11, v(2))), ((10, v(0)), (9, v(8)))];
    ctx.space("all-short-sequences", || {
        for (j, fin) in starts {
            for len in 0..=2 {
                sequences("all-short-sequences", &l, &state(j, fin), &all, len);
            }
        }
    });
    ctx.space("three-links", || {
        // every sequence of three links among the checkpoints (forward links in the quick tier, all in the thorough one)
        let fwd: Vec<(Cp, Cp)> = all.iter().copied().filter(|(s, t)| ctx.thorough || s.0 < t.0).collect();
        for (j, fin) in &starts[..ctx.pick(2, 5)] {
            sequences("three-links", &l, &state(*j, *fin), &fwd, 3);
        }
    });
    ctx.space("long-chains", || {
        // forward links out of the trusted chain, up to the length at which the lookahead limit ends every chain
        let fwd: Vec<(Cp, Cp)> = all.iter().copied().filter(|(s, t)| s.0 < t.0 && s.0 >= 11 && [1, 3, 5, 6].iter().any(|i| s.1 == v(*i))).collect();
        for len in 3..=ctx.pick(4, 5) {
            sequences("long-chains", &l, &state((11, v(1)), f), &fwd, len);
        }
    });
    ctx.space("genesis", || {
        // from the all-zero state
        let z = (0, [0u8; 32]);
        let g = links::<Two>(ctx.seed, 8, vec![z, (1, v(1)), (1, v(2)), (2, v(3)), (3, v(4)), (4, v(5))]);
        let all: Vec<(Cp, Cp)> = g.atts.keys().copied().collect();
        for st in [ConsensusState::default(), state((1, v(1)), z), state((2, v(3)), z), state((2, v(3)), (1, v(1)))] {
            for len in 0..=3 {
                sequences("genesis", &g, &st, &all, len);
            }
        }
    });
    ctx.space("interleaved-votes", || {
        // each of two links is supported by several attestations; every order of every sub-multiset
        let (j, a, b2) = ((11, v(1)), (13, v(5)), (14, v(6)));
        let mut letters = vec![];
        for (s, t) in [(j, a), (a, b2), (j, (12, v(3)))] {
            for att in &l.atts[&(s, t)] {
                letters.push(att);
            }
        }
        // with eight voters in two slots, a link needs both of its attestations
        let n = letters.len();
        for len in 0..=ctx.pick(5, 7) {
            (0..n.pow(len)).into_par_iter().for_each(|x| {
                let mut y = x;
                let seq: Vec<usize> = (0..len).map(|_| { let r = y % n; y /= n; r }).collect();
                let atts: Vec<&Attestation<Two>> = seq.iter().map(|i| letters[*i]).collect();
                judge(ctx, "interleaved-votes", &cfg, &l.world, &state(j, f), &atts, || format!("attestations {seq:?} of links 11->13, 13->14, 11->12 (two each)"));
            });
        }
    });
    ctx.space("shared-blocks", || {
        // checkpoints of different epochs with the same block (no block in the first slots of the later epoch)
        let cps: Vec<Cp> = vec![f, (11, v(0)), (11, v(1)), (12, v(0)), (12, v(1)), (13, v(1)), (13, v(2)), (14, v(2))];
        let g = links::<Two>(ctx.seed, 8, cps);
        let all: Vec<(Cp, Cp)> = g.atts.keys().copied().collect();
        let fwd: Vec<(Cp, Cp)> = all.iter().copied().filter(|(s, t)| ctx.thorough || s.0 < t.0).collect();
        for (j, fin) in [((11, v(1)), f), ((11, v(0)), f), ((12, v(0)), (11, v(0))), ((12, v(1)), f)] {
            for len in 0..=2 {
                sequences("shared-blocks", &g, &state(j, fin), &all, len);
            }
            sequences("shared-blocks", &g, &state(j, fin), &fwd, 3);
        }
    });
    ctx.space("extreme-epochs", || {
        let e = u64::MAX / 2 - 20;
        let far: Vec<Cp> = vec![(e, v(0)), (e + 1, v(1)), (e + 2, v(2)), (e + 3, v(3))];
        let g = links::<Two>(ctx.seed, 6, far.clone());
        let all: Vec<(Cp, Cp)> = g.atts.keys().copied().collect();
        for len in 0..=2 {
            sequences("extreme-epochs", &g, &state(far[1], far[0]), &all, len);
        }
    });
    ctx.space("wide-epochs", || {
        // epochs which are equal, or follow each other, only if cut to fewer bits
        let wide = config(ForkName::Electra, ForkName::Fulu, u64::MAX, 2, 3);
        for k in [8u32, 16, 32, 62] {
            let o = 1u64 << k;
            let g = links::<Two>(ctx.seed, 4, vec![(10, v(0)), (11, v(1)), (12, v(2)), (11 + o, v(3)), (12 + o, v(4)), (13 + o, v(5))]);
            let all: Vec<(Cp, Cp)> = g.atts.keys().copied().collect();
            for (j, fin) in [((11, v(1)), (10, v(0))), ((11 + o, v(3)), (10, v(0))), ((12 + o, v(4)), (11 + o, v(3)))] {
                for len in 1..=2u32 {
                    (0..all.len().pow(len)).into_par_iter().for_each(|x| {
                        let mut y = x;
                        let seq: Vec<(Cp, Cp)> = (0..len).map(|_| { let r = all[y % all.len()]; y /= all.len(); r }).collect();
                        let atts: Vec<&Attestation<Two>> = seq.iter().flat_map(|k| g.atts[k].iter()).collect();
                        judge(ctx, "wide-epochs", &wide, &g.world, &state(j, fin), &atts, || format!("justified {}, finalized {}, links {:?}", short(j), short(fin), seq.iter().map(|(a, b)| format!("{}->{}", short(*a), short(*b))).collect::<Vec<_>>()));
                    });
                }
            }
        }
    });
    ctx.space("finalized-block", || {
        // the slot of the finalized block is the one recorded for its root, and unknown blocks are refused
        let mut w = l.world.clone();
        let (j, t) = ((11, v(1)), (12, v(3)));
        let atts: Vec<_> = l.atts[&(j, t)].iter().collect();
        for slot in [Some(0), Some(21), Some(22), Some(23), Some(u64::MAX), None] {
            w.slots.clear();
            for (i, c) in l.cps.iter().enumerate() {
                if c.1 != j.1 {
                    w.slots.insert(c.1, 1000 + i as u64);
                }
            }
            if let Some(s) = slot {
                w.slots.insert(j.1, s);
            }
            judge(ctx, "finalized-block", &cfg, &w, &state(j, f), &atts, || format!("finalized block at {slot:?}"));
        }
    });
    crate::guestpath::chains(ctx);
    ctx.finish(
        "exploration",
        "every sequence of links up to the length over the stated checkpoints, from each start state; non-trivial = the sequence is accepted",
        &["idealized BLS and SSZ stand-ins"],
        json!({"checkpoints": universe.len(), "max_links": ctx.pick(4, 5)}),
    )
}

pub fn c02(ctx: &'static Ctx) -> ! {
    let v = |i| val(ctx.seed, "root", i);
    let (f, j, t) = ((10, v(0)), (11, v(1)), (12, v(2)));
    let st = state(j, f);
    let fixed = |n: usize, inc: u64| {
        let mut w = World::new(ctx.seed, n, 0);
        w.spec.effective_balance_increment = inc;
        w.slots.insert(j.1, 22);
        w
    };
    let voters = |w: &World, set: u32| w.attest::<One>(cp(j), cp(t), |i| set >> i & 1 == 1);
    let with = |w: &World, balances: &[u64], slashed: u32| {
        let mut w = w.clone();
        for (i, v) in w.registry.iter_mut() {
            v.effective_balance = balances[*i];
            v.slashed = slashed >> i & 1 == 1;
        }
        w
    };
    let limits: Vec<(u64, u64)> = vec![(85, 100), (70, 100), (2, 3), (67, 100), (1, 1), (1, 2), (0, 1), (3, 2), (u64::MAX, u64::MAX), (u64::MAX - 1, u64::MAX), (1, 0), (0, 0)];
    let cfg = |(a, q): (u64, u64)| config(ForkName::Electra, ForkName::Fulu, 4, a, q);
    let show = |w: &World, set: u32, l: (u64, u64)| format!("threshold {}/{}, voters {set:b}, balances {:?}", l.0, l.1, w.registry.values().map(|v| (v.effective_balance, v.slashed)).collect::<Vec<_>>());
    ctx.space("exact-threshold", || {
        // two voters and a non-voter / all pairs of voting and non-voting balance
        let max = ctx.pick(120u64, 400);
        let w0 = fixed(2, 1);
        let atts = voters(&w0, 1);
        let refs: Vec<_> = atts.iter().collect();
        (0..=max).into_par_iter().for_each(|a| {
            for c in 0..=max {
                let w = with(&w0, &[a, c], 0);
                for l in &limits[..6] {
                    judge(ctx, "exact-threshold", &cfg(*l), &w, &st, &refs, || show(&w, 1, *l));
                }
            }
        });
        // around the boundary for large balances
        for total_scale in [1u64 << 20, 1 << 32, 1 << 40, 1 << 52, 1_000_000_000 * 34_000_000] {
            for l in &limits[..4] {
                let vote = (total_scale as u128 * l.0 as u128).div_ceil(l.1 as u128) as u64;
                for d in -3i64..=3 {
                    let vote = (vote as i64 + d) as u64;
                    let w = with(&w0, &[vote, total_scale - vote], 0);
                    judge(ctx, "exact-threshold", &cfg(*l), &w, &st, &refs, || show(&w, 1, *l));
                }
            }
        }
    });
    ctx.space("big-balances", || {
        let m = u64::MAX;
        let bal = [0, 1, 31, 32, 33, 1 << 31, 1 << 32, 1 << 62, m / 3, m / 3 + 1, m / 2, m / 2 + 1, m - 1, m];
        let w0 = fixed(3, 32);
        let atts: Vec<Vec<_>> = (0..8).map(|s| voters(&w0, s)).collect();
        bal.par_iter().for_each(|a| {
            for x in bal {
                for y in bal {
                    for slashed in [0, 1, 6] {
                        let w = with(&w0, &[*a, x, y], slashed);
                        for set in 1..8u32 {
                            for l in &limits {
                                judge(ctx, "big-balances", &cfg(*l), &w, &st, &atts[set as usize].iter().collect::<Vec<_>>(), || show(&w, set, *l));
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.space("slashed-and-inactive", || {
        // every validator slashed or not, voting or not, active or not at the target epoch (outsiders cannot vote)
        let kinds = 6; // exit/activation around the target epoch
        let n = 4;
        let w0 = fixed(n, 1);
        let radix: Vec<usize> = vec![kinds; n];
        let mut all = vec![];
        product(&radix, |k| all.push(k.to_vec()));
        all.par_iter().for_each(|k| {
            for slashed in 0..1u32 << n {
                let mut w = with(&w0, &[10, 20, 30, 25], slashed);
                for (i, v) in w.registry.iter_mut() {
                    let (a, e) = [(0, FAR), (12, FAR), (13, FAR), (0, 12), (0, 13), (12, 12)][k[*i]];
                    v.activation_epoch = Epoch::new(a);
                    v.exit_epoch = Epoch::new(e);
                }
                for set in 1..1u32 << n {
                    let atts = voters(&w, set);
                    judge(ctx, "slashed-and-inactive", &cfg((2, 3)), &w, &st, &atts.iter().collect::<Vec<_>>(), || format!("{} life-cycle {k:?}", show(&w, set, (2, 3))));
                }
            }
        });
    });
    ctx.space("overlapping-aggregates", || {
        // every sequence of voter sets: counted once each, whatever the overlap
        let n = 4usize;
        let w0 = fixed(n, 1);
        let per: Vec<Vec<Attestation<One>>> = (0..1 << n).map(|s| voters(&w0, s)).collect();
        for balances in [[1, 1, 1, 1], [5, 7, 11, 13], [100, 1, 1, 1], [17, 17, 17, 49]] {
            let w = with(&w0, &balances, 0);
            let ws = with(&w0, &balances, 0b0101);
            for len in 1..=ctx.pick(3u32, 4) {
                (0..15usize.pow(len)).into_par_iter().for_each(|x| {
                    let mut y = x;
                    let sets: Vec<usize> = (0..len).map(|_| { let r = y % 15 + 1; y /= 15; r }).collect();
                    let atts: Vec<_> = sets.iter().flat_map(|s| per[*s].iter()).collect();
                    for (w, l) in [(&w, (2, 3)), (&w, (85, 100)), (&ws, (2, 3))] {
                        judge(ctx, "overlapping-aggregates", &cfg(l), w, &st, &atts, || format!("{} aggregates {sets:?}", show(w, 0, l)));
                    }
                });
            }
        }
    });
    ctx.space("votes-per-link", || {
        // each link of a chain has its own voters: every triple of voter sets, with checkpoints that share blocks or do not
        let n = 4usize;
        let mut w0 = fixed(n, 1);
        w0.slots.insert(v(2), 24);
        w0.slots.insert(v(3), 26);
        for blocks in [[1, 2, 3, 4], [1, 1, 1, 1], [1, 2, 2, 2], [1, 2, 2, 3], [1, 1, 2, 2]] {
            let c: Vec<Cp> = [11, 13, 15, 16].iter().zip(blocks).map(|(e, r)| (*e, v(r))).collect();
            let mut wide = w0.clone();
            wide.slots.insert(v(1), 22);
            let per: Vec<Vec<Vec<Attestation<One>>>> =
                (0..3).map(|k| (0..1usize << n).map(|s| w0.attest::<One>(cp(c[k]), cp(c[k + 1]), |i| s >> i & 1 == 1)).collect()).collect();
            let st = state(c[0], f);
            for balances in [[1, 1, 1, 1], [17, 17, 17, 49]] {
                let w = with(&wide, &balances, 0);
                (0..1usize << (3 * n)).into_par_iter().for_each(|x| {
                    let sets: Vec<usize> = (0..3).map(|k| x >> (k * n) & 15).collect();
                    let atts: Vec<_> = (0..3).flat_map(|k| per[k][sets[k]].iter()).collect();
                    for l in [(2, 3), (85, 100)] {
                        judge(ctx, "votes-per-link", &config(ForkName::Electra, ForkName::Fulu, 6, l.0, l.1), &w, &st, &atts, || {
                            format!("{} links {:?} with voters {sets:?}", show(&w, 0, l), c.iter().map(|c| short(*c)).collect::<Vec<_>>())
                        });
                    }
                });
            }
        }
    });
    ctx.space("many-attestations", || {
        // one attestation for each vote: every one counts, once, however many there are
        for n in [130usize, 300, ctx.pick(520, 2000)] {
            let mut w = fixed(n, 1);
            w.spec.target_committee_size = n / 16 + 1;
            for (i, v) in w.registry.iter_mut() {
                v.effective_balance = 10 + (*i % 3) as u64;
            }
            let mut single = vec![];
            for slot in [24u64, 25] {
                for (c, members) in w.committees::<Two>(slot).unwrap().iter().enumerate() {
                    for k in 0..members.len() {
                        let data = w.data(slot, cp(j), cp(t));
                        let sig = w.sign(&members[k..k + 1], &w.signing_root(&data));
                        single.push(attestation::<Two>(&[c], &(0..members.len()).map(|x| x == k).collect::<Vec<_>>(), data, sig));
                    }
                }
            }
            assert_eq!(single.len(), n);
            let need = n * 2 / 3;
            let wanted: Vec<usize> = (0..n).filter(|k| *k < 3 || *k + 3 > n || k.abs_diff(need) < 12 || k % 64 < 2).chain([n]).collect();
            wanted.into_par_iter().for_each(|k| {
                for (name, list) in [
                    ("the first", single[..k].iter().collect::<Vec<_>>()),
                    ("the last, backwards,", single[n - k..].iter().rev().collect()),
                    ("the first repeated and the last", single[..n - k].iter().chain(&single[..n - k]).chain(&single[n - k..]).collect()),
                    ("only one, repeated,", single[..1].iter().cycle().take(k).collect()),
                ] {
                    judge(ctx, "many-attestations", &cfg((2, 3)), &w, &st, &list, || format!("{n} validators, {name} {k} single votes"));
                }
            });
        }
    });
    ctx.space("several-slots", || {
        // votes spread over the slots and committees of an epoch add up
        let mut w = World::new(ctx.seed, 8, 10);
        w.spec.effective_balance_increment = 1;
        w.spec.target_committee_size = 2;
        w.slots.insert(j.1, 22);
        for (i, v) in w.registry.iter_mut() {
            v.effective_balance = 10 + *i as u64;
        }
        (1u32..256).into_par_iter().for_each(|set| {
            let atts = w.attest::<Two>(cp(j), cp(t), |i| set >> i & 1 == 1);
            for l in &limits[..4] {
                judge(ctx, "several-slots", &cfg(*l), &w, &st, &atts.iter().collect::<Vec<_>>(), || show(&w, set, *l));
            }
        });
    });
    crate::guestpath::balances(ctx);
    ctx.finish(
        "exploration",
        "every balance / slashed / activity / voter-set / threshold combination of the stated domains, each decided by verify and by 128-bit arithmetic; non-trivial = accepted",
        &["idealized BLS and SSZ stand-ins"],
        json!({"thresholds": limits}),
    )
}

pub fn c03(ctx: &'static Ctx) -> ! {
    let v = |i| val(ctx.seed, "root", i);
    let (f, j, t) = ((10, v(0)), (11, v(1)), (12, v(2)));
    let st = state(j, f);
    // 16 validators, 2 slots, 2 committees per slot of 4
    let mut w = World::new(ctx.seed, 16, 32_000_000_000);
    w.slots.insert(j.1, 22);
    w.spec.fulu_fork_epoch = Some(Epoch::new(12));
    let cfg = default_config();
    let honest = w.attest::<Two>(cp(j), cp(t), |_| true);
    let spe = 2u64;
    let slot0 = t.0 * spe;
    let cs = w.committees::<Two>(slot0).unwrap();
    // an attestation that the others do not need, so that only its own validity decides
    let run = |space: &str, att: &Attestation<Two>, first: bool, what: &dyn Fn() -> String| {
        let mut atts: Vec<_> = honest.iter().collect();
        if first {
            atts.insert(0, att)
        } else {
            atts.push(att)
        }
        judge(ctx, space, &cfg, &w, &st, &atts, what);
    };
    let alone = |space: &str, w: &World, att: &Attestation<Two>, what: &dyn Fn() -> String| {
        // and one on which the threshold depends
        let mut atts: Vec<_> = honest[1..].iter().collect();
        atts.push(att);
        judge(ctx, space, &cfg, w, &st, &atts, what);
    };
    ctx.space("committees-and-bits", || {
        // every set of named committees (existing or not), every length and content of the aggregation bits
        for named in 0u32..16 {
            let list: Vec<usize> = (0..4).filter(|c| named >> c & 1 == 1).collect();
            let members: Vec<usize> = list.iter().filter_map(|c| cs.get(*c)).flatten().copied().collect();
            for len in 0..=(members.len() + 2).max(9) {
                (0u32..1 << len).into_par_iter().for_each(|set| {
                    if len > 9 && set % 7 != 0 && !ctx.thorough {
                        return;
                    }
                    let bits: Vec<bool> = (0..len).map(|i| set >> i & 1 == 1).collect();
                    let signers: Vec<usize> = members.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
                    let data = w.data(slot0, cp(j), cp(t));
                    let sig = w.sign(&signers, &w.signing_root(&data));
                    let att = attestation::<Two>(&list, &bits, data, sig);
                    run("committees-and-bits", &att, set % 2 == 0, &|| format!("committees {list:?} bits {bits:?}, signed by those set"));
                });
            }
        }
    });
    ctx.space("slot-and-index", || {
        // slots which are the right ones, or those of the right epoch, only if cut to fewer bits
        let wide = (8..64).flat_map(|k| (slot0..slot0 + 2).map(move |s| s + (1u64 << k)));
        for slot in (0..8).chain(slot0 - 6..slot0 + 8).chain([u64::MAX - 1, u64::MAX]).chain(wide) {
            for index in [0, 1, 2, 3, 1 << 8, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX] {
                for claimed in [slot0, slot0 + 1, slot] {
                    // the committee that is signed for may be the one of another slot
                    let Some(cs) = w.committees::<Two>(claimed) else { continue };
                    for c in 0..cs.len() {
                        let mut data = w.data(slot, cp(j), cp(t));
                        data.index = index;
                        let sig = w.sign(&cs[c], &w.signing_root(&data));
                        let att = attestation::<Two>(&[c], &vec![true; cs[c].len()], data, sig);
                        run("slot-and-index", &att, index == 0, &|| format!("slot {slot} index {index}, signed by committee {c} of slot {claimed}"));
                    }
                }
            }
        }
    });
    ctx.space("signers", || {
        // every claimed voter set of a committee against every signer multiset that differs by one, and many others
        let c = &cs[1];
        let outsider = (0..16).find(|i| !cs.concat().contains(i)).unwrap();
        (1u32..16).into_par_iter().for_each(|claim| {
            let bits: Vec<bool> = (0..4).map(|i| claim >> i & 1 == 1).collect();
            let data = w.data(slot0, cp(j), cp(t));
            let root = w.signing_root(&data);
            for by in 0u32..16 {
                let base: Vec<usize> = (0..4).filter(|i| by >> i & 1 == 1).map(|i| c[i]).collect();
                let mut variants = vec![base.clone()];
                for extra in [c[0], c[1], c[2], c[3], cs[0][0], outsider] {
                    let mut x = base.clone();
                    x.push(extra);
                    variants.push(x);
                }
                for signers in variants {
                    let att = attestation::<Two>(&[1], &bits, data.clone(), w.sign(&signers, &root));
                    run("signers", &att, claim & 1 == 0, &|| format!("votes of {bits:?} signed by {signers:?} (committee {c:?})"));
                }
            }
            for sig in [AggregateSignature::empty(), AggregateSignature::infinity()] {
                let att = attestation::<Two>(&[1], &bits, data.clone(), sig.clone());
                run("signers", &att, false, &|| format!("votes of {bits:?} with signature {sig:?}"));
            }
        });
        // committees with no named member / no committee at all
        for (named, len) in [(vec![], 0), (vec![], 1), (vec![0], 0), (vec![1], 0)] {
            for sig in [AggregateSignature::empty(), AggregateSignature::infinity()] {
                let att = attestation::<Two>(&named, &vec![false; len], w.data(slot0, cp(j), cp(t)), sig);
                run("signers", &att, false, &|| format!("committees {named:?}, {len} bits, no signer"));
            }
        }
    });
    ctx.space("message-and-domain", || {
        // what was signed may differ from what is claimed in every field, and in the domain
        let c = &cs[0];
        let data = w.data(slot0, cp(j), cp(t));
        let mut msgs = vec![("same", data.clone())];
        let mut d = data.clone();
        d.slot = (slot0 + 1).into();
        msgs.push(("slot", d));
        let mut d = data.clone();
        d.index = 1;
        msgs.push(("index", d));
        let mut d = data.clone();
        d.beacon_block_root = b(v(77));
        msgs.push(("head", d));
        for (name, s, t) in [("source root", (11, v(9)), t), ("source epoch", (10, v(1)), t), ("target root", j, (12, v(9))), ("target epoch", j, (13, v(2))), ("swapped", t, j)] {
            msgs.push((name, w.data(slot0, cp(s), cp(t))));
        }
        for (name, msg) in &msgs {
            for kind in 0..11u32 {
                for version in [w.spec.deneb_fork_version, w.spec.electra_fork_version, w.spec.fulu_fork_version, w.spec.gloas_fork_version, w.spec.genesis_fork_version] {
                    for gvr in [w.gvr, [0; 32], v(5)] {
                        for claimed in [&data, msg] {
                            let root = hash2(&data_root(msg), &domain(kind, version, &gvr));
                            let att = attestation::<Two>(&[0], &[true; 4], claimed.clone(), w.sign(c, &root));
                            run("message-and-domain", &att, false, &|| format!("signed {name} changed, domain {kind} {version:?} {}", hex(&gvr[..4])));
                        }
                        // the message itself or its bare root instead of the signing root
                        let att = attestation::<Two>(&[0], &[true; 4], data.clone(), w.sign(c, &data_root(msg)));
                        run("message-and-domain", &att, false, &|| format!("signed bare root, {name}"));
                    }
                }
            }
        }
    });
    ctx.space("fork-boundary", || {
        // attestations before, at and after a fork, signed with each version
        for fulu in 9..=14u64 {
            let mut w = w.clone();
            w.spec.fulu_fork_epoch = Some(Epoch::new(fulu));
            for version in [w.spec.electra_fork_version, w.spec.fulu_fork_version] {
                for (source, target) in [(j, t), (j, (13, v(3)))] {
                    let mut atts = vec![];
                    for slot in target.0 * spe..(target.0 + 1) * spe {
                        let cs = w.committees::<Two>(slot).unwrap();
                        let data = w.data(slot, cp(source), cp(target));
                        let root = hash2(&data_root(&data), &domain(1, version, &w.gvr));
                        atts.push(attestation::<Two>(&[0, 1], &[true; 8], data, w.sign(&cs.concat(), &root)));
                    }
                    if target.0 == 13 {
                        let next = (14, v(4));
                        w.slots.insert(target.1, 26);
                        for slot in next.0 * spe..(next.0 + 1) * spe {
                            let cs = w.committees::<Two>(slot).unwrap();
                            let data = w.data(slot, cp(target), cp(next));
                            let root = w.signing_root(&data);
                            atts.push(attestation::<Two>(&[0, 1], &[true; 8], data, w.sign(&cs.concat(), &root)));
                        }
                    }
                    judge(ctx, "fork-boundary", &cfg, &w, &st, &atts.iter().collect::<Vec<_>>(), || format!("fulu at {fulu}, signed for {version:?}, target {}", target.0));
                }
            }
        }
    });
    ctx.space("needed-votes", || {
        // the attestation on which the threshold hangs, with every voter set
        for set in 0u32..256 {
            let bits: Vec<bool> = (0..8).map(|i| set >> i & 1 == 1).collect();
            let all = cs.concat();
            let signers: Vec<usize> = all.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
            let data = w.data(slot0, cp(j), cp(t));
            let sig = w.sign(&signers, &w.signing_root(&data));
            let att = attestation::<Two>(&[0, 1], &bits, data.clone(), sig);
            alone("needed-votes", &w, &att, &|| format!("votes {bits:?}"));
            let base = base_attestation::<Two>(&bits, data, w.sign(&signers, &w.signing_root(att.data())));
            alone("needed-votes", &w, &base, &|| format!("pre-Electra attestation {bits:?}"));
        }
    });
    ctx.space("uneven-committees", || {
        // committees of different sizes: bits must line up with the members
        for n in ctx.pick(5..=13, 3..=20) {
            let mut w = World::new(ctx.seed + n as u64, n, 32_000_000_000);
            w.spec.target_committee_size = 2;
            w.slots.insert(j.1, 22);
            let honest = w.attest::<Two>(cp(j), cp(t), |_| true);
            judge(ctx, "uneven-committees", &cfg, &w, &st, &honest.iter().collect::<Vec<_>>(), || format!("{n} validators, everybody votes"));
            for slot in [slot0, slot0 + 1] {
                let cs = w.committees::<Two>(slot).unwrap();
                for named in 1u32..1 << cs.len() {
                    let list: Vec<usize> = (0..cs.len()).filter(|c| named >> c & 1 == 1).collect();
                    let members: Vec<usize> = list.iter().flat_map(|c| cs[*c].clone()).collect();
                    let m = members.len();
                    (0u64..1 << m.min(12)).into_par_iter().for_each(|set| {
                        let bits: Vec<bool> = (0..m).map(|i| i >= 12 || set >> i & 1 == 1).collect();
                        let signers: Vec<usize> = members.iter().zip(&bits).filter(|x| *x.1).map(|x| *x.0).collect();
                        let data = w.data(slot, cp(j), cp(t));
                        let att = attestation::<Two>(&list, &bits, data.clone(), w.sign(&signers, &w.signing_root(&data)));
                        let mut atts: Vec<_> = honest.iter().collect();
                        atts.push(&att);
                        judge(ctx, "uneven-committees", &cfg, &w, &st, &atts, || format!("{n} validators, slot {slot}, committees {list:?} bits {bits:?}"));
                    });
                }
            }
        }
    });
    crate::guestpath::votes(ctx);
    ctx.finish(
        "exploration",
        "every attestation of the stated alterations (slot, index, named committees, bits, signers, signed message, domain) in an otherwise valid input; non-trivial = accepted",
        &["idealized BLS: an aggregate verifies exactly for the multiset of signatures it sums up"],
        json!({"validators": 16}),
    )
}

pub fn c06(ctx: &'static Ctx) -> ! {
    let v = |i| val(ctx.seed, "root", i);
    let mut w0 = World::new(ctx.seed, 6, 32_000_000_000);
    w0.spec.target_committee_size = 2;
    ctx.space("lookahead", || {
        // trusted epoch, justified epoch, one or two links, every limit
        for trusted in [0u64, 1, 7, 1 << 40] {
            // distances which are short only if cut to fewer bits
            let wide = [8, 16, 31, 32, 33, 48, 62].into_iter().flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
            for dj in (1..=ctx.pick(6u64, 9)).chain(wide) {
                let (f, j) = ((trusted, v(0)), (trusted + dj, v(1)));
                let mut w = w0.clone();
                w.slots.insert(j.1, 1);
                for skip in 0..=3u64 {
                    // skip > 0: a justification-only link before the finalizing one
                    let m = (j.0 + 1 + skip, v(2));
                    let mut atts = vec![];
                    let last = if skip > 0 {
                        atts.extend(w.attest::<Two>(cp(j), cp(m), |_| true));
                        w.slots.insert(m.1, 2);
                        m
                    } else {
                        j
                    };
                    atts.extend(w.attest::<Two>(cp(last), cp((last.0 + 1, v(3))), |_| true));
                    for limit in (0..=12).chain([255, 256, 65_535, 65_536, 1 << 32, (1 << 32) + 3, u64::MAX]) {
                        let cfg = config(ForkName::Electra, ForkName::Fulu, limit, 2, 3);
                        judge(ctx, "lookahead", &cfg, &w, &state(j, f), &atts.iter().collect::<Vec<_>>(), || format!("trusted {trusted}, justified {}, links to {} and {}, limit {limit}", j.0, last.0, last.0 + 1));
                    }
                }
            }
        }
    });
    ctx.space("forks", || {
        // every position of the forks around the target epochs, every supported range
        let f = (10, v(0));
        let j = (11, v(1));
        let m = (13, v(2));
        let t = (14, v(3));
        let mut cases = vec![];
        let at = |e: i64| (e >= 0).then(|| Epoch::new(e as u64));
        for electra in [0i64, 11, 12, 13, 14, 15, -1] {
            for fulu in [-1i64, 0, 11, 12, 13, 14, 15] {
                for gloas in [-1i64, 12, 13, 14, 15] {
                    if electra < 0 && (fulu >= 0 || gloas >= 0) || fulu >= 0 && fulu < electra || gloas >= 0 && (fulu < 0 || gloas < fulu) {
                        continue;
                    }
                    cases.push((at(electra), at(fulu), at(gloas)));
                }
            }
        }
        cases.par_iter().for_each(|(e, fu, g)| {
            let mut w = w0.clone();
            w.spec.electra_fork_epoch = *e;
            w.spec.fulu_fork_epoch = *fu;
            w.spec.gloas_fork_epoch = *g;
            w.slots.insert(j.1, 22);
            w.slots.insert(m.1, 26);
            let one = w.attest::<Two>(cp(j), cp((12, v(4))), |_| true);
            let mut two = w.attest::<Two>(cp(j), cp(m), |_| true);
            two.extend(w.attest::<Two>(cp(m), cp(t), |_| true));
            for (i, min) in ForkName::ALL.iter().enumerate() {
                for max in &ForkName::ALL[i..] {
                    let cfg = config(*min, *max, 4, 2, 3);
                    for atts in [&one, &two] {
                        judge(ctx, "forks", &cfg, &w, &state(j, f), &atts.iter().collect::<Vec<_>>(), || format!("electra {e:?} fulu {fu:?} gloas {g:?}, supported {min}..{max}, {} attestations", atts.len()));
                    }
                }
            }
        });
    });
    ctx.space("shipped-configurations", || {
        for cfg in [&z_core::DEFAULT_CONFIG, &z_core::SEPOLIA_CONFIG] {
            for (i, fork) in ForkName::ALL.iter().enumerate() {
                // a chain that is at `fork` at the target epoch
                let mut w = w0.clone();
                let s = &mut w.spec;
                for (k, e) in [&mut s.altair_fork_epoch, &mut s.bellatrix_fork_epoch, &mut s.capella_fork_epoch, &mut s.deneb_fork_epoch, &mut s.electra_fork_epoch, &mut s.fulu_fork_epoch, &mut s.gloas_fork_epoch].into_iter().enumerate() {
                    *e = (k < i).then(|| Epoch::new(k as u64));
                }
                let supported = matches!(fork, ForkName::Electra | ForkName::Fulu);
                for dj in 1..=8u64 {
                    let (f, j) = ((20, v(0)), (20 + dj, v(1)));
                    w.slots.insert(j.1, 41);
                    let atts = w.attest::<Two>(cp(j), cp((21 + dj, v(2))), |_| true);
                    let want = supported && dj < 4;
                    let got = run(cfg, &w, &state(j, f), &atts.iter().collect::<Vec<_>>()).0.is_some();
                    ctx.eval(want);
                    ctx.check(want == got, "shipped-configurations", "shipped", || format!("{fork}, target {} epochs ahead: accepted {got}", dj + 1));
                }
            }
        }
    });
    crate::guestpath::limits(ctx);
    ctx.finish(
        "exploration",
        "every fork schedule, supported range, lookahead limit and link distance of the stated domains; non-trivial = accepted",
        &["idealized BLS and SSZ stand-ins"],
        json!({}),
    )
}
