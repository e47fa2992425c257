//! C04, C05: committees and seeds.
use beacon_types::{EthSpec, Slot};
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{ConsensusState, Epoch, InputReader};
#[cfg(not(verif_nocore))]
use z_core::{verif_hooks::shuffle_data, CommitteeCache};

// for a tree in which the hook does not build: the committees are decided through verification only
#[cfg(verif_nocore)]
fn cache<E: EthSpec>(_: &Ctx, _: &str, _: &[usize], _: B32, _: u64, _: usize, _: u8) {}

#[cfg(not(verif_nocore))]
fn cache<E: EthSpec>(ctx: &Ctx, space: &str, active: &[usize], seed: B32, epoch: u64, cps: usize, rounds: u8) {
    let mut spec = tiny_spec();
    spec.shuffle_round_count = rounds;
    let spe = E::slots_per_epoch();
    let n = active.len();
    let what = || format!("active {active:?} epoch {epoch} committees per slot {cps}, {spe} slots per epoch, seed {}", hex(&seed[..4]));
    let made = guard(|| CommitteeCache::<E>::initialized(&spec, shuffle_data(b(seed), active.to_vec(), cps), Epoch::new(epoch)));
    ctx.eval(n > 1);
    if n == 0 || cps == 0 {
        ctx.check(!matches!(made, Ok(Ok(_))), space, "empty", || format!("a cache without committees; {}", what()));
        return;
    }
    let Ok(Ok(c)) = made else {
        ctx.violation(space, "no-cache", || format!("{:?}; {}", made.err(), what()));
        return;
    };
    let shuffling: Vec<usize> = (0..n).map(|i| active[shuffled_index(i, n, &seed, rounds)]).collect();
    ctx.check(c.shuffling() == shuffling, space, "shuffling", || format!("shuffling {:?}, specified {shuffling:?}; {}", c.shuffling(), what()));
    ctx.check(c.active_validator_count() == n && c.epoch_committee_count() == cps * spe as usize && c.get_committee_count_per_slot() == cps, space, "counts", || what());
    ctx.check(c.is_initialized_at(Epoch::new(epoch)) && !c.is_initialized_at(Epoch::new(epoch + 1)), space, "counts", || what());
    let top = active.iter().max().unwrap() + 3;
    let position: BTreeMap<usize, usize> = shuffling.iter().enumerate().map(|(p, v)| (*v, p)).collect();
    for v in 0..top {
        let want = position.get(&v).copied();
        let got = c.shuffled_position(v);
        ctx.check(got == want, space, "position", || format!("position of {v}: {got:?}, is {want:?}; {}", what()));
    }
    let mut seen: BTreeMap<usize, usize> = BTreeMap::new();
    let first = epoch * spe;
    for slot in first.saturating_sub(2)..first + spe + 2 {
        for index in (0..cps + 2).chain([usize::MAX, usize::MAX / 2]) {
            let got = guard(|| c.get_beacon_committee(Slot::new(slot), index).map(|x| x.to_vec()));
            if slot / spe != epoch || index >= cps {
                ctx.check(matches!(got, Ok(Err(_))), space, "out-of-range", || format!("committee {index} of slot {slot}: {got:?}; {}", what()));
                continue;
            }
            let want = committee(active, &seed, (slot % spe) as usize * cps + index, cps * spe as usize, rounds);
            let ok = matches!(&got, Ok(Ok(x)) if *x == want);
            ctx.check(ok, space, "committee", || format!("committee {index} of slot {slot}: {got:?}, specified {want:?}; {}", what()));
            for v in got.ok().and_then(|r| r.ok()).unwrap_or_default() {
                *seen.entry(v).or_default() += 1;
            }
        }
        let at = guard(|| c.get_beacon_committees_at_slot(Slot::new(slot)).map(|x| x.concat()));
        if slot / spe == epoch {
            let want: Vec<usize> = (0..cps).flat_map(|i| committee(active, &seed, (slot % spe) as usize * cps + i, cps * spe as usize, rounds)).collect();
            ctx.check(matches!(&at, Ok(Ok(x)) if *x == want), space, "committee", || format!("committees of slot {slot}: {at:?}, specified {want:?}; {}", what()));
        } else {
            ctx.check(matches!(at, Ok(Err(_))), space, "out-of-range", || format!("committees of slot {slot}: {at:?}; {}", what()));
        }
    }
    let want: BTreeMap<usize, usize> = active.iter().map(|v| (*v, 1)).collect();
    ctx.check(seen == want, space, "partition", || format!("members of the epoch's committees {seen:?}; {}", what()));
}

pub fn c04(ctx: &'static Ctx) -> ! {
    let seeds: Vec<B32> = (0..ctx.pick(2, 6)).map(|i| val(ctx.seed, "seed", i)).collect();
    ctx.space("sparse-sets", || {
        let bits = ctx.pick(9u32, 12);
        (0u32..1 << bits).into_par_iter().for_each(|set| {
            let active: Vec<usize> = (0..bits as usize).filter(|i| set >> i & 1 == 1).collect();
            for seed in &seeds {
                for cps in 0..=3 {
                    cache::<One>(ctx, "sparse-sets", &active, *seed, 5, cps, 4);
                    cache::<Two>(ctx, "sparse-sets", &active, *seed, 0, cps, 4);
                    cache::<Four>(ctx, "sparse-sets", &active, *seed, 3, cps, 4);
                }
            }
        });
    });
    ctx.space("sizes", || {
        // contiguous and strided sets of every size, across the 256-position hash block
        (1usize..=ctx.pick(40, 600)).chain([255, 256, 257, 300, 511, 512, 513]).collect::<Vec<_>>().into_par_iter().for_each(|n| {
            for stride in [1usize, 3] {
                let active: Vec<usize> = (0..n).map(|i| i * stride + 7 * (stride - 1)).collect();
                for seed in &seeds {
                    for (epoch, cps) in [(0, 1), (1, 2), (9, 4), (1 << 40, 3)] {
                        cache::<Two>(ctx, "sizes", &active, *seed, epoch, cps, 5);
                        cache::<Four>(ctx, "sizes", &active, *seed, epoch, cps, 90);
                    }
                }
            }
        });
    });
    ctx.space("mainnet-preset", || {
        for n in [1usize, 64, 100, 2048] {
            let active: Vec<usize> = (0..n).collect();
            cache::<beacon_types::MainnetEthSpec>(ctx, "mainnet-preset", &active, seeds[0], 400_000, ctx.pick(2, 3), 90);
        }
        // up to the highest number of committees per slot
        let active: Vec<usize> = (0..3000).map(|i| i * 2 + 1).collect();
        [1usize, 15, 16, 17, 31, 32, 33, 63, 64].into_par_iter().for_each(|cps| cache::<beacon_types::MainnetEthSpec>(ctx, "mainnet-preset", &active, seeds[1], 400_001, cps, 10));
    });
    ctx.space("large-registries", || {
        // more active validators than 16 bits count
        [65_535usize, 65_536, 65_537, ctx.pick(70_000, 140_000)].into_par_iter().for_each(|n| {
            let active: Vec<usize> = (0..n).map(|i| i + i / 1000).collect();
            cache::<Two>(ctx, "large-registries", &active, seeds[0], 7, 64, 3);
            cache::<Four>(ctx, "large-registries", &active, seeds[1], 8, 5, 3);
        });
    });
    #[cfg(not(verif_nocore))]
    ctx.space("uninitialized", || {
        let c = CommitteeCache::<Two>::default();
        ctx.eval(true);
        for slot in 0..4u64 {
            ctx.check(guard(|| c.get_beacon_committee(Slot::new(slot), 0).is_err()) == Ok(true), "uninitialized", "uninitialized", || format!("slot {slot}"));
            ctx.check(guard(|| c.get_beacon_committees_at_slot(Slot::new(slot)).is_err()) == Ok(true), "uninitialized", "uninitialized", || format!("slot {slot}"));
        }
        ctx.check(c.shuffling().is_empty() && c.active_validator_count() == 0 && c.shuffled_position(0).is_none() && !c.is_initialized_at(Epoch::new(0)), "uninitialized", "uninitialized", || "empty cache".into());
    });
    ctx.space("through-verification", || {
        // the committees verification uses are those of the epoch: an honest full vote is accepted for every registry
        let cfg = default_config();
        let v = |i| val(ctx.seed, "root", i);
        let (f, j, t) = ((10, v(0)), (11, v(1)), (12, v(2)));
        (1u32..1 << 8).into_par_iter().for_each(|set| {
            let mut w = World::new(ctx.seed, 16, 32_000_000_000);
            w.spec.target_committee_size = 2;
            w.slots.insert(j.1, 22);
            w.registry.retain(|i, _| *i < 8 && set >> i & 1 == 1 || *i >= 12);
            let atts = w.attest::<Two>(cp(j), cp(t), |_| true);
            let st = ConsensusState::new(cp(j), cp(f));
            let (got, why) = run(&cfg, &w, &st, &atts.iter().collect::<Vec<_>>());
            ctx.eval(true);
            ctx.check(got.is_some(), "through-verification", "honest-rejected", || format!("registry {:?}: {why}", w.registry.keys().collect::<Vec<_>>()));
        });
        // every number of committees per slot, at its limit and beyond
        (1usize..=70).into_par_iter().for_each(|cps| {
            for limit in [64, cps.min(64), 7] {
                let mut w = World::new(ctx.seed, cps * 4 + 1, 32_000_000_000);
                w.spec.target_committee_size = 2;
                w.spec.max_committees_per_slot = limit;
                w.slots.insert(j.1, 22);
                let atts = w.attest::<Wide>(cp(j), cp(t), |_| true);
                let st = ConsensusState::new(cp(j), cp(f));
                let (got, why) = run(&cfg, &w, &st, &atts.iter().collect::<Vec<_>>());
                ctx.eval(true);
                ctx.check(got.is_some(), "through-verification", "honest-rejected", || format!("{cps} committees per slot, limit {limit}: {why}"));
            }
        });
    });
    crate::guestpath::gaps(ctx);
    ctx.finish(
        "exploration",
        "every set of active indices below the bound, every committee count, seed, slot and index around the epoch; non-trivial = more than one active validator",
        &["the shuffle_list stand-in; its inputs and the use of its result are what is decided"],
        json!({"index_bound": ctx.pick(9, 12)}),
    )
}

pub fn c05(ctx: &'static Ctx) -> ! {
    fn seeds<E: EthSpec>(ctx: &Ctx, name: &str) {
        let hist = E::epochs_per_historical_vector() as u64;
        for look in 0..=3u64 {
            let mut w = World::new(ctx.seed, 4, 1);
            w.spec.min_seed_lookahead = Epoch::new(look);
            let bases = [0, 1 << 30, u64::MAX - 4 * hist];
            for epoch in bases.iter().flat_map(|b| *b..*b + 3 * hist) {
                let st = ConsensusState::default();
                let want_idx = w.mix_index::<E>(epoch);
                for missing in (0..hist as u32).map(Some).chain([None]) {
                    let mut w = w.clone();
                    if let Some(m) = missing {
                        w.no_mix.insert((epoch, m));
                    }
                    let want = w.seed_at::<E>(epoch);
                    let r: Reader<'_, E> = Reader { world: &w, state: st.clone(), attestations: vec![] };
                    let got = guard(|| r.get_seed(Epoch::new(epoch), 1u32.to_le_bytes().into()));
                    let got = got.ok().and_then(|r| r.ok()).map(|s| s.0);
                    ctx.eval(want.is_some());
                    let ok = got == want || got.is_none() && epoch.checked_add(hist).is_none();
                    ctx.check(ok, name, "seed", || format!("epoch {epoch}, lookahead {look}, history {hist}, missing {missing:?}: got {got:?}, specified mix {want_idx}: {want:?}"));
                    // any other domain type gives the hash with that type
                    for kind in [0u32, 2, 0x0100_0000] {
                        let got = guard(|| r.get_seed(Epoch::new(epoch), kind.to_le_bytes().into())).ok().and_then(|r| r.ok()).map(|s| s.0);
                        let mix = w.mix(epoch, want_idx);
                        let want = mix.map(|m| sha(&[&kind.to_le_bytes(), &epoch.to_le_bytes(), &m]));
                        ctx.check(got == want || got.is_none() && epoch.checked_add(hist).is_none(), name, "seed", || format!("epoch {epoch}, domain {kind}"));
                    }
                }
            }
        }
    }
    ctx.space("history-of-8", || seeds::<Two>(ctx, "history-of-8"));
    ctx.space("history-of-16", || seeds::<Four>(ctx, "history-of-16"));
    ctx.space("mixes", || {
        // get_randao_mix designates the mix of an epoch as of a state
        for state_epoch in 0..20u64 {
            for epoch in (0..40u64).chain([u64::MAX - 1, u64::MAX]) {
                let w = World::new(ctx.seed, 1, 1);
                let r: Reader<'_, Two> = Reader { world: &w, state: ConsensusState::default(), attestations: vec![] };
                let got = guard(|| r.get_randao_mix(Epoch::new(state_epoch), Epoch::new(epoch))).ok().and_then(|r| r.ok()).map(|m| m.0);
                let want = w.mix(state_epoch, (epoch % 8) as u32);
                ctx.eval(true);
                ctx.check(got == want, "mixes", "mix", || format!("mix of {epoch} in the state of {state_epoch}"));
            }
        }
    });
    ctx.space("mainnet-history", || {
        let w = World::new(ctx.seed, 1, 1);
        for epoch in (0..70_000u64).step_by(ctx.pick(97, 7)).chain(65_520..65_550).chain(0..40).chain(131_060..131_090) {
            let r: Reader<'_, beacon_types::MainnetEthSpec> = Reader { world: &w, state: ConsensusState::default(), attestations: vec![] };
            let got = guard(|| r.get_seed(Epoch::new(epoch), 1u32.to_le_bytes().into())).ok().and_then(|r| r.ok()).map(|s| s.0);
            ctx.eval(true);
            ctx.check(got == w.seed_at::<beacon_types::MainnetEthSpec>(epoch), "mainnet-history", "seed", || format!("epoch {epoch}"));
        }
    });
    ctx.space("through-verification", || {
        // honest votes, whose committees come from the designated mix, are accepted; without that mix nothing is
        let cfg = default_config();
        let v = |i| val(ctx.seed, "root", i);
        (1..ctx.pick(40u64, 200)).into_par_iter().for_each(|e| {
            let (f, j, t) = ((e - 1, v(0)), (e, v(1)), (e + 1, v(2)));
            let mut w = World::new(ctx.seed, 9, 32_000_000_000);
            w.spec.target_committee_size = 2;
            w.slots.insert(j.1, e * 2);
            let st = ConsensusState::new(cp(j), cp(f));
            let atts = w.attest::<Two>(cp(j), cp(t), |_| true);
            let atts: Vec<_> = atts.iter().collect();
            for missing in (0..8u32).map(Some).chain([None]) {
                let mut w = w.clone();
                if let Some(m) = missing {
                    w.no_mix.insert((t.0, m));
                }
                let want = oracle(&cfg, &w, &st, &atts);
                let (got, why) = run(&cfg, &w, &st, &atts);
                ctx.eval(matches!(want, Verdict::Accept(..)));
                ctx.check(agrees(&want, &got), "through-verification", "verification", || format!("target {}, missing mix {missing:?}: expected {want:?}, got {got:?} {why}", t.0));
            }
            // votes of committees drawn from a neighbouring mix or epoch must not count
            for (de, di) in [(0u64, 1u32), (0, 7), (1, 0), (1, 1)] {
                let mut other = w.clone();
                let good = w.mix_index::<Two>(t.0);
                // a world in which the designated mix is that neighbour's
                other.seed = w.seed;
                let mix = w.mix(t.0.wrapping_sub(de), (good + di) % 8).unwrap();
                let seed = sha(&[&1u32.to_le_bytes(), &t.0.to_le_bytes(), &mix]);
                let active = w.active(t.0);
                let cps = committees_per_slot::<Two>(active.len(), &w.spec);
                let mut atts = vec![];
                for slot in t.0 * 2..t.0 * 2 + 2 {
                    let cs: Vec<Vec<usize>> = (0..cps).map(|i| committee(&active, &seed, (slot % 2) as usize * cps + i, cps * 2, w.spec.shuffle_round_count)).collect();
                    let data = w.data(slot, cp(j), cp(t));
                    let members = cs.concat();
                    // only the first voter of each committee, so that the order of the committee matters
                    let mut bits = vec![false; members.len()];
                    let mut at = 0;
                    let mut signers = vec![];
                    for c in &cs {
                        for (k, m) in c.iter().enumerate() {
                            if k * 4 < c.len() * 3 || k == 0 {
                                bits[at + k] = true;
                                signers.push(*m);
                            }
                        }
                        at += c.len();
                    }
                    let sig = w.sign(&signers, &w.signing_root(&data));
                    atts.push(attestation::<Two>(&(0..cps).collect::<Vec<_>>(), &bits, data, sig));
                }
                let atts: Vec<_> = atts.iter().collect();
                let want = oracle(&cfg, &w, &st, &atts);
                let (got, why) = run(&cfg, &w, &st, &atts);
                ctx.eval(false);
                ctx.check(agrees(&want, &got), "through-verification", "verification", || format!("target {}, committees of a neighbouring mix: expected {want:?}, got {got:?} {why}", t.0));
            }
        });
    });
    crate::guestpath::mixes(ctx);
    ctx.finish(
        "exploration",
        "every epoch over three turns of the RANDAO history (and at the ends of the epoch range), every seed lookahead 0..3, every single missing mix; non-trivial = a seed exists",
        &[],
        json!({}),
    )
}
