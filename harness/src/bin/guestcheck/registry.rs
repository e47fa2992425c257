//! C15: the registry after the lookahead; C19: generalized indices.
use crate::binding::ETH;
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
#[cfg(not(verif_nocore))]
use z_core::verif_hooks::gindex;
use z_core::{Epoch, StatePatch, ValidatorInfo};

pub fn c15(ctx: &'static Ctx) -> ! {
    fn run<E: beacon_types::EthSpec>(ctx: &Ctx, space: &str, spec: &beacon_types::ChainSpec, bs: &BlockState, trusted: u64, justified: u64, patches: &BTreeMap<Epoch, StatePatch>) {
        let state_epoch = bs.slot / E::slots_per_epoch();
        let built = bs.build();
        let mut i: Input<E> = built.input(trusted, (justified, val(bs.seed, "j", 0)));
        i.patches = patches.clone();
        let epochs: Vec<u64> = (trusted..justified + 9).chain([trusted + 300, FAR - 1]).collect();
        let got = view(i.guest(), spec, &epochs, &[], &[]);
        let reg = advanced(spec, bs, state_epoch, trusted, justified);
        let what = || format!("state of slot {} (finalized {}), trusted {trusted}, justified {justified}, validators {:?}, patches {patches:?}", bs.slot, bs.finalized_epoch,
            bs.validators.iter().map(|v| (v.effective_balance / ETH, v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64(), v.exit_epoch.as_u64())).collect::<Vec<_>>());
        ctx.eval(bs.validators.iter().enumerate().any(|(k, v)| reg[&k] != *v));
        match got {
            Err(e) => ctx.violation(space, "refused", || format!("{}: {e}", what())),
            Ok(v) => {
                for e in &epochs {
                    let want = active(&reg, patches, *e);
                    // validators that were exited when the state was trusted are not looked at
                    let show = |a: &Active| a.iter().map(|(i, v)| (*i, v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64(), v.exit_epoch.as_u64())).collect::<Vec<_>>();
                    ctx.check(v.active[e] == want, space, "active", || format!("{}: active at {e}: {:?}, by the protocol {:?}", what(), show(&v.active[e]), show(&want)));
                }
            }
        }
    }
    // states: justified at the trusted epoch + dj, skipped boundary slots, finalized distance of the state
    let mut settings = vec![];
    for trusted in [3u64, 12, 1 << 30] {
        for skipped in [0u64, 1, 2, 3] {
            for dj in 1..=ctx.pick(3u64, 6) {
                for df in 0..=3u64 {
                    settings.push((trusted, skipped, dj, df));
                }
            }
        }
    }
    ctx.space("single-validators", || {
        // one validator at every point of its life
        settings.par_iter().for_each(|(t, skipped, dj, df)| {
            let around: Vec<u64> = (t.saturating_sub(4)..t + dj + 3).chain([0, FAR]).collect();
            for maxlook in [0u64, 1, 4] {
                let mut spec = tiny_spec();
                spec.max_seed_lookahead = Epoch::new(maxlook);
                for elig in &around {
                    for act in around.iter().filter(|a| **a == FAR || **a >= *elig) {
                        for exit in around.iter().chain([t + 20].iter()).filter(|e| **e == FAR || act != &FAR && **e > *act) {
                            for bal in [31 * ETH, 32 * ETH - 1, 32 * ETH, 2048 * ETH] {
                                if ctx.stopped() || (*act != FAR || *elig != FAR) && bal != 32 * ETH && bal != 31 * ETH {
                                    continue;
                                }
                                let v = ValidatorInfo { activation_eligibility_epoch: Epoch::new(*elig), activation_epoch: Epoch::new(*act), exit_epoch: Epoch::new(*exit), ..validator(0, bal) };
                                let mut bs = BlockState::new::<Two>(ctx.seed, &spec, t * 2 - skipped, vec![v, validator(1, 32 * ETH)]);
                                bs.finalized_epoch = (t - (*skipped).div_ceil(2)).saturating_sub(*df);
                                run::<Two>(ctx, "single-validators", &spec, &bs, *t, t + dj, &BTreeMap::new());
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.space("registries", || {
        // several validators together: every combination of kinds
        let (t, n) = (12u64, ctx.pick(3, 4));
        let kinds = crate::binding::kinds(t);
        let mut picks = vec![];
        product(&vec![kinds.len(); n], |p| picks.push(p.to_vec()));
        picks.par_iter().for_each(|p| {
            for (skipped, dj, df) in [(0, 1, 2), (0, 2, 2), (1, 1, 1), (2, 3, 0)] {
                let spec = tiny_spec();
                let mut bs = BlockState::new::<Four>(ctx.seed, &spec, t * 4 - skipped, crate::binding::registry_of(&kinds, p));
                bs.finalized_epoch = t - (skipped > 0) as u64 - df;
                run::<Four>(ctx, "registries", &spec, &bs, t, t + dj, &BTreeMap::new());
            }
        });
    });
    ctx.space("patched-exits", || {
        // explicitly patched exits remove a validator in the patched epochs only
        let t = 12u64;
        let mut spec = tiny_spec();
        spec.min_per_epoch_churn_limit_electra = 100_000 * ETH;
        let kinds = crate::binding::kinds(t);
        for k in 0..kinds.len() {
            for at in t..t + 5 {
                for exit in t + 5..t + 9 {
                    for until in at..t + 5 {
                        let mut bs = BlockState::new::<Two>(ctx.seed, &spec, t * 2, crate::binding::registry_of(&kinds, &[0, k, 7]));
                        bs.earliest_exit = t;
                        bs.earliest_consolidation = t;
                        if bs.validators[1].exit_epoch.as_u64() != FAR {
                            continue;
                        }
                        bs.validators.extend((3..9).map(|i| validator(i, 2048 * ETH)));
                        let patches = (at..=until).map(|e| (Epoch::new(e), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: BTreeMap::from([(1, Epoch::new(exit))]) })).chain(
                            (exit - 1..exit + 2).map(|e| (Epoch::new(e), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: BTreeMap::from([(1, Epoch::new(exit))]) }))).collect();
                        // a patch may only be repeated or start once; gaps start it anew, which is accepted as well
                        run::<Two>(ctx, "patched-exits", &spec, &bs, t, t + 1, &patches);
                    }
                }
            }
        }
    });
    ctx.finish(
        "exploration",
        "every validator life-cycle position around the lookahead, every small registry, every state/trusted/justified/finalized offset of the stated domain; non-trivial = the lookahead changes the registry",
        &["the finalized epoch used before the current justified epoch is the trusted state's own (see properties.jsonl)"],
        json!({"settings": settings.len()}),
    )
}

pub fn c19(ctx: &'static Ctx) -> ! {
    #[cfg(not(verif_nocore))]
    ctx.space("fixed-indices", || {
        // Electra (37 fields) and Fulu (38) have the same tree depth, hence the same indices
        let fork = state_g("fork") * 4;
        for (name, want) in [
            ("slot", state_g("slot")),
            ("finalized_checkpoint_epoch", state_g("finalized_checkpoint") * 2),
            ("genesis_validators_root", state_g("genesis_validators_root")),
            ("fork_previous_version", fork),
            ("fork_current_version", fork + 1),
            ("fork_epoch", fork + 2),
            ("validators", state_g("validators")),
            ("earliest_exit_epoch", state_g("earliest_exit_epoch")),
            ("earliest_consolidation_epoch", state_g("earliest_consolidation_epoch")),
            ("state_root", block_g("state_root")),
            ("block_slot", block_g("slot")),
        ] {
            let got = guard(|| gindex(name, 0));
            ctx.eval(true);
            ctx.check(got == Ok(want), "fixed-indices", "index", || format!("{name}: {got:?}, the layout has {want}"));
        }
    });
    let field = |name: &str, i: u64| match name {
        "public_key_0" => pubkey_g(i, 0),
        "public_key_1" => pubkey_g(i, 1),
        n => validator_g(i, n),
    };
    const FIELDS: [&str; 7] = ["public_key_0", "public_key_1", "effective_balance", "slashed", "activation_eligibility_epoch", "activation_epoch", "exit_epoch"];
    #[cfg(not(verif_nocore))]
    ctx.space("validator-indices", || {
        let limit = 1u64 << 40;
        let mut idx: Vec<u64> = (0..ctx.pick(300_000u64, 3_000_000)).collect();
        for b in 0..40 {
            for d in 0..64u64 {
                idx.push((1u64 << b).wrapping_add(d).min(limit - 1));
                idx.push((1u64 << b).saturating_sub(d));
                idx.push((limit - 1).saturating_sub((1u64 << b) + d));
            }
        }
        idx.push(limit - 1);
        idx.par_chunks(4096).for_each(|c| {
            for i in c {
                for name in FIELDS {
                    let got = guard(|| gindex(name, *i as usize));
                    ctx.check(got == Ok(field(name, *i)), "validator-indices", "index", || format!("{name} of validator {i}: {got:?}, the layout has {}", field(name, *i)));
                }
            }
            ctx.evals(c.len() as u64 * 7, c.len() as u64 * 7);
        });
    });
    ctx.space("read-back", || {
        // the content the guest reads there is that of the field: trees in which every chunk is different
        for fulu in [false, true] {
            for n in 0..ctx.pick(20usize, 60) {
                let mut spec = tiny_spec();
                if fulu {
                    spec.fulu_fork_epoch = Some(Epoch::new(3));
                }
                let vs: Vec<ValidatorInfo> = (0..n).map(|i| ValidatorInfo {
                    activation_eligibility_epoch: Epoch::new(i as u64 % 5),
                    activation_epoch: Epoch::new(5 + i as u64),
                    exit_epoch: Epoch::new(1000 + i as u64),
                    slashed: i % 3 == 0,
                    ..validator(i, 32 * ETH + i as u64)
                }).collect();
                let mut bs = BlockState::new::<Two>(ctx.seed + n as u64, &spec, 2 * 50, vs);
                bs.fulu = fulu;
                let built = bs.build();
                #[cfg(not(verif_nocore))]
                for (tree, names) in [
                    (&built.state, vec!["slot", "finalized_checkpoint_epoch", "genesis_validators_root", "fork_previous_version", "fork_current_version", "fork_epoch", "validators", "earliest_exit_epoch", "earliest_consolidation_epoch"]),
                    (&built.block, vec!["state_root", "block_slot"]),
                ] {
                    for name in names {
                        let got = node(tree, gindex(name, 0));
                        let v4 = |v: [u8; 4]| { let mut c = [0; 32]; c[..4].copy_from_slice(&v); c };
                        let want = match name {
                            "slot" => u64_chunk(bs.slot),
                            "finalized_checkpoint_epoch" => u64_chunk(bs.finalized_epoch),
                            "genesis_validators_root" => bs.gvr,
                            "fork_previous_version" => v4(bs.fork.0),
                            "fork_current_version" => v4(bs.fork.1),
                            "fork_epoch" => u64_chunk(bs.fork.2),
                            "validators" => built.registry.root(),
                            "earliest_exit_epoch" => u64_chunk(bs.earliest_exit),
                            "earliest_consolidation_epoch" => u64_chunk(bs.earliest_consolidation),
                            "state_root" => built.state.root(),
                            _ => u64_chunk(bs.block_slot),
                        };
                        ctx.eval(true);
                        ctx.check(got == Some(want), "read-back", "content", || format!("{name} (fulu {fulu}): {got:?}"));
                    }
                }
                // and the reader reads the right one of each
                let i: Input<Two> = built.input(50, (51, [1; 32]));
                let epochs: Vec<u64> = (50..80).collect();
                let got = view(i.guest(), &spec, &epochs, &[], &[]);
                let reg = advanced(&spec, &bs, 50, 50, 51);
                let want: BTreeMap<u64, Active> = epochs.iter().map(|e| (*e, active(&reg, &BTreeMap::new(), *e))).collect();
                ctx.eval(true);
                ctx.check(got.as_ref().is_ok_and(|v| v.active == want && v.gvr == bs.gvr), "read-back", "reader", || format!("registry of {n} (fulu {fulu}): {got:?}"));
            }
        }
    });
    ctx.finish(
        "exploration",
        "every field read by the guest; every validator index below the bound and around every power of two; against the SSZ layout of the consensus specification",
        &["the layout table of the specification is transcribed in the harness"],
        json!({"fields": 18}),
    )
}
