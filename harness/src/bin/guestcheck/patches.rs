//! C16: what unproven state patches may do.
use crate::binding::ETH;
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{Epoch, StatePatch, ValidatorInfo};

#[derive(Debug, PartialEq)]
enum Rule {
    Accept,
    Refuse(&'static str),
    /// a budget beyond 64 bits: may be refused
    May,
}
type Patches = BTreeMap<u64, BTreeMap<usize, u64>>;

/// The rule for patches, in 128-bit arithmetic.
fn rule(spec: &beacon_types::ChainSpec, bs: &BlockState, reg: &BTreeMap<usize, ValidatorInfo>, trusted: u64, patches: &Patches) -> Rule {
    let total: u128 = reg.values().filter(|v| v.activation_epoch.as_u64() <= trusted && trusted < v.exit_epoch.as_u64()).map(|v| v.effective_balance as u128).sum();
    let inc = spec.effective_balance_increment as u128;
    let total = total.max(inc);
    let churn = (total / spec.churn_limit_quotient as u128).max(spec.min_per_epoch_churn_limit_electra as u128);
    let churn = (churn - churn % inc) * 2;
    let mut earliest = bs.earliest_exit.min(bs.earliest_consolidation).max(bs.slot / 2 + 1 + spec.max_seed_lookahead.as_u64());
    let mut changes = vec![];
    for (at, exits) in patches {
        if *at < trusted {
            return Rule::Refuse("before the trusted epoch");
        }
        for (i, exit) in exits {
            let Some(v) = reg.get(i) else { return Rule::Refuse("unknown validator") };
            let before = at.checked_sub(1).and_then(|p| patches.get(&p)).and_then(|p| p.get(i)).copied().unwrap_or(v.exit_epoch.as_u64());
            if before == *exit {
                continue;
            }
            if before != FAR {
                return Rule::Refuse("already exiting");
            }
            changes.push((*exit, v.effective_balance as u128));
        }
    }
    changes.sort();
    let (mut budget, mut may) = (churn, false);
    for (exit, balance) in changes {
        if exit < earliest {
            return Rule::Refuse("too early");
        }
        budget += (exit - earliest) as u128 * churn;
        earliest = exit;
        if budget > u64::MAX as u128 {
            may = true;
        }
        if balance > budget {
            return Rule::Refuse("too much at once");
        }
        budget -= balance;
    }
    if may { Rule::May } else { Rule::Accept }
}

fn run(ctx: &Ctx, space: &str, spec: &beacon_types::ChainSpec, built: &Built, trusted: u64, justified: u64, patches: &Patches) -> bool {
    let bs = &built.bs;
    let reg = advanced(spec, bs, bs.slot / 2, trusted, justified);
    let known = reg.iter().filter(|(_, v)| v.exit_epoch.as_u64() > trusted).map(|(i, v)| (*i, v.clone())).collect();
    let want = rule(spec, bs, &known, trusted, patches);
    let mut i: Input<Two> = built.input(trusted, (justified, [7; 32]));
    i.patches = patches
        .iter()
        .map(|(e, x)| (Epoch::new(*e), StatePatch {
            randao_mixes: BTreeMap::from([(*e as u32 % 8, b(val(1, "mix", *e)))]),
            validator_exits: x.iter().map(|(i, e)| (*i, Epoch::new(*e))).collect(),
        }))
        .collect();
    let epochs: Vec<u64> = (trusted..trusted + 14).collect();
    let mixes: Vec<(u64, u32)> = (trusted..trusted + 4).flat_map(|e| (0..8).map(move |m| (e, m))).collect();
    let got = view(i.guest(), spec, &epochs, &[], &mixes);
    ctx.eval(want == Rule::Accept && patches.values().any(|p| !p.is_empty()));
    let what = || format!("validators {:?}, earliest exit {} consolidation {}, trusted {trusted}, patches {patches:?}",
        bs.validators.iter().map(|v| (v.effective_balance, v.activation_epoch.as_u64(), v.exit_epoch.as_u64())).collect::<Vec<_>>(), bs.earliest_exit, bs.earliest_consolidation);
    match (&want, &got) {
        (Rule::Refuse(why), Ok(_)) => ctx.violation(space, why, || format!("{}: accepted", what())),
        (Rule::Accept, Err(e)) => ctx.violation(space, "refused", || format!("{}: refused: {e}", what())),
        _ => {}
    }
    if let Ok(v) = &got {
        for e in &epochs {
            let want = active(&known, &i.patches, *e);
            ctx.check(v.active[e] == want, space, "active", || format!("{}: at {e} active {:?}, should be {:?}", what(), v.active[e].iter().map(|x| x.0).collect::<Vec<_>>(), want.iter().map(|x| x.0).collect::<Vec<_>>()));
            // whoever is active with the patch is active without it, unchanged
            let free = active(&known, &BTreeMap::new(), *e);
            ctx.check(v.active[e].iter().all(|x| free.contains(x)), space, "active", || format!("{}: at {e} a patch adds or changes a validator", what()));
        }
        for (e, m) in &mixes {
            let want = patches.contains_key(e).then(|| val(1, "mix", *e)).filter(|_| *m == (*e as u32 % 8));
            ctx.check(v.mixes[&(*e, *m)] == want, space, "mix", || format!("mix {m} at {e}: {:?}", v.mixes[&(*e, *m)]));
        }
    }
    matches!(want, Rule::Accept)
}

pub fn c16(ctx: &'static Ctx) -> ! {
    // small churn so that the limit is within reach: churn per epoch 2*min = 2*64 by default here scaled down
    let spec_with = |min: u64, q: u64| {
        let mut s = tiny_spec();
        s.min_per_epoch_churn_limit_electra = min;
        s.churn_limit_quotient = q;
        s.effective_balance_increment = 1;
        s.min_activation_balance = 1;
        s.max_seed_lookahead = Epoch::new(1);
        s
    };
    let vs = |balances: &[u64]| -> Vec<ValidatorInfo> { balances.iter().enumerate().map(|(i, b)| validator(i, *b)).collect() };
    let state = |seed: u64, spec: &beacon_types::ChainSpec, trusted: u64, v: Vec<ValidatorInfo>, exit: u64, cons: u64| {
        let mut bs = BlockState::new::<Two>(seed, spec, trusted * 2, v);
        bs.earliest_exit = exit;
        bs.earliest_consolidation = cons;
        bs.build()
    };
    ctx.space("one-patch", || {
        // every assignment of exits to four validators in one patch, for every earliest epoch and several churn limits
        let balances = [3u64, 5, 7, 11];
        for trusted in [0u64, 1, 10] {
            for (min, q) in [(1u64, 1000u64), (3, 1000), (5, 1000), (6, 1000), (13, 1000), (1, 3), (1, 26), (20, 1)] {
                let spec = spec_with(min, q);
                for (x, c) in [(0, 0), (trusted + 3, trusted + 4), (trusted + 4, trusted + 3), (trusted + 6, 0), (FAR, trusted + 2), (trusted + 2, FAR)] {
                    let built = state(ctx.seed, &spec, trusted, vs(&balances), x, c);
                    let choices: Vec<Option<u64>> = [None].into_iter().chain((trusted + 1..trusted + 7).map(Some)).chain([Some(FAR), Some(0)]).collect();
                    let mut all = vec![];
                    product(&[choices.len(); 4], |k| all.push(k.to_vec()));
                    all.into_par_iter().for_each(|k| {
                        if ctx.stopped() {
                            return;
                        }
                        let exits = k.iter().enumerate().filter_map(|(i, c)| choices[*c].map(|e| (i, e))).collect();
                        run(ctx, "one-patch", &spec, &built, trusted, trusted + 1, &BTreeMap::from([(trusted + 1, exits)]));
                    });
                }
            }
        }
    });
    ctx.space("patch-sequences", || {
        // every assignment over several patched epochs, at and before the trusted one
        for trusted in [0u64, 1, 2, 10] {
            for (min, q) in [(2u64, 1000u64), (6, 1000)] {
                let spec = spec_with(min, q);
                let built = state(ctx.seed, &spec, trusted, vs(&[4, 9]), 0, 0);
                let epochs: Vec<u64> = [trusted.checked_sub(1), Some(trusted), Some(trusted + 1), Some(trusted + 2)].into_iter().flatten().collect();
                // per epoch: no patch, or for each of two validators one of five exits
                let choices: Vec<Option<u64>> = if epochs.len() == 3 || ctx.thorough {
                    vec![None, Some(trusted + 1), Some(trusted + 2), Some(trusted + 3), Some(trusted + 4), Some(FAR)]
                } else {
                    vec![None, Some(trusted + 2), Some(trusted + 3), Some(FAR)]
                };
                let per = choices.len() * choices.len() + 1;
                let mut all = vec![];
                product(&vec![per; epochs.len()], |k| all.push(k.to_vec()));
                all.into_par_iter().for_each(|k| {
                    if ctx.stopped() {
                        return;
                    }
                    let mut patches = Patches::new();
                    for (e, x) in epochs.iter().zip(&k) {
                        if *x > 0 {
                            let x = x - 1;
                            let exits = [x % choices.len(), x / choices.len()].iter().enumerate().filter_map(|(i, c)| choices[*c].map(|e| (i, e))).collect();
                            patches.insert(*e, exits);
                        }
                    }
                    run(ctx, "patch-sequences", &spec, &built, trusted, trusted + 1, &patches);
                });
            }
        }
    });
    ctx.space("extreme-exits", || {
        // budgets beyond 64 bits
        let trusted = 10u64;
        for min in [1u64, 7, 1 << 40, 1 << 62] {
            let spec = spec_with(min, 1000);
            let built = state(ctx.seed, &spec, trusted, vs(&[5, 1 << 41, 1 << 50]), 0, 0);
            let choices = [trusted + 2, trusted + 3, 1 << 20, 1 << 23, 1 << 24, 1 << 62, 1 << 63, FAR - 1, FAR];
            product(&[choices.len(), choices.len(), choices.len(), 2], |k| {
                let exits: BTreeMap<usize, u64> = (0..3).map(|i| (i, choices[k[i]])).collect();
                let mut patches = BTreeMap::from([(trusted, exits.clone())]);
                if k[3] == 1 {
                    patches.insert(trusted + 1, exits);
                }
                run(ctx, "extreme-exits", &spec, &built, trusted, trusted + 1, &patches);
            });
        }
    });
    ctx.space("life-cycles", || {
        // patches for validators at every point of their life, and for unknown ones
        let trusted = 12u64;
        let mut spec = tiny_spec();
        spec.max_seed_lookahead = Epoch::new(1);
        let kinds = crate::binding::kinds(trusted);
        let mut picks = vec![];
        product(&[kinds.len(), kinds.len()], |p| picks.push([0, p[0], p[1]].to_vec()));
        picks.par_iter().for_each(|p| {
            for dj in [1u64, 3] {
                let mut bs = BlockState::new::<Two>(ctx.seed, &spec, trusted * 2 - 1, crate::binding::registry_of(&kinds, p));
                bs.earliest_exit = trusted + 2;
                bs.earliest_consolidation = trusted + 4;
                let built = bs.build();
                for v in [1usize, 2, 3, 1 << 40, usize::MAX] {
                    for exit in (trusted - 1..trusted + 8).chain([FAR - 1, FAR, 0]) {
                        for at in [trusted, trusted + 2] {
                            run(ctx, "life-cycles", &spec, &built, trusted, trusted + dj, &BTreeMap::from([(at, BTreeMap::from([(v, exit)]))]));
                            run(ctx, "life-cycles", &spec, &built, trusted, trusted + dj, &BTreeMap::from([(at, BTreeMap::from([(v, exit), (0, trusted + 5)])), (at + 1, BTreeMap::from([(v, exit)]))]));
                        }
                    }
                }
            }
        });
    });
    ctx.space("churn-boundary", || {
        // the leaving balance just at, below and above the budget, for every composition of the total
        for trusted in [10u64] {
            for q in [1u64, 2, 3, 7, 50] {
                for inc in [1u64, 4] {
                    let mut spec = spec_with(4, q);
                    spec.effective_balance_increment = inc;
                    let top = ctx.pick(40u64, 120);
                    (0..top).into_par_iter().for_each(|leaving| {
                        for rest in (0..top * 2) {
                            // the slashed leave like anybody else, and hold stake until then
                            let mut v = vs(&[leaving, rest]);
                            v[0].slashed = (leaving + rest) % 3 == 1;
                            v[1].slashed = (leaving + rest) % 4 == 2;
                            let built = state(ctx.seed, &spec, trusted, v, 0, 0);
                            for exit in [trusted + 2, trusted + 3, trusted + 5] {
                                run(ctx, "churn-boundary", &spec, &built, trusted, trusted + 1, &BTreeMap::from([(trusted + 1, BTreeMap::from([(0, exit)]))]));
                            }
                        }
                    });
                }
            }
        }
    });
    ctx.space("churn-base", || {
        // the budget next to validators at every point of their life, with the trusted state in and before the trusted epoch
        let trusted = 12u64;
        let lives = crate::binding::kinds(trusted);
        for q in [3u64, 7] {
            let spec = spec_with(4, q);
            for early in [0u64, 1, 2] {
                for kind in &lives {
                    (1..ctx.pick(40u64, 100)).into_par_iter().for_each(|leaving| {
                        for rest in (0..200u64).step_by(ctx.pick(8, 3)) {
                            let mut v = vs(&[leaving, rest, 1]);
                            v[1].activation_eligibility_epoch = kind.activation_eligibility_epoch;
                            v[1].activation_epoch = kind.activation_epoch;
                            v[1].exit_epoch = kind.exit_epoch;
                            v[1].slashed = kind.slashed;
                            let bs = BlockState::new::<Two>(ctx.seed, &spec, trusted * 2 - early, v);
                            let built = bs.build();
                            for exit in [trusted + 2 - (early + 1) / 2, trusted + 2] {
                                run(ctx, "churn-base", &spec, &built, trusted, trusted + 1, &BTreeMap::from([(trusted + 1, BTreeMap::from([(0, exit)]))]));
                            }
                        }
                    });
                }
            }
        }
    });
    ctx.finish(
        "exploration",
        "every assignment of patched exits of the stated domains against the rule in 128-bit arithmetic, and the resulting active sets and mixes at every epoch; non-trivial = accepted with at least one exit",
        &["the protocol's churn limit as in Electra"],
        json!({}),
    )
}
