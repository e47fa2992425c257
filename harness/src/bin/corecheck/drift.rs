//! C31: balance drift. Whatever link the shipped configuration lets through, the protocol would have justified it too,
//! although balances have moved since the trusted state.
use beacon_types::Attestation;
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::Relaxed;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{ConsensusState, DEFAULT_CONFIG};

const F: u64 = 400_000;
const ETH: i128 = 1_000_000_000;

/// The network at the trusted epoch, in ETH.
#[derive(Clone, Copy, Debug)]
struct Size {
    balance: i128,
    validators: i128,
    /// balance slashed since
    slashed: i128,
}

/// Every total that 3 * (attesting balance) - 2 * (active balance), in Gwei, can move by within `n` epochs. The moves per
/// epoch are those of docs/src/02_balance_drift.md, each made or not made: churn and rewards for the others, churn and
/// penalties against the attesters, the inactivity leak, switches to compounding credentials, a quarter of the slashing.
/// Hysteresis moves once, for any split of the validators.
fn drifts(size: Size, n: u64) -> BTreeSet<i128> {
    let Size { balance, validators, slashed } = size;
    let epochs = n as i128;
    // bounds for the balance and the number of validators at the target epoch
    let end = balance + 256 * epochs + 48 * epochs + validators + 128_960 * epochs;
    let count = validators + 8 * epochs;
    let churn = 2 * (128 * ETH).max(balance * ETH / 65_536);
    let mut reach = BTreeSet::from([(0i128, 0u8)]);
    for k in 1..=n as i128 {
        let grow = churn + 48 * ETH;
        let leak = end * ETH * k / (1 << 24);
        let switch = 2015 * 64 * ETH;
        let mut next = BTreeSet::new();
        for &(m, s) in &reach {
            for moves in 0..16u8 {
                let mut m = m;
                // more active balance counts twice against the attesters, less attesting balance once
                m -= if moves & 1 != 0 { 2 * grow } else { 0 };
                m -= if moves & 2 != 0 { churn + 48 * ETH } else { 0 };
                m -= if moves & 4 != 0 { leak } else { 0 };
                m -= if moves & 8 != 0 { 2 * switch } else { 0 };
                for parts in 0..=4 - s {
                    next.insert((m - 3 * (parts as i128) * slashed * ETH / 4, s + parts));
                }
            }
        }
        reach = next;
    }
    reach
        .into_iter()
        .flat_map(|(m, _)| {
            [0, count / 6, count / 3, count / 2, count].into_iter().flat_map(move |others| {
                [m, m - 2 * others * ETH, m - (count - others) * ETH, m - 2 * others * ETH - (count - others) * ETH]
            })
        })
        .collect()
}

/// A validator set of that total balance in which a few large blocks of stake stand for all the validators; subsets of
/// them reach the usual fractions exactly, and miss them by one Gwei.
fn stakes(total: u64, variant: usize) -> Vec<u64> {
    let part = |ppm: u64| (total as u128 * ppm as u128 / 1_000_000) as u64;
    let exact = |num: u64, den: u64| (total as u128 * num as u128).div_ceil(den as u128) as u64;
    let mut v = match variant {
        // two thirds, then 70 %, 80 %, 85 %, 90 %
        0 => vec![exact(2, 3) - 1, 1, part(33_333), part(100_000), part(50_000), part(50_000)],
        1 => vec![exact(85, 100) - 1, 1, part(20_000), part(30_000), part(40_000)],
        2 => vec![exact(80, 100), part(10_000), part(10_000), part(10_000), part(10_000), part(10_000), part(10_000)],
        _ => vec![exact(70, 100) - 1, 1, part(50_000), part(80_000), part(19_000), part(1_000)],
    };
    let sum: u64 = v.iter().sum();
    v.push(total - sum);
    v
}

struct Bench {
    world: World,
    n: usize,
}
impl Bench {
    fn new(seed: u64, size: Size, variant: usize, slashed: u32) -> Self {
        let stakes = stakes((size.balance * ETH) as u64, variant);
        let mut world = World::new(seed, stakes.len(), 0);
        for (i, v) in world.registry.iter_mut() {
            v.effective_balance = stakes[*i];
            v.slashed = slashed >> i & 1 == 1;
        }
        for e in 0..20 {
            world.slots.insert(point(&world, F + e).1, (F + e) * 2);
        }
        Self { n: stakes.len(), world }
    }
    /// Effective balance of the unslashed members of a set.
    fn of(&self, set: u32) -> i128 {
        self.world.registry.iter().filter(|(i, v)| set >> **i & 1 == 1 && !v.slashed).map(|x| x.1.effective_balance as i128).sum()
    }
}
fn point(w: &World, epoch: u64) -> Cp {
    (epoch, val(w.seed, "point", epoch))
}

/// Every chain of links from `F + 1` over at most `max` links that ends with a one-epoch one, none reaching beyond
/// `F + horizon`.
fn chains(horizon: u64, max: usize) -> Vec<Vec<(u64, u64)>> {
    let mut out = vec![];
    let mut todo: Vec<(u64, Vec<(u64, u64)>)> = (F + 1..F + horizon).map(|s| (s, vec![])).collect();
    while let Some((at, c)) = todo.pop() {
        if c.len() == max {
            continue;
        }
        for t in at + 1..=F + horizon {
            let mut d = c.clone();
            d.push((at, t));
            if t == at + 1 {
                out.push(d);
            } else {
                todo.push((t, d));
            }
        }
    }
    out
}

fn explore(ctx: &Ctx, space: &str, size: Size, variant: usize, slashed: u32, horizon: u64, max: usize) {
    let b = Bench::new(ctx.seed, size, variant, slashed);
    let sets = 1u32 << b.n;
    let reach: BTreeMap<u64, BTreeSet<i128>> = BTreeMap::new();
    let reach = std::sync::Mutex::new(reach);
    let votes: BTreeMap<(u64, u64), Vec<Vec<Attestation<Two>>>> = chains(horizon, max)
        .into_iter()
        .flatten()
        .collect::<BTreeSet<_>>()
        .into_iter()
        .map(|l| (l, (0..sets).map(|s| b.world.attest(cp(point(&b.world, l.0)), cp(point(&b.world, l.1)), |i| s >> i & 1 == 1)).collect()))
        .collect();
    for chain in chains(horizon, max) {
        let k = chain.len();
        let state = ConsensusState::new(cp(point(&b.world, chain[0].0)), cp(point(&b.world, F)));
        (0..(sets as u64).pow(k as u32)).into_par_iter().for_each(|x| {
            if ctx.stopped() {
                return;
            }
            let set: Vec<u32> = (0..k).map(|i| (x / (sets as u64).pow(i as u32) % sets as u64) as u32).collect();
            let atts: Vec<_> = (0..k).flat_map(|i| votes[&chain[i]][set[i] as usize].iter()).collect();
            let (got, _) = run(&DEFAULT_CONFIG, &b.world, &state, &atts);
            ctx.eval(got.is_some());
            if got.is_none() {
                return;
            }
            for (l, s) in chain.iter().zip(&set) {
                let n = l.1 - F;
                let mut reach = reach.lock().unwrap();
                let drifts = reach.entry(n).or_insert_with(|| drifts(size, n));
                ctx.transitions.fetch_add(drifts.len() as u64, Relaxed);
                let margin = 3 * b.of(*s) - 2 * size.balance * ETH;
                if let Some(d) = drifts.iter().find(|d| margin + **d < 0) {
                    ctx.violation(space, "drift", || {
                        format!(
                            "{size:?}: with the default configuration the link from epoch {} to {}, {n} epochs after the trusted checkpoint, is accepted with {:.4} % of the \
                             balance of the trusted state, but drift of the documented kind leaves the attesters {} ETH short of two thirds of the balance then",
                            l.0,
                            l.1,
                            100.0 * b.of(*s) as f64 / (size.balance * ETH) as f64,
                            -(margin + d) / 3 / ETH,
                        )
                    });
                    return;
                }
            }
        });
    }
    ctx.sample(|| {
        let r = reach.lock().unwrap();
        json!({"network": format!("{size:?}"), "drifts": r.iter().map(|(n, d)| (n.to_string(), json!([d.len(), d.first().map(|d| (*d / ETH) as i64)]))).collect::<BTreeMap<_, _>>()})
    });
}

pub fn c31(ctx: &'static Ctx) -> ! {
    // the network the documentation computes its guarantee for
    let mainnet = Size { balance: 35_475_927, validators: 1_087_747, slashed: 4_900_000 };
    let horizon = ctx.pick(12, 14);
    ctx.space("documented", || {
        for variant in 0..4 {
            explore(ctx, "documented", mainnet, variant, 0, horizon, 1);
        }
        explore(ctx, "documented", mainnet, 0, 0b10000, horizon, 1);
        explore(ctx, "documented", mainnet, 3, 0b00110, horizon, 1);
    });
    ctx.space("chains", || {
        for variant in 0..ctx.pick(2, 4) {
            explore(ctx, "chains", mainnet, variant, 0, ctx.pick(6, 7), 2);
        }
    });
    ctx.space("sizes", || {
        // other networks, with as much slashing as 85 % leave room for after four epochs (docs: calculate_delta)
        for balance in [8, 16, 20, 30, 40, 50, 60, 80, 100].map(|m| m * 1_000_000i128) {
            for per in [32, 33, 40, 64, 256, 2048] {
                let validators = balance / per;
                let n = 4;
                let end = balance + 256 * n + 48 * n + validators + 128_960 * n;
                let count = validators + 8 * n;
                let delta = 48 * n + n * 2 * 128.max(balance / 65_536 + 1) + (end * n * (n + 1) / 100_663_296 + 1) + (2 * (count + 128_960 * n) / 3 + 1);
                let slashed = balance * 85 / 100 - (2 * balance / 3 + 1) - delta - 2;
                if slashed < 0 {
                    continue;
                }
                for variant in 0..2 {
                    explore(ctx, "sizes", Size { balance, validators, slashed }, variant, 0, ctx.pick(6, 8), 1);
                }
            }
        }
    });
    ctx.finish(
        "model_checking",
        "every set of stake blocks on every link of every chain up to the length and horizon, decided by the real verify with the shipped default configuration; each accepted link against every \
         reachable drift of the documented model; states = accepted inputs, transitions = drift outcomes put against them",
        &["per-epoch bounds of docs/src/02_balance_drift.md hold of the protocol", "idealized BLS and SSZ stand-ins"],
        json!({"networks": 1 + 9 * 6}),
    )
}
