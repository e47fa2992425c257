//! C20: whatever the host accepts, the guest accepts, with the same result.
use crate::sim::*;
use host::host_input_reader::HostInputReader;
use host::preflight_input_reader::PreflightInputReader;
use host::CacheStateProvider;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use verif_harness::spec::{default_config, Four};
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{Config, ConsensusState, GuestInput};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    HostRefuses(String),
    /// what the host found, and what came of the input made of it
    Accepted { host: (ConsensusState, u64), guest: Result<(ConsensusState, u64), String> },
}
fn flat<T>(r: Result<anyhow::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
pub fn attempt(cfg: &Config, sim: &Sim, epoch: u64) -> Outcome {
    let trusted = sim.checkpoint(epoch);
    let chain = Chain::new(sim);
    let reader = match flat(guard(|| {
        Ok(futures::executor::block_on(HostInputReader::<Four, _, _>::new(
            sim.spec.clone(),
            CacheStateProvider::new(&chain),
            &chain,
            trusted,
        ))?)
    })) {
        Ok(r) => r,
        Err(e) => return Outcome::HostRefuses(format!("collecting: {e}")),
    };
    let preflight = PreflightInputReader::new(&reader, &chain, trusted);
    let host = match flat(guard(|| Ok(z_core::verify(cfg, &preflight)?))) {
        Ok(x) => x,
        Err(e) => return Outcome::HostRefuses(format!("preflight: {e}")),
    };
    let guest = (|| {
        let input = flat(guard(|| preflight.to_input())).map_err(|e| format!("host: {e}"))?;
        let bytes = flat(guard(|| Ok(bincode::serialize(&input)?))).map_err(|e| format!("encoding: {e}"))?;
        flat(guard(|| {
            let input: GuestInput<Four> = bincode::deserialize(&bytes)?;
            let reader = input.into_reader(sim.spec.clone())?;
            Ok(z_core::verify(cfg, &reader)?)
        }))
        .map_err(|e| format!("guest: {e}"))
    })();
    Outcome::Accepted { host, guest }
}

/// The first epoch in which the chain has the checkpoint of `epoch` finalized, and the states from there to the next.
pub fn course(sim: &Sim, epoch: u64) -> Option<Vec<ConsensusState>> {
    let trusted = sim.checkpoint(epoch);
    let mut out: Vec<ConsensusState> = vec![];
    for e in epoch + 1.. {
        let s = sim.consensus(e * SPE)?;
        if out.is_empty() && s.finalized_checkpoint() != trusted {
            continue;
        }
        out.push(s);
        if out.last().unwrap().finalized_checkpoint() != trusted {
            return Some(out);
        }
    }
    None
}
/// Why a mismatch is one of the recorded findings, if it is.
fn finding(sim: &Sim, t: u64, host: &ConsensusState) -> &'static str {
    let slot = *sim.blocks.range(..=t * SPE).next_back().unwrap().0;
    let last = host.current_justified_checkpoint().epoch().as_u64();
    let trusted = &sim.states[&slot];
    let seen = &sim.states[&(last * SPE)];
    if slot < t * SPE {
        for (a, b) in trusted.validators().iter().zip(seen.validators().iter()) {
            if a.activation_epoch != b.activation_epoch && b.activation_epoch <= last {
                return "activation decided before an empty boundary slot";
            }
        }
    }
    "mismatch"
}

pub struct Stats {
    outcomes: Mutex<BTreeMap<String, u64>>,
}
impl Stats {
    fn note(&self, s: &str) {
        *self.outcomes.lock().unwrap().entry(s.into()).or_default() += 1;
    }
}
fn judge(ctx: &Ctx, st: &Stats, cfg: &Config, space: &str, plan: &Plan, sim: &Sim, t: u64, ordinary: bool) {
    let out = attempt(cfg, sim, t);
    let what = || {
        format!(
            "trusted epoch {t}; empty {:?}; votes {:?}; events {:?}; fulu {:?}; registry overrides {:?}",
            plan.empty,
            plan.part,
            plan.events,
            plan.spec.fulu_fork_epoch,
            plan.registry
                .iter()
                .enumerate()
                .filter(|(i, v)| **v != validator(*i))
                .map(|(i, v)| (i, v.effective_balance, v.slashed, v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch))
                .collect::<Vec<_>>()
        )
    };
    match out {
        Outcome::HostRefuses(e) => {
            ctx.eval(false);
            st.note(&format!("host refuses: {}", e.chars().take_while(|c| !c.is_ascii_digit()).collect::<String>()));
            if ordinary {
                ctx.violation(space, "ordinary", || format!("{}: the host refuses an ordinary chain: {e}", what()));
            }
        }
        Outcome::Accepted { host, guest } => {
            ctx.eval(true);
            st.note("accepted");
            let Some(course) = course(sim, t) else {
                ctx.violation(space, "no finalization", || format!("{}: accepted {host:?} though the chain never gets there", what()));
                return;
            };
            let end = course.last().unwrap();
            let slot = sim.headers.get(&end.finalized_checkpoint().root()).map(|h| h.message.slot);
            if host.0 != *end || Some(host.1) != slot {
                ctx.violation(space, "host result", || format!("{}: host says {host:?}, the chain {end:?} at {slot:?}", what()));
            }
            if guest.as_ref() != Ok(&host) {
                let key = finding(sim, t, &host.0);
                ctx.violation(space, key, || format!("{}: the host accepts with {host:?}, the guest says {guest:?}", what()));
            }
        }
    }
}

const BASE: u64 = 10;
const T: u64 = 12;
fn plan(ctx: &Ctx, n: usize) -> Plan {
    Plan::new(ctx.seed, BASE, T + 6, n)
}
/// Shapes of the way to the next finalization: directly, or with an epoch that is not justified.
const GAPS: [&[(u64, Part)]; 3] = [&[], &[(T + 2, Part::Few)], &[(T + 2, Part::Elsewhere)]];
const EMPTY: [&[u64]; 5] = [&[], &[T * SPE], &[T * SPE, T * SPE - 1], &[T * SPE, T * SPE + 1], &[(T + 2) * SPE, (T + 4) * SPE]];

/// Runs `f` for every index on all processors, outside rayon's pool (the code under test uses that).
pub fn parallel(ctx: &Ctx, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n || ctx.stopped() {
                    break;
                }
                f(i);
            });
        }
    });
}
/// The `i`-th tuple of a mixed-radix space.
fn digits<const N: usize>(mut i: usize, radix: [usize; N]) -> [usize; N] {
    radix.map(|r| {
        let d = i % r;
        i /= r;
        d
    })
}
fn space<const N: usize>(ctx: &Ctx, st: &Stats, name: &str, trusted: &[u64], radix: [usize; N], make: impl Fn([usize; N], &mut Plan) -> bool + Sync) {
    let cfg = default_config();
    ctx.space(name, || {
        parallel(ctx, radix.iter().product(), |i| {
            let mut p = plan(ctx, 16);
            let ordinary = make(digits(i, radix), &mut p);
            let sim = p.build();
            for t in trusted {
                judge(ctx, st, &cfg, name, &p, &sim, *t, ordinary);
            }
        })
    });
}

pub fn run(ctx: &'static Ctx) -> ! {
    let st = Stats { outcomes: Default::default() };
    let low = 16_000_000_000;
    let kinds = [
        vec![Event::Exit(3)],
        vec![Event::Slash(3)],
        vec![Event::Consolidate(3)],
        vec![Event::Deposit],
        vec![Event::Balance(3, low)],
        vec![Event::Exit(2), Event::Exit(3), Event::Exit(5), Event::Exit(7), Event::Exit(8)],
    ];
    let slots = (T + 5 - BASE) * SPE;
    space(ctx, &st, "one event", &[T], [kinds.len(), slots as usize, GAPS.len(), EMPTY.len()], |[k, s, g, e], p| {
        p.events = kinds[k].iter().map(|x| (BASE * SPE + s as u64, *x)).collect();
        p.part.extend(GAPS[g].iter().copied());
        p.empty.extend(EMPTY[e]);
        GAPS[g].is_empty() && k != 1
    });
    // a validator on its way in or out when the chain begins
    let far = verif_harness::spec::FAR;
    let mut lives = vec![];
    for elig in (BASE - 2..T + 5).chain([far]) {
        lives.push((elig, far, far));
    }
    for act in BASE..T + 6 {
        lives.push((1, act, far));
    }
    for exit in BASE..T + 7 {
        lives.push((0, 0, exit));
    }
    space(ctx, &st, "one life", &[T], [lives.len(), GAPS.len(), EMPTY.len(), 2], |[l, g, e, q], p| {
        let v = &mut p.registry[5];
        (v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch) = lives[l];
        p.part.extend(GAPS[g].iter().copied());
        p.empty.extend(EMPTY[e]);
        p.earliest_exit = [0, T + 7][q];
        GAPS[g].is_empty()
    });
    let several = [Event::Exit(3), Event::Slash(3), Event::Consolidate(3), Event::Deposit, Event::Balance(3, low)];
    let others = [Event::Exit(6), Event::Slash(6), Event::Consolidate(6), Event::Balance(6, low), Event::Exit(3), Event::Consolidate(3)];
    let epochs = (T + 5 - BASE) as usize;
    space(ctx, &st, "two events", &[T], [several.len(), epochs, others.len(), epochs, 2, 2, ctx.pick(1, 2)], |[a, x, b, y, g, e, q], p| {
        p.events = vec![(BASE * SPE + 4 * x as u64 + 1, several[a]), (BASE * SPE + 4 * y as u64 + 2, others[b])];
        p.part.extend(GAPS[g].iter().copied());
        p.empty.extend(EMPTY[e]);
        p.earliest_exit = [0, T + 7][q];
        GAPS[g].is_empty() && a != 1 && b != 1
    });
    // a queue of exits deeper than that of consolidations
    let deep = [vec![Event::Exit(3)], vec![Event::Consolidate(3)], vec![Event::Exit(3), Event::Consolidate(6)], vec![Event::Slash(3)], vec![Event::Balance(3, low)]];
    space(ctx, &st, "exit queue", &[T], [deep.len(), 4, deep.len(), 4, 3, 2], |[a, x, b, y, q, g], p| {
        let at = |s: usize| (T + s as u64) * SPE + 1;
        p.events = deep[a].iter().map(|e| (at(x), *e)).collect();
        p.events.extend(deep[b].iter().map(|e| match e {
            Event::Exit(3) => Event::Exit(7),
            Event::Consolidate(3) => Event::Consolidate(8),
            Event::Consolidate(6) => Event::Consolidate(9),
            Event::Slash(3) => Event::Slash(7),
            Event::Balance(3, l) => Event::Balance(7, *l),
            e => *e,
        }).map(|e| (at(y), e)));
        p.earliest_exit = [T + 7, T + 9, T + 12][q];
        p.part.extend(GAPS[1 - g].iter().copied());
        false
    });
    // every subset of slots around the trusted, the justified and the following boundaries is empty
    let slots = [T * SPE - 2, T * SPE - 1, T * SPE, T * SPE + 1, T * SPE + 2, (T + 1) * SPE, (T + 1) * SPE + 1, (T + 2) * SPE, (T + 2) * SPE + 1, (T + 4) * SPE];
    space(ctx, &st, "empty slots", &[T], [1 << slots.len(), 2, ctx.pick(2, 4)], |[m, g, k], p| {
        p.empty.extend(slots.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, s)| *s));
        p.part.extend(GAPS[g].iter().copied());
        p.events = match k {
            0 => vec![(T * SPE, Event::Exit(3)), ((T + 1) * SPE, Event::Consolidate(4)), ((T - 2) * SPE, Event::Deposit)],
            1 => vec![((T - 1) * SPE, Event::Balance(3, low)), (T * SPE, Event::Slash(2))],
            2 => vec![(T * SPE, Event::Balance(3, low)), ((T - 1) * SPE, Event::Deposit), ((T + 2) * SPE, Event::Exit(7))],
            _ => vec![],
        };
        g == 0 && k != 1
    });
    // how every epoch around the trusted one votes
    let parts = [Part::All, Part::Few, Part::Late(0), Part::Late(2), Part::Elsewhere];
    let n = parts.len();
    space(ctx, &st, "votes", &[T - 1, T, T + 1], [n, n, n, n, n, ctx.pick(1, 3)], |k, p| {
        for i in 0..5 {
            p.part.insert(T - 1 + i as u64, parts[k[i]]);
        }
        p.overlapping = k[5] == 1;
        p.events = vec![((T + 1) * SPE, Event::Exit(3))];
        if k[5] == 2 {
            p.spec.fulu_fork_epoch = Some((T + 2).into());
            p.empty.insert((T + 2) * SPE);
        }
        k.iter().take(5).all(|x| *x == 0)
    });
    // the place of the fork, the number of validators, and aggregates that overlap
    space(ctx, &st, "fork", &[T], [10, EMPTY.len(), GAPS.len(), 2, 4], |[f, e, g, o, n], p| {
        p.registry = (0..[5, 16, 23, 40][n]).map(validator).collect();
        p.spec.fulu_fork_epoch = (f > 0).then_some((BASE - 1 + f as u64).into());
        p.empty.extend(EMPTY[e]);
        p.part.extend(GAPS[g].iter().copied());
        p.overlapping = o == 1;
        g == 0 && n > 0
    });
    // validators of other weights, and such that are slashed but not gone yet; thresholds that are met just with or without them
    let shares = [(2u64, 3u64), (70, 100), (3, 4), (80, 100), (85, 100), (7, 8), (15, 16), (1, 1)];
    enum When {
        Never,
        Before,
        In(u64),
    }
    let when = [When::Never, When::Before, When::In(T - 1), When::In(T), When::In(T + 1), When::In(T + 2)];
    ctx.space("slashed", || {
        let radix = [6usize, when.len(), 5, 3, 2];
        parallel(ctx, radix.iter().product(), |i| {
            let [k, at, weight, part, g] = digits(i, radix);
            let mut p = plan(ctx, 16);
            // from one to five of them, everywhere in the registry, with the balance of the others or more or less
            for v in (0..k).map(|j| (3 * j + 2) % 16) {
                p.registry[v].effective_balance = [32, 40, 20, 100, 500][weight] * 1_000_000_000;
                match when[at] {
                    When::Never => {}
                    When::Before => (p.registry[v].slashed, p.registry[v].exit_epoch) = (true, T + 9),
                    When::In(e) => p.events.push((e * SPE + 1, Event::Slash(v))),
                }
            }
            for e in BASE..T + 6 {
                if part > 0 {
                    p.part.insert(e, [Part::All, Part::Most, Part::Late(0)][part]);
                }
            }
            p.part.extend(GAPS[g].iter().copied());
            let sim = p.build();
            for (f, q) in shares {
                let cfg = verif_harness::spec::config(beacon_types::ForkName::Electra, beacon_types::ForkName::Fulu, 4, f, q);
                judge(ctx, &st, &cfg, "slashed", &p, &sim, T, k == 0 && part == 0 && g == 0);
            }
        })
    });
    let outcomes = st.outcomes.lock().unwrap().clone();
    ctx.finish(
        "exploration",
        "every chain of the stated plans (registry events and life cycles at every epoch or slot, votes per epoch, empty slots, fork position, validator counts, slashed validators and thresholds) is simulated with signed blocks; the host collects, verifies and encodes, the guest's reader decodes and verifies: whenever the host accepts, its result must be the chain's own next finalization and the guest's result must be the same; on chains in which everyone votes in time and nobody is slashed the host must accept; non-trivial = accepted by the host",
        &[
            "the chain simulator follows the consensus specification for committees, votes, justification, finalization, registry updates, exits and consolidations",
            "effective balances do not change, apart from a cut that leads to an ejection",
            "lighthouse, ethereum-consensus and risc0 types are the stand-ins in shims/",
        ],
        json!({"outcomes": outcomes}),
    );
}
