//! C33: the host's reader answers what the served states say, whatever was asked before.
use crate::e2e::parallel;
use crate::sim::*;
use alloy_primitives::B256;
use ethereum_consensus::phase0::{Fork as StateFork, Validator};
use host::host_input_reader::HostInputReader;
use host::mainnet::{BeaconState, ElectraBeaconState};
use host::{CacheStateProvider, StateProvider, StateProviderError, StateRef};
use serde_json::json;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;
use verif_harness::spec::{key, Four, FAR};
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{InputReader, ValidatorInfo};

/// The states served; one request may fail.
struct Served {
    states: BTreeMap<u64, StateRef>,
    fail: Cell<Option<u64>>,
    n: Cell<u64>,
}
impl Served {
    fn new(states: BTreeMap<u64, StateRef>) -> Self {
        Served { states, fail: Cell::new(None), n: Cell::new(0) }
    }
}
impl StateProvider for &Served {
    type Spec = Four;
    fn state_at_slot(&self, slot: z_core::Slot) -> Result<StateRef, StateProviderError> {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.fail.get() == Some(n) {
            return Err(anyhow::anyhow!("broken").into());
        }
        self.states.get(&slot.as_u64()).cloned().ok_or(StateProviderError::NotFound(slot))
    }
}
/// A validator as a state has it, by numbers (the key by its index among the tests' keys).
pub type Row = (u64, u64, u64, u64, bool);
fn row(v: &Validator) -> Row {
    (v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch, v.effective_balance, v.slashed)
}
fn info(v: &ValidatorInfo) -> Row {
    (v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64(), v.exit_epoch.as_u64(), v.effective_balance, v.slashed)
}
const KEYS: usize = 8;
pub fn made(i: usize, (eligible, activation, exit, balance, slashed): Row) -> Validator {
    Validator { activation_eligibility_epoch: eligible, activation_epoch: activation, exit_epoch: exit, effective_balance: balance, slashed, withdrawable_epoch: [FAR, 0, exit, activation][(i ^ i >> 2 ^ i >> 4 ^ i >> 6) & 3], ..validator(i % KEYS) }
}
fn state(seed: u64, epoch: u64, validators: &[Validator], fulu: bool) -> StateRef {
    let mut s = ElectraBeaconState { slot: epoch * SPE, ..Default::default() };
    s.genesis_validators_root = val(seed, "gvr", 0).into();
    // versions and epoch differ from state to state, so that a mix-up shows
    let version = |t: &str| val(seed, t, epoch)[..4].try_into().unwrap();
    s.fork = StateFork { previous_version: version("previous"), current_version: version("current"), epoch: epoch ^ 5 };
    for i in 0..s.randao_mixes.len() {
        s.randao_mixes[i] = val(seed, "mix", epoch << 8 | i as u64).into();
    }
    s.validators = validators.to_vec().try_into().unwrap();
    Arc::new(if fulu { BeaconState::Fulu(fulu_of(&s)) } else { BeaconState::Electra(s) })
}
fn slot_zero(seed: u64) -> (u64, StateRef) {
    (0, state(seed, 0, &[], false))
}
const TRUSTED: u64 = 11;
fn chain(seed: u64) -> Sim {
    Plan::new(seed, 10, 16, 16).build()
}
fn with_reader<'a, P: StateProvider<Spec = Four>, T>(sim: &'a Sim, chain: &'a Chain<'a>, provider: P, f: impl FnOnce(&HostInputReader<Four, P, &'a Chain<'a>>) -> T) -> T {
    let r = futures::executor::block_on(HostInputReader::<Four, _, _>::new(sim.spec.clone(), provider, chain, sim.checkpoint(TRUSTED)));
    match r {
        Ok(r) => f(&r),
        Err(e) => panic!("no reader: {e}"),
    }
}
type List = Vec<(usize, [u8; 48], Row)>;
fn expected(s: &StateRef, epoch: u64) -> List {
    s.validators()
        .iter()
        .enumerate()
        .filter(|(_, v)| v.activation_epoch <= epoch && epoch < v.exit_epoch)
        .map(|(i, v)| (i, v.public_key.as_ref().try_into().unwrap(), row(v)))
        .collect()
}
fn listed<R: InputReader>(r: &R, epoch: u64, take: usize) -> Result<List, String>
where
    R::Error: std::fmt::Display,
{
    let flat = guard(|| r.active_validators(epoch.into()).map(|it| it.take(take).map(|(i, v)| (i, v.pubkey.serialize(), info(v))).collect::<List>()).map_err(|e| e.to_string()));
    flat.unwrap_or_else(|p| Err(format!("panic: {p}")))
}
fn differ(got: &Result<List, String>, want: &List) -> String {
    match got {
        Err(e) => e.clone(),
        Ok(g) => match g.iter().zip(want).find(|(a, b)| a != b) {
            Some((a, b)) => format!("{:?} instead of {:?}", (a.0, a.2), (b.0, b.2)),
            None => format!("{} validators instead of {}", g.len(), want.len()),
        },
    }
}

/// One question to the reader.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ask {
    Active(u64),
    /// only the first of them
    First(u64),
    Mix(u64, u32),
    Fork(u64),
    Genesis,
    Slot(u64),
    Stranger,
    Start,
    State(u64),
}
/// The answer, as text; `Err` for an error.
fn answer<R: InputReader<Spec = Four> + StateProvider>(r: &R, sim: &Sim, a: Ask) -> Result<String, String>
where
    R::Error: std::fmt::Display,
{
    let text = |e: R::Error| e.to_string();
    let got = guard(|| match a {
        Ask::Active(e) => listed(r, e, usize::MAX).map(|l| format!("{l:?}")),
        Ask::First(e) => listed(r, e, 1).map(|l| format!("{l:?}")),
        Ask::Mix(e, i) => r.randao_mix(e.into(), i).map(|m| format!("{m:?}")).map_err(text),
        Ask::Fork(e) => InputReader::fork(r, e.into()).map(|f| format!("{:?}", (f.previous_version, f.current_version, f.epoch.as_u64()))).map_err(text),
        Ask::Genesis => InputReader::genesis_validators_root(r).map(|g| format!("{g:?}")).map_err(text),
        Ask::Slot(s) => r.slot_for_block(&sim.roots[&s]).map(|s| s.to_string()).map_err(text),
        Ask::Stranger => r.slot_for_block(&val(3, "stranger", 0).into()).map(|s| s.to_string()).map_err(text),
        Ask::Start => r.consensus_state().map(|s| format!("{s:?}")).map_err(text),
        Ask::State(s) => r.state_at_slot(s.into()).map(|s| format!("{:?}", (s.slot(), s.fork().epoch))).map_err(|e| e.to_string()),
    });
    got.unwrap_or_else(|p| Err(format!("panic: {p}")))
}
fn truth(served: &Served, sim: &Sim, a: Ask) -> Option<String> {
    let at = |e: u64| served.states.get(&(e * SPE));
    Some(match a {
        Ask::Active(e) => format!("{:?}", expected(at(e)?, e)),
        Ask::First(e) => format!("{:?}", expected(at(e)?, e).into_iter().take(1).collect::<List>()),
        Ask::Mix(e, i) => format!("{:?}", at(e)?.randao_mixes().get(i as usize).map(|m| B256::from_slice(m.as_ref()))),
        Ask::Fork(e) => {
            let f = at(e)?.fork();
            format!("{:?}", (f.previous_version, f.current_version, f.epoch))
        }
        Ask::Genesis => format!("{:?}", served.states[&0].genesis_validators_root()),
        Ask::Slot(s) => s.to_string(),
        Ask::Stranger => return None,
        Ask::Start => {
            let first = (TRUSTED + 1..).find(|e| sim.consensus(e * SPE).is_some_and(|c| c.finalized_checkpoint() == sim.checkpoint(TRUSTED)))?;
            format!("{:?}", sim.consensus(first * SPE)?)
        }
        Ask::State(s) => served.states.get(&s).map(|x| format!("{:?}", (x.slot(), x.fork().epoch)))?,
    })
}

pub fn run(ctx: &'static Ctx) -> ! {
    let sim = chain(ctx.seed);
    let sim = &sim;
    let deep = ctx.pick(0, 1) == 1;
    ctx.space("validators", || {
        let epochs: Vec<u64> = if deep { (0..12).map(|i| if i < 8 { i } else { 1 << (4 * i + 14) }).chain([(FAR >> 2) - 1]).collect() } else { vec![0, 1, 2, 12, 1 << 40, (FAR >> 2) - 1] };
        parallel(ctx, epochs.len() * 4, |k| {
            let (e, fulu, back) = (epochs[k / 4], k & 1 == 1, k & 2 == 2);
            let mut around = vec![0, e.saturating_sub(2), e.saturating_sub(1), e, e + 1, e + 2, FAR - 1, FAR];
            around.sort();
            around.dedup();
            let mut rows: Vec<Row> = vec![];
            for &eligible in &around {
                for &activation in &around {
                    for &exit in &around {
                        for balance in [0, 1, 32_000_000_000, u64::MAX] {
                            for slashed in [false, true] {
                                rows.push((eligible, activation, exit, balance, slashed));
                            }
                        }
                    }
                }
            }
            if back {
                rows.reverse();
            }
            let all: Vec<Validator> = rows.iter().enumerate().map(|(i, r)| made(i, *r)).collect();
            // all together, and small registries, where a mistake with indices cannot hide in the order
            let mut registries = vec![all.clone()];
            registries.extend(all.chunks(1).step_by(if deep { 1 } else { 5 }).map(|c| c.to_vec()));
            registries.extend(all.chunks(3).step_by(if deep { 1 } else { 7 }).map(|c| c.to_vec()));
            registries.push(vec![]);
            let base = state(ctx.seed, e, &[], false);
            let BeaconState::Electra(base) = &*base else { unreachable!() };
            let one = chain_view(sim);
            for reg in registries {
                let mut s = base.clone();
                s.validators = reg.try_into().unwrap();
                let s: StateRef = Arc::new(if fulu { BeaconState::Fulu(fulu_of(&s)) } else { BeaconState::Electra(s) });
                let want = expected(&s, e);
                let served = Served::new([slot_zero(ctx.seed), (e * SPE, s.clone())].into());
                with_reader(sim, &one, &served, |r| {
                    for again in 0..2 {
                        let got = listed(r, e, usize::MAX);
                        ctx.eval(!want.is_empty());
                        ctx.check(got.as_ref() == Ok(&want), "validators", "registry", || format!("epoch {e}, {} validators, fulu {fulu}, asked {}: {}", s.validators().len(), again + 1, differ(&got, &want)));
                    }
                });
            }
        });
    });
    ctx.space("mixes", || {
        let epochs: Vec<u64> = vec![0, 1, 2, 11, 12, 15, 16, 17, 1 << 40];
        for fulu in [false, true] {
            let served = Served::new(epochs.iter().map(|e| (e * SPE, state(ctx.seed, *e, &[validator(0)], fulu))).collect());
            let one = chain_view(sim);
            with_reader(sim, &one, &served, |r| {
                for e in epochs.iter().copied().chain([3, 13]) {
                    for i in (0..40).chain((3..32).map(|b| 1u32 << b)).chain([u32::MAX, 65_535, 65_537]) {
                        let (got, want) = (answer(r, sim, Ask::Mix(e, i)), truth(&served, sim, Ask::Mix(e, i)));
                        ctx.eval(true);
                        ctx.check(got.as_ref().ok() == want.as_ref(), "mixes", "mix", || format!("epoch {e}, place {i}: {got:?} instead of {want:?}"));
                    }
                    for a in [Ask::Fork(e), Ask::Active(e), Ask::State(e * SPE), Ask::State(e * SPE + 1)] {
                        let (got, want) = (answer(r, sim, a), truth(&served, sim, a));
                        ctx.eval(true);
                        ctx.check(got.as_ref().ok() == want.as_ref(), "mixes", "state", || format!("{a:?}: {got:?} instead of {want:?}"));
                    }
                }
            });
        }
    });
    ctx.space("histories", || {
        // every sequence of questions, with any one of the requests for states failing
        let rows = |e: u64| -> Vec<Validator> { (0..5).map(|i| made(i, (i as u64, e + 1 - (i as u64 & 1), e + i as u64, 32 << 30 | e << 4 | i as u64, i == 3))).collect() };
        let states: BTreeMap<u64, StateRef> = [0u64, 1, 12, 13].iter().map(|e| (e * SPE, state(ctx.seed, *e, &rows(*e), *e == 13))).collect();
        let slot = *sim.blocks.keys().nth(3).unwrap();
        let asks = [Ask::Active(12), Ask::Active(13), Ask::Active(14), Ask::First(12), Ask::Mix(12, 3), Ask::Mix(13, 3), Ask::Mix(12, 16), Ask::Fork(12), Ask::Fork(13), Ask::Genesis, Ask::Slot(slot), Ask::Stranger, Ask::Start, Ask::State(48), Ask::State(49)];
        let depth = ctx.pick(4, 5);
        let (n, total) = (asks.len(), asks.len().pow(depth as u32));
        parallel(ctx, total * 2, |k| {
            let cached = k % 2 == 1;
            let mut left = k / 2;
            let seq: Vec<Ask> = (0..depth)
                .map(|_| {
                    let a = asks[left % n];
                    left /= n;
                    a
                })
                .collect();
            for fail in [None, Some(0), Some(1), Some(2)] {
                let served = Served::new(states.clone());
                served.fail.set(fail);
                let one = chain_view(sim);
                let judge = |i: usize, got: Result<String, String>, before: u64| {
                    let a = seq[i];
                    let failed = fail.is_some_and(|f| before <= f && f < served.n.get());
                    let want = truth(&served, sim, a);
                    ctx.eval(true);
                    // a question whose request failed is not answered; every other one is, and right
                    let good = if failed { got.is_err() } else { got.as_ref().ok() == want.as_ref() };
                    ctx.check(good, "histories", if failed { "failure ignored" } else { "answer" }, || format!("{seq:?} (cache {cached}, failing request {fail:?}): the answer to no. {} is {got:?} instead of {want:?}", i + 1));
                };
                let all = |f: &dyn Fn(Ask) -> Result<String, String>| {
                    for (i, a) in seq.iter().enumerate() {
                        let before = served.n.get();
                        judge(i, f(*a), before);
                    }
                };
                if cached {
                    with_reader(sim, &one, CacheStateProvider::new(&served), |r| all(&|a| answer(r, sim, a)));
                } else {
                    with_reader(sim, &one, &served, |r| all(&|a| answer(r, sim, a)));
                }
            }
        });
    });
    ctx.space("broken keys", || {
        // an active validator whose key is none is never left out or replaced
        let good: [u8; 48] = key(1).public_key().serialize();
        let mut broken: Vec<[u8; 48]> = vec![[0; 48], [0xff; 48]];
        broken.extend([0usize, 1, 24, 47].into_iter().flat_map(|b| [1u8, 0x80].map(|x| {
            let mut k = good;
            k[b] ^= x;
            k
        })));
        for (k, at) in broken.iter().enumerate().flat_map(|(k, _)| (0..4).map(move |a| (k, a))) {
            for active in [true, false] {
                for fulu in [false, true] {
                    let mut reg: Vec<Validator> = (0..4).map(|i| made(i, (0, 0, FAR, 32, false))).collect();
                    reg[at].public_key = broken[k].as_slice().try_into().unwrap();
                    if !active {
                        reg[at].activation_epoch = 99;
                    }
                    let s = state(ctx.seed, 12, &reg, fulu);
                    let want = expected(&s, 12);
                    let served = Served::new([(48, s)].into());
                    let one = chain_view(sim);
                    with_reader(sim, &one, &served, |r| {
                        for _ in 0..2 {
                            let got = listed(r, 12, usize::MAX);
                            ctx.eval(active);
                            // a key that happens to be one is the validator's; others are refused
                            ctx.check(got.is_err() || got.as_ref() == Ok(&want), "broken keys", "key", || format!("key {k} of validator {at} (active {active}): {}", differ(&got, &want)));
                        }
                    });
                }
            }
        }
    });
    ctx.finish(
        "exploration",
        "every combination of a validator's epochs around the epoch asked for (and the extremes), balances and slashing, together and in registries of one and three; every place of the mixes; every sequence of questions over present and missing states with any one request failing, with and without a cache; malformed keys; non-trivial = there are active validators to list",
        &["a state's contents are put there directly, after the specification's field names; keys, hashes and containers are stand-ins"],
        json!({}),
    )
}
fn chain_view(sim: &Sim) -> Chain<'_> {
    Chain::new(sim)
}
