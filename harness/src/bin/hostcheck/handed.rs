//! C34: the input handed to the guest holds what was read, and nothing else.
use crate::e2e::parallel;
use crate::reader::{made, Row};
use crate::sim::*;
use alloy_primitives::B256;
use ethereum_consensus::phase0::{BeaconBlockHeader, Checkpoint as StateCheckpoint, SignedBeaconBlockHeader, Validator};
use ethereum_consensus::types::mainnet::BeaconBlock as AnyBlock;
use host::host_input_reader::HostInputReader;
use host::mainnet::{BeaconState, ElectraBeaconState};
use host::preflight_input_reader::PreflightInputReader;
use host::{StateProvider, StateProviderError, StateRef};
use serde_json::json;
use ssz_rs::HashTreeRoot;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::sync::Arc;
use verif_harness::spec::{tiny_spec, Four, FAR};
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{Checkpoint, ConsensusState, GuestInput, InputReader, StatePatch};

const T: u64 = 12;
/// A chain of which only what the host asks for exists: states put together at will, and some headers.
struct World {
    trusted: Checkpoint,
    states: BTreeMap<u64, StateRef>,
    headers: BTreeMap<B256, SignedBeaconBlockHeader>,
    requests: Cell<u64>,
    fail: Cell<Option<u64>>,
}
impl World {
    fn request(&self) -> anyhow::Result<()> {
        let n = self.requests.get();
        self.requests.set(n + 1);
        anyhow::ensure!(self.fail.get() != Some(n), "broken");
        Ok(())
    }
}
impl host::ChainReader for &World {
    async fn get_block_header(&self, id: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        self.request()?;
        Ok(self.headers.get(&id.to_string().parse::<B256>()?).cloned())
    }
    async fn get_block(&self, _: impl Display) -> anyhow::Result<Option<AnyBlock>> {
        Ok(None)
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<ConsensusState> {
        let epoch = id.to_string().parse::<u64>()? / SPE;
        let c = |e: u64| Checkpoint::new(e.into(), val(5, "checkpoint", e).into());
        Ok(match epoch {
            0..=13 => ConsensusState::new(c(T - 1), c(T - 2)),
            14 => ConsensusState::new(c(T + 1), self.trusted),
            _ => ConsensusState::new(c(T + 2), c(T + 1)),
        })
    }
}
impl StateProvider for &World {
    type Spec = Four;
    fn state_at_slot(&self, slot: z_core::Slot) -> Result<StateRef, StateProviderError> {
        self.request()?;
        self.states.get(&slot.as_u64()).cloned().ok_or(StateProviderError::NotFound(slot))
    }
}
fn electra(seed: u64, slot: u64, validators: Vec<Validator>) -> ElectraBeaconState {
    let mut s = ElectraBeaconState { slot, ..Default::default() };
    s.genesis_validators_root = val(seed, "gvr", 0).into();
    s.fork = fork(&tiny_spec(), slot / SPE);
    for i in 0..s.randao_mixes.len() {
        s.randao_mixes[i] = val(seed, "mix", slot << 8 | i as u64).into();
    }
    s.validators = validators.try_into().unwrap();
    s.finalized_checkpoint = StateCheckpoint { epoch: T - 2, root: val(seed, "finalized", 0).into() };
    s
}
fn wrapped(s: ElectraBeaconState, fulu: bool) -> StateRef {
    Arc::new(if fulu { BeaconState::Fulu(fulu_of(&s)) } else { BeaconState::Electra(s) })
}
fn header(seed: u64, slot: u64) -> BeaconBlockHeader {
    BeaconBlockHeader { slot, proposer_index: 3, parent_root: val(seed, "parent", slot).into(), state_root: B256::ZERO, body_root: val(seed, "body", slot).into() }
}
/// How many blocks besides the trusted one there are.
const BLOCKS: u64 = 3;
fn other(seed: u64, i: u64) -> (B256, u64) {
    let mut h = header(seed, [T * SPE + 1, 7 << 40, 0][i as usize % 3]);
    h.state_root = val(seed, "state", i).into();
    (h.hash_tree_root().unwrap(), h.slot)
}
/// The registries at `T`, `T + 1`, `T + 2`; the trusted block lies `back` slots before the start of `T`.
fn world(seed: u64, registries: [Vec<Validator>; 3], back: u64, fulu: bool) -> World {
    let at = T * SPE - back;
    let [first, second, third] = registries;
    let mut trusted = electra(seed, at, first.clone());
    trusted.latest_block_header = header(seed, at);
    let block = trusted.latest_block_header.clone();
    let trusted = wrapped(trusted, fulu);
    let mut root = block.clone();
    root.state_root = trusted.hash_tree_root().unwrap();
    let mut states: BTreeMap<u64, StateRef> = BTreeMap::new();
    for (e, reg) in [(T, first), (T + 1, second), (T + 2, third)] {
        let mut s = electra(seed, e * SPE, reg);
        s.latest_block_header = root.clone();
        states.insert(e * SPE, wrapped(s, fulu));
    }
    states.insert(at, trusted);
    let mut earlier = electra(seed, (T - 1) * SPE, vec![made(0, (0, 0, FAR, 32, false))]);
    earlier.latest_block_header = header(seed, (T - 1) * SPE);
    states.insert((T - 1) * SPE, wrapped(earlier, fulu));
    states.insert(0, wrapped(electra(seed, 0, vec![]), false));
    let root = root.hash_tree_root().unwrap();
    let mut headers = BTreeMap::new();
    for i in 0..BLOCKS {
        let (r, slot) = other(seed, i);
        let message = BeaconBlockHeader { state_root: val(seed, "state", i).into(), ..header(seed, slot) };
        headers.insert(r, SignedBeaconBlockHeader { message, signature: Default::default() });
    }
    World { trusted: Checkpoint::new(T.into(), root), states, headers, requests: Cell::new(0), fail: Cell::new(None) }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Read {
    Active(u64),
    /// the list is asked for but not looked at
    Untouched(u64),
    Mix(u64, u32),
    Slot(u64),
    Stranger,
    Start,
    Fork(u64),
}
/// A reader's answer to one read.
fn asked<R: InputReader<Spec = Four>>(x: &R, seed: u64, r: Read) -> Result<String, String>
where
    R::Error: Display,
{
    let got = guard(|| match r {
        Read::Active(e) => x.active_validators(e.into()).map(|l| format!("{:?}", l.map(|(i, v)| (i, v.pubkey.serialize(), v.effective_balance, v.slashed, v.exit_epoch)).collect::<Vec<_>>())),
        Read::Untouched(e) => x.active_validators(e.into()).map(|_| String::new()),
        Read::Mix(e, i) => x.randao_mix(e.into(), i).map(|m| format!("{m:?}")),
        Read::Slot(i) => x.slot_for_block(&other(seed, i).0).map(|s| s.to_string()),
        Read::Stranger => x.slot_for_block(&val(3, "stranger", 0).into()).map(|s| s.to_string()),
        Read::Start => x.consensus_state().map(|s| format!("{s:?}")),
        Read::Fork(e) => x.fork(e.into()).map(|f| format!("{f:?}")),
    });
    match got {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn exits(from: &StateRef, to: &StateRef) -> BTreeMap<usize, u64> {
    from.validators().iter().zip(to.validators().iter()).enumerate().filter(|(_, (a, b))| a.exit_epoch != b.exit_epoch).map(|(i, (_, b))| (i, b.exit_epoch)).collect()
}
type Plain = BTreeMap<u64, (BTreeMap<u32, B256>, BTreeMap<usize, u64>)>;
fn plain(input: &GuestInput<Four>) -> Plain {
    let one = |p: &StatePatch| (p.randao_mixes.iter().map(|(i, m)| (*i, *m)).collect(), p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect());
    input.patches.iter().map(|(e, p)| (e.as_u64(), one(p))).collect()
}
/// What is to be handed over after successful reads.
fn due(w: &World, back: u64, reads: &BTreeSet<Read>) -> Plain {
    let mut out = Plain::new();
    for r in reads {
        match *r {
            Read::Mix(e, i) => {
                if let Some(m) = w.states[&(e * SPE)].randao_mixes().get(i as usize) {
                    out.entry(e).or_default().0.insert(i, B256::from_slice(m.as_ref()));
                }
            }
            Read::Active(e) | Read::Untouched(e) if e > T => out.entry(e).or_default().1 = exits(&w.states[&(T * SPE - back)], &w.states[&(e * SPE)]),
            _ => {}
        }
    }
    out
}
/// Empty patches say nothing; whether they are there makes no difference.
fn without_empty(p: Plain) -> Plain {
    p.into_iter().filter(|(_, (m, x))| !m.is_empty() || !x.is_empty()).collect()
}

/// Reads through the preflight and compares the input made of it. With `guest`, the guest's reader must also say at `T`
/// what the state says.
fn judge(ctx: &Ctx, space: &str, w: &World, seed: u64, back: u64, reads: &[Read], guest: bool, what: &dyn Fn() -> String) {
    let reader = match guard(|| futures::executor::block_on(HostInputReader::<Four, _, _>::new(tiny_spec(), w, w, w.trusted))) {
        Ok(Ok(r)) => r,
        e => return ctx.violation(space, "no reader", || format!("{}: {:?}", what(), e.map(|r| r.err().map(|e| e.to_string())))),
    };
    let preflight = PreflightInputReader::new(&reader, w, w.trusted);
    let mut done = BTreeSet::new();
    let log: RefCell<Vec<String>> = Default::default();
    for r in reads {
        // without failures both readers can be asked; a failure hits the preflight alone
        let before = w.requests.get();
        let own = if w.fail.get().is_none() { asked(&reader, seed, *r) } else { Ok(String::new()) };
        let got = asked(&preflight, seed, *r);
        ctx.eval(true);
        let failed = w.fail.get().is_some_and(|f| before <= f && f < w.requests.get());
        let refusable = match *r {
            Read::Active(e) | Read::Untouched(e) => e < T,
            _ => false,
        };
        // a mix that does not exist may be refused
        let missing = matches!(*r, Read::Mix(_, i) if i >= 16);
        if w.fail.get().is_none() && !refusable {
            ctx.check(got.as_ref().ok() == own.as_ref().ok() || missing && got.is_err(), space, "answer", || format!("{}: {r:?}: {got:?} instead of {own:?}", what()));
        } else if refusable {
            ctx.check(got.is_err(), space, "cannot be proven", || format!("{}: {r:?} is answered: {got:?}", what()));
        }
        if got.is_ok() {
            done.insert(*r);
        } else if failed {
            log.borrow_mut().push(format!("{r:?} failed"));
        }
    }
    let asked_for: BTreeSet<Read> = reads.iter().copied().collect();
    let before = w.requests.get();
    let input = guard(|| preflight.to_input());
    let failed = w.fail.get().is_some_and(|f| before <= f && f < w.requests.get());
    ctx.eval(true);
    let input = match input {
        Ok(Ok(i)) => i,
        other => {
            // after a read that failed there need not be one
            ctx.check(failed || done.len() < asked_for.len(), space, "no input", || format!("{}, reads {reads:?}: {:?}", what(), other.map(|r| r.err().map(|e| format!("{e:#}")))));
            return;
        }
    };
    ctx.check(!failed, space, "failure ignored", || format!("{}, reads {reads:?}: a request failed but there is an input", what()));
    let (got, want) = (without_empty(plain(&input)), without_empty(due(w, back, &done)));
    // nothing but what was read, or what was asked for in vain, and is true nonetheless
    let may = without_empty(due(w, back, &asked_for));
    let good = |e: &u64, m: &BTreeMap<u32, B256>, x: &BTreeMap<usize, u64>| may.get(e).is_some_and(|(n, y)| m.iter().all(|(i, v)| n.get(i) == Some(v)) && (x.is_empty() || x == y));
    let has = |e: &u64, m: &BTreeMap<u32, B256>, x: &BTreeMap<usize, u64>| got.get(e).is_some_and(|(n, y)| m.keys().all(|i| n.contains_key(i)) && (x.is_empty() || x == y));
    ctx.check(got.iter().all(|(e, (m, x))| good(e, m, x)) && want.iter().all(|(e, (m, x))| has(e, m, x)) && (done.len() < asked_for.len() || got == want), space, "patches", || format!("{}, reads {reads:?} {:?}: {:?} instead of {:?}", what(), log.borrow(), brief(&got), brief(&want)));
    let slots: BTreeSet<u64> = done.iter().filter_map(|r| if let Read::Slot(i) = r { Some(*i) } else { None }).collect();
    let proven: Vec<_> = input.block_slot_proofs.iter().map(|p| slots.iter().filter(|i| p.verify(&other(seed, **i).0).is_ok()).count()).collect();
    ctx.check(proven.iter().sum::<usize>() == slots.len() && (proven.len() == slots.len() || done.len() < asked_for.len()), space, "slots", || format!("{}, reads {reads:?}: {} proofs for {} blocks", what(), proven.len(), slots.len()));
    ctx.check(input.consensus_state == reader.consensus_state().unwrap(), space, "start", || format!("{}: {:?}", what(), input.consensus_state));
    if !guest {
        return;
    }
    let bytes = bincode::serialize(&input).unwrap();
    let view = guard(|| -> anyhow::Result<_> {
        let input: GuestInput<Four> = bincode::deserialize(&bytes)?;
        let r = input.into_reader(tiny_spec())?;
        let listed: Vec<_> = r.active_validators(T.into())?.map(|(i, v)| (i, v.pubkey.serialize(), v.effective_balance, v.slashed, v.activation_epoch, v.exit_epoch)).collect();
        let slots = slots.iter().map(|i| r.slot_for_block(&other(seed, *i).0)).collect::<Result<Vec<_>, _>>()?;
        let mixes: Vec<_> = done.iter().filter_map(|x| if let Read::Mix(e, i) = x { Some((*e, *i)) } else { None }).map(|(e, i)| r.randao_mix(e.into(), i)).collect::<Result<Vec<_>, _>>()?;
        Ok((listed, r.genesis_validators_root()?, slots, mixes))
    });
    let flat = match view {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("panic: {p}")),
    };
    let at = &w.states[&(T * SPE - back)];
    let want = (
        at.validators().iter().enumerate().filter(|(_, v)| v.activation_epoch <= T && T < v.exit_epoch).map(|(i, v)| (i, v.public_key.as_ref().try_into().unwrap(), v.effective_balance, v.slashed, v.activation_epoch.into(), v.exit_epoch.into())).collect::<Vec<_>>(),
        at.genesis_validators_root(),
        slots.iter().map(|i| other(seed, *i).1).collect::<Vec<_>>(),
        done.iter().filter_map(|x| if let Read::Mix(e, i) = x { Some(Some(B256::from_slice(w.states[&(e * SPE)].randao_mixes()[*i as usize].as_ref()))) } else { None }).collect::<Vec<_>>(),
    );
    ctx.check(flat.as_ref() == Ok(&want), space, "guest", || format!("{}, reads {reads:?}: the guest's reader says {flat:?}", what()));
}
fn brief(p: &Plain) -> Vec<(u64, Vec<u32>, Vec<(usize, u64)>)> {
    p.iter().map(|(e, (m, x))| (*e, m.keys().copied().collect(), x.iter().map(|(i, e)| (*i, *e)).collect())).collect()
}

pub fn run(ctx: &'static Ctx) -> ! {
    // (eligibility, activation, exit, balance, slashed)
    let kinds: Vec<Row> = vec![
        (0, 0, FAR, 32, false),
        (0, 0, FAR, 31, true),
        (1, 2, T - 1, 5, false),
        (1, 2, T, 6, true),
        (1, 2, T + 1, 7, false),
        (1, 2, T + 2, 0, true),
        (1, T, FAR, 8, false),
        (T - 3, T + 1, FAR, 9, false),
        (T - 2, T + 1, T + 7, 9, false),
        (T - 1, FAR, FAR, 10, false),
        (FAR, FAR, FAR, u64::MAX, false),
        (0, 0, 5, 0, false),
        (T, T, T, 1, false),
    ];
    let n = kinds.len();
    let later = |reg: &[Validator], how: usize, e: u64| -> Vec<Validator> {
        // every member stays or gets another exit epoch; some registries grow
        let mut out: Vec<Validator> = reg.to_vec();
        for (i, v) in out.iter_mut().enumerate() {
            match how / 4usize.pow(i as u32) % 4 {
                0 => {}
                1 => v.exit_epoch = e + 5,
                2 => v.exit_epoch = e,
                _ => {
                    v.effective_balance ^= 1;
                    v.slashed = !v.slashed;
                    v.activation_epoch = e;
                }
            }
        }
        if how % 3 == 1 {
            out.push(made(out.len(), (0, 0, 99, 1, false)));
        }
        out
    };
    ctx.space("registries", || {
        let len = ctx.pick(3, 4) as u32;
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        for l in 1..=len {
            all.extend((0..n.pow(l)).map(|k| (0..l).map(|i| k / n.pow(i) % n).collect()));
        }
        parallel(ctx, all.len(), |k| {
            let reg: Vec<Validator> = all[k].iter().enumerate().map(|(i, x)| made(i, kinds[*x])).collect();
            for fulu in [false, true] {
                let back = k as u64 % 3;
                let w = world(ctx.seed, [reg.clone(), reg.clone(), reg.clone()], back, fulu);
                let what = || format!("registry of kinds {:?}, fulu {fulu}, {back} empty slots", all[k]);
                judge(ctx, "registries", &w, ctx.seed, back, &[Read::Active(T)], true, &what);
            }
        });
    });
    ctx.space("exits", || {
        // every way two later registries differ from the trusted one, read at each subset of the epochs
        let len = ctx.pick(2, 3) as u32;
        let ways = 4usize.pow(len);
        let total = ways * ways * 8 * 2;
        parallel(ctx, total, |k| {
            let (a, b, mask, fulu) = (k % ways, k / ways % ways, k / ways / ways % 8, k / ways / ways / 8 == 1);
            for start in 0..n {
                let reg: Vec<Validator> = (0..len as usize).map(|i| made(i, kinds[(start + 5 * i) % n])).collect();
                let w = world(ctx.seed, [reg.clone(), later(&reg, a, T + 1), later(&reg, b, T + 2)], 0, fulu);
                let reads: Vec<Read> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| if (a + b) % 2 == 0 { Read::Active(T + i) } else { Read::Untouched(T + i) }).collect();
                judge(ctx, "exits", &w, ctx.seed, 0, &reads, false, &|| format!("registry from kind {start}, later {a}, then {b}, fulu {fulu}"));
            }
        });
    });
    ctx.space("reads", || {
        // every sequence of reads, with any one request failing
        let reads = [Read::Active(T), Read::Active(T + 1), Read::Untouched(T + 2), Read::Active(T - 1), Read::Mix(T, 1), Read::Mix(T, 2), Read::Mix(T + 1, 2), Read::Mix(T + 1, 0), Read::Mix(T + 1, 15), Read::Mix(T, 16), Read::Slot(0), Read::Slot(1), Read::Slot(2), Read::Stranger, Read::Start, Read::Fork(T + 1)];
        let m = reads.len();
        let depth = ctx.pick(3, 4);
        let reg: Vec<Validator> = vec![made(0, kinds[0]), made(1, kinds[4]), made(2, kinds[2])];
        // an exit that the guest takes too: far enough ahead
        let mut then = reg.clone();
        then[0].exit_epoch = T + 9;
        parallel(ctx, m.pow(depth as u32), |k| {
            let seq: Vec<Read> = (0..depth).map(|i| reads[k / m.pow(i as u32) % m]).collect();
            let w = world(ctx.seed, [reg.clone(), then.clone(), then.clone()], k as u64 % 2, k % 5 == 0);
            judge(ctx, "reads", &w, ctx.seed, k as u64 % 2, &seq, true, &|| "reads".into());
            for f in 0..ctx.pick(5, 7) as u64 {
                w.requests.set(0);
                w.fail.set(Some(f));
                judge(ctx, "reads", &w, ctx.seed, k as u64 % 2, &seq, false, &|| format!("failing request {f}"));
            }
        });
    });
    ctx.finish(
        "exploration",
        "every registry of up to three of thirteen kinds of validators; every way two later registries differ from it; every sequence of reads with any one request failing; the guest's reader must say the same of the trusted state",
        &["states are put together directly; keys, hashes and containers are stand-ins"],
        json!({}),
    )
}
