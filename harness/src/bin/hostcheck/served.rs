//! C23: the state served for a checkpoint is the post-state of the block it names.
use crate::e2e::parallel;
use crate::sim::*;
use alloy_primitives::B256;
use ethereum_consensus::phase0::BeaconBlockHeader;
use host::mainnet::{BeaconState, ElectraBeaconState};
use host::{CacheStateProvider, StateProvider, StateProviderError, StateRef};
use serde_json::json;
use ssz_rs::HashTreeRoot;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;
use verif_harness::spec::Four;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::Checkpoint;

/// States of one chain for the first requests, of another afterwards; one request may fail.
struct Store<'a> {
    before: &'a BTreeMap<u64, StateRef>,
    after: &'a BTreeMap<u64, StateRef>,
    switch: u64,
    fail: Option<u64>,
    n: Cell<u64>,
}
impl StateProvider for &Store<'_> {
    type Spec = Four;
    fn state_at_slot(&self, slot: z_core::Slot) -> Result<StateRef, StateProviderError> {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.fail == Some(n) {
            return Err(anyhow::anyhow!("broken").into());
        }
        let from = if n < self.switch { self.before } else { self.after };
        from.get(&slot.as_u64()).cloned().ok_or(StateProviderError::NotFound(slot))
    }
}
fn flat<T>(r: Result<Result<T, StateProviderError>, String>) -> Result<T, String> {
    match r {
        Ok(x) => x.map_err(|e| e.to_string()),
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn asked(s: &Store, cached: bool, c: Checkpoint) -> Result<StateRef, String> {
    s.n.set(0);
    flat(guard(|| if cached { CacheStateProvider::new(s).state_at_checkpoint(c) } else { s.state_at_checkpoint(c) }))
}
/// The chain's post-states by block root.
fn post_states(sim: &Sim) -> BTreeMap<B256, StateRef> {
    sim.blocks.keys().map(|s| (sim.roots[s], sim.states[s].clone())).collect()
}
fn first_state(seed: u64) -> BTreeMap<u64, StateRef> {
    let mut s = ElectraBeaconState { genesis_time: 7, ..Default::default() };
    s.genesis_validators_root = val(seed, "gvr", 0).into();
    s.latest_block_header = BeaconBlockHeader { body_root: val(seed, "body", 0).into(), ..Default::default() };
    [(0, Arc::new(BeaconState::Electra(s)))].into()
}

pub fn run(ctx: &'static Ctx) -> ! {
    let slots: Vec<u64> = (42..50 + ctx.pick(1, 3)).collect();
    let plan = |mask: usize, seed: u64| {
        // no validators, so no votes: only the blocks matter here
        let mut p = Plan::new(seed, 10, 13, 1);
        p.empty = slots.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, s)| *s).collect();
        p.part = (8..16).map(|e| (e, Part::Elsewhere)).collect();
        p.spec.fulu_fork_epoch = [None, Some(11u64.into()), Some(12u64.into())][mask % 3];
        p
    };
    let same = |a: &StateRef, b: &StateRef| a.slot() == b.slot() && a.hash_tree_root().unwrap() == b.hash_tree_root().unwrap();
    ctx.space("skipped slots", || {
        parallel(ctx, 1 << slots.len(), |mask| {
            let sim = plan(mask, ctx.seed).build();
            let posts = post_states(&sim);
            let store = Store { before: &sim.states, after: &sim.states, switch: 0, fail: None, n: Cell::new(0) };
            // every root of the chain, and some that are not roots of its blocks
            let mut roots: Vec<B256> = sim.roots.values().copied().collect();
            roots.extend(sim.states.values().step_by(3).map(|s| s.hash_tree_root().unwrap()));
            roots.push(B256::ZERO);
            let h = sim.states[&48].latest_block_header().clone();
            roots.push(h.hash_tree_root().unwrap());
            for bit in (0..256).step_by(37) {
                let mut r = sim.boundary_root(12);
                r[bit / 8] ^= 1 << (bit % 8);
                roots.push(r);
            }
            for epoch in 11..=13u64 {
                let right = sim.boundary_root(epoch);
                for root in &roots {
                    for cached in [false, true] {
                        let got = asked(&store, cached, Checkpoint::new(epoch.into(), *root));
                        ctx.eval(*root == right);
                        let what = || format!("empty {:?}, epoch {epoch}, root {root}", plan(mask, 1).empty);
                        match (*root == right, &got) {
                            (true, Ok(s)) => {
                                ctx.check(same(s, &posts[root]), "skipped slots", "state", || format!("{}: got the state at slot {} with another block", what(), s.slot()));
                            }
                            (true, Err(e)) => ctx.violation("skipped slots", "refused", || format!("{}: {e}", what())),
                            (false, Ok(s)) => ctx.violation("skipped slots", "accepted", || format!("{}: got the state at slot {}, but the boundary block is {right}", what(), s.slot())),
                            (false, Err(_)) => {}
                        }
                    }
                }
                // the boundary's state
                let got = flat(guard(|| (&store).state_at_epoch_boundary(epoch.into())));
                ctx.eval(true);
                ctx.check(got.as_ref().is_ok_and(|s| same(s, &posts[&right])), "skipped slots", "boundary", || format!("empty {:?}: boundary of epoch {epoch}: slot {:?}", plan(mask, 1).empty, got.map(|s| s.slot())));
            }
        });
    });
    ctx.space("failures", || {
        // every request fails, or the node changes its chain between two requests
        let n = 1usize << 6;
        parallel(ctx, n * n, |k| {
            let (a, b) = (k % n, k / n);
            if a == 0 && b == 0 {
                ctx.tick();
            }
            let pick = |m: usize| m << 3;
            let one = plan(pick(a), ctx.seed).build();
            let two = plan(pick(b), ctx.seed + 1).build();
            let posts: BTreeMap<B256, StateRef> = post_states(&one).into_iter().chain(post_states(&two)).collect();
            for epoch in 11..=13u64 {
                for root in [one.boundary_root(epoch), two.boundary_root(epoch)] {
                    for switch in 0..4 {
                        for fail in [None, Some(0), Some(1), Some(2)] {
                            let store = Store { before: &one.states, after: &two.states, switch, fail, n: Cell::new(0) };
                            let got = asked(&store, k % 2 == 0, Checkpoint::new(epoch.into(), root));
                            ctx.eval(true);
                            if let Ok(s) = got {
                                ctx.check(same(&s, &posts[&root]), "failures", "state", || format!("two chains with empty {:?} and {:?}, the second from request {switch} on, failing {fail:?}: got the state at slot {} for {root}", plan(pick(a), 1).empty, plan(pick(b), 1).empty, s.slot()));
                                ctx.check(fail.is_none_or(|f| f >= store.n.get()), "failures", "failure ignored", || format!("request {fail:?} of {} fails but a state is served", store.n.get()));
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.space("first state", || {
        let states = first_state(ctx.seed);
        let mut h = states[&0].latest_block_header().clone();
        h.state_root = states[&0].hash_tree_root().unwrap();
        let right = h.hash_tree_root().unwrap();
        let store = Store { before: &states, after: &states, switch: 0, fail: None, n: Cell::new(0) };
        for epoch in [0u64, 1, 2, 1 << 61] {
            for root in [right, B256::ZERO, states[&0].latest_block_header().hash_tree_root().unwrap(), h.state_root] {
                let got = asked(&store, false, Checkpoint::new(epoch.into(), root));
                ctx.eval(true);
                ctx.check(got.is_ok() == (epoch == 0 && root == right), "first state", "first state", || format!("epoch {epoch} root {root}: {:?}", got.map(|s| s.slot())));
            }
        }
    });
    ctx.finish(
        "exploration",
        "every subset of empty slots before, at and after an epoch's boundary, in both forks, asked for with every root of the chain, roots of states and altered roots; every failing request and every change of chain between requests; non-trivial = the root is the boundary block's own",
        &["headers, states and roots are those of the simulated chain; hashing is SHA-256 over the stand-in containers"],
        json!({}),
    )
}
