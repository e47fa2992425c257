R = "host/src/input_reader/host_input_reader.rs"
P = "host/src/input_reader/preflight_input_reader.rs"
F = "host/src/state_provider/file_provider.rs"
S = "host/src/state_provider.rs"
L = "host/src/beacon_state.rs"
FULU = """            List<PendingPartialWithdrawal, PENDING_PARTIAL_WITHDRAWALS_LIMIT>,
        pub pending_consolidations: List<PendingConsolidation, PENDING_CONSOLIDATIONS_LIMIT>,
        #[serde(with = "seq_of_str")]
        pub proposer_lookahead"""
BUGS = [
    {
        "id": "host-omits-exiting-validators",
        "property": "C20",
        "needs": "a validator that exits in the epoch right after the trusted checkpoint",
        "breaks": "the registry proof treats validators of the trusted epoch's last day as gone, and the guest does not accept that",
        "edits": [(P, "            if trusted_epoch.as_u64() >= validator.exit_epoch {", "            if trusted_epoch.as_u64() + 1 >= validator.exit_epoch {")],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "hostcheck/e2e.rs"],
        "demo": '''
mod e2e;
mod sim;
use sim::*;
use verif_harness::spec::default_config;
fn main() {
    for gone in [9u64, 10, 11, 12, 1 << 62] {
        let mut p = Plan::new(1, 10, 15, 9);
        p.registry[3].exit_epoch = gone;
        p.part = (8..16).map(|e| (e, Part::All)).collect();
        let sim = p.build();
        match e2e::attempt(&default_config(), &sim, 10) {
            e2e::Outcome::Accepted { host, guest } => assert_eq!(guest.as_ref().ok(), Some(&host), "exit at {gone}: {guest:?}"),
            x => panic!("exit at {gone}: {x:?}"),
        }
    }
}
''',
    },
    {
        "id": "host-votes-by-target",
        "property": "C21",
        "needs": "blocks with votes for the right target from another source",
        "breaks": "votes are looked up by their target only, so votes from another source are taken along",
        "edits": [
            (R, "    let mut attestations_by_link = HashMap::<Link, Vec<Attestation<E>>>::new();", "    let mut attestations_by_link = HashMap::<Checkpoint, Vec<Attestation<E>>>::new();"),
            (R, "                .entry(link)\n", "                .entry(link.target)\n"),
            (R, "attestations_by_link.remove(link)", "attestations_by_link.remove(&link.target)"),
        ],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "hostcheck/e2e.rs"],
        "demo": '''
mod e2e;
mod sim;
use sim::*;
use host::host_input_reader::HostInputReader;
use z_core::InputReader;
fn main() {
    let mut p = Plan::new(1, 10, 15, 9);
    p.part = (8..16).map(|e| (e, Part::All)).collect();
    let mut sim = p.build();
    // one more vote of epoch 12 in a block, from another source
    let slot = *sim.blocks.keys().find(|s| **s > 12 * SPE + 1).unwrap();
    let ethereum_consensus::types::mainnet::BeaconBlock::Electra(b) = sim.blocks.get_mut(&slot).unwrap() else { panic!() };
    let mut other = b.body.attestations[0].clone();
    other.data.source.epoch -= 1;
    other.data.source.root = sim.roots[&40].into();
    b.body.attestations.push(other);
    let chain = Chain::new(&sim);
    let r = futures::executor::block_on(HostInputReader::<verif_harness::spec::Four, _, _>::new(
        sim.spec.clone(), host::CacheStateProvider::new(&chain), &chain, sim.checkpoint(10))).unwrap();
    let sources: std::collections::BTreeSet<_> = r.attestations().unwrap()
        .map(|a| (a.data().target.epoch.as_u64(), a.data().source.epoch.as_u64())).collect();
    assert!(!sources.is_empty());
    assert!(sources.iter().all(|(t, s)| s + 1 == *t), "{sources:?}");
}
''',
    },
    {
        "id": "host-merges-like-votes",
        "property": "C21",
        "needs": "two aggregates with the same attestation data (of other committees or voters) in the chain's blocks",
        "breaks": "of aggregates with the same data only the first one is kept, so votes are lost",
        "edits": [
            (R, "            attestations_by_link\n                .entry(link)\n                .or_default()\n                .push(attestation);",
             "            let votes = attestations_by_link.entry(link).or_default();\n            // the same attestation may be included in several blocks\n            if votes.iter().all(|known: &Attestation<E>| known.data() != attestation.data()) {\n                votes.push(attestation);\n            }"),
        ],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "hostcheck/e2e.rs"],
        "demo": '''
mod e2e;
mod sim;
use sim::*;
use host::host_input_reader::HostInputReader;
use z_core::InputReader;
fn main() {
    let mut p = Plan::new(1, 10, 15, 9);
    p.part = (8..16).map(|e| (e, Part::All)).collect();
    let mut sim = p.build();
    // the last vote of epoch 12's last block comes in two aggregates
    let slot = *sim.blocks.keys().find(|s| **s > 12 * SPE + 1).unwrap();
    let ethereum_consensus::types::mainnet::BeaconBlock::Electra(b) = sim.blocks.get_mut(&slot).unwrap() else { panic!() };
    let first = b.body.attestations[0].clone();
    let mut other = first.clone();
    let flipped: Vec<bool> = other.aggregation_bits.iter().map(|x| !*x).collect();
    for (i, x) in flipped.iter().enumerate() {
        other.aggregation_bits[i] = *x;
    }
    b.body.attestations.push(other);
    let chain = Chain::new(&sim);
    let r = futures::executor::block_on(HostInputReader::<verif_harness::spec::Four, _, _>::new(
        sim.spec.clone(), host::CacheStateProvider::new(&chain), &chain, sim.checkpoint(10))).unwrap();
    let n = r.attestations().unwrap().filter(|a| a.data().slot.as_u64() == first.data.slot && a.data().target.epoch.as_u64() == first.data.target.epoch).count();
    assert_eq!(n, 2);
}
''',
    },
    {
        "id": "store-clears-by-name",
        "property": "C22",
        "needs": "stored states whose slots have different numbers of digits",
        "breaks": "stored states are compared with the limit by name, so clearing leaves older states and removes newer ones",
        "edits": [(F, "                    if file_slot < slot {", "                    if file_slot.to_string() < slot.to_string() {")],
        "features": "host",
        "demo": '''
use host::{FileProvider, StateProvider};
use host::mainnet::{BeaconState, ElectraBeaconState};
use verif_harness::spec::Four;
fn main() {
    let dir = std::env::temp_dir().join(format!("signal-demo-store-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = std::panic::catch_unwind(|| {
        let p = FileProvider::<Four>::new(&dir).unwrap();
        let slots = [4u64, 8, 36, 40, 96, 100, 104, 1000];
        for s in slots {
            p.save_state(&BeaconState::Electra(ElectraBeaconState { slot: s, ..Default::default() })).unwrap();
        }
        for e in [1u64, 9, 10, 24, 25, 26] {
            p.clear_states_before(e.into()).unwrap();
            for s in slots {
                assert_eq!(p.state_at_slot(s.into()).is_ok(), s >= e * 4, "slot {s} after clearing before epoch {e}");
            }
        }
    });
    std::fs::remove_dir_all(&dir).unwrap();
    if r.is_err() { std::process::exit(1); }
}
''',
    },
    {
        "id": "served-advanced-state",
        "property": "C23",
        "needs": "an empty first slot of the checkpoint's epoch",
        "breaks": "the state at the epoch's first slot is served although the block is an earlier one; the header in it is already complete, so the check of the root passes",
        "edits": [
            (S, "        let state = self.state_at_epoch_boundary(checkpoint.epoch())?;", "        let state = self.state_at_epoch(checkpoint.epoch())?;"),
            (S, "        epoch_boundary_block.state_root = state.hash_tree_root().unwrap();", "        if epoch_boundary_block.state_root == Root::ZERO {\n            epoch_boundary_block.state_root = state.hash_tree_root().unwrap();\n        }"),
        ],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "hostcheck/e2e.rs"],
        "demo": '''
mod e2e;
mod sim;
use sim::*;
use host::StateProvider;
use ssz_rs::HashTreeRoot;
fn main() {
    for empty in [vec![], vec![48u64], vec![47, 48]] {
        let mut p = Plan::new(1, 10, 14, 9);
        p.empty = empty.iter().copied().collect();
        p.part = (8..16).map(|e| (e, Part::All)).collect();
        let sim = p.build();
        let chain = Chain::new(&sim);
        let s = (&chain).state_at_checkpoint(sim.checkpoint(12)).unwrap();
        let mut h = s.latest_block_header().clone();
        assert_eq!(s.slot(), h.slot, "empty {empty:?}");
        h.state_root = s.hash_tree_root().unwrap();
        assert_eq!(h.hash_tree_root().unwrap(), sim.boundary_root(12));
    }
}
''',
    },
    {
        "id": "layout-swapped-limits",
        "property": "C25",
        "needs": "a Fulu state",
        "breaks": "two pending lists of the Fulu state have each other's limit, so the state's root is not the protocol's",
        "edits": [(L, FULU, FULU.replace("PENDING_PARTIAL_WITHDRAWALS_LIMIT", "X").replace("PENDING_CONSOLIDATIONS_LIMIT", "PENDING_PARTIAL_WITHDRAWALS_LIMIT").replace("X", "PENDING_CONSOLIDATIONS_LIMIT"))],
        "features": "host",
        "demo": '''
use host::mainnet::{ElectraBeaconState, FuluBeaconState};
use ssz_rs::HashTreeRoot;
fn main() {
    let e = ElectraBeaconState::default();
    let f = FuluBeaconState::default();
    assert_eq!(e.pending_deposits.hash_tree_root().unwrap(), f.pending_deposits.hash_tree_root().unwrap());
    assert_eq!(e.pending_partial_withdrawals.hash_tree_root().unwrap(), f.pending_partial_withdrawals.hash_tree_root().unwrap());
    assert_eq!(e.pending_consolidations.hash_tree_root().unwrap(), f.pending_consolidations.hash_tree_root().unwrap());
}
''',
    },
    {
        "id": "host-forgets-slashings",
        "property": "C20",
        "needs": "slashed validators that are still active, and votes that meet the threshold only with theirs",
        "breaks": "the host takes slashed validators for unslashed ones until they leave, so it accepts chains that the guest refuses",
        "edits": [("host/src/conversions.rs", "            slashed: self.slashed,", "            slashed: self.slashed && self.withdrawable_epoch <= self.exit_epoch,")],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "hostcheck/e2e.rs"],
        "demo": '''
mod e2e;
mod sim;
use sim::*;
use verif_harness::spec::config;
use beacon_types::ForkName;
fn main() {
    let mut p = Plan::new(1, 10, 18, 16);
    for v in [2] {
        p.registry[v].slashed = true;
        p.registry[v].exit_epoch = 21;
        p.registry[v].withdrawable_epoch = 9000;
    }
    let sim = p.build();
    for (f, q) in [(2, 3), (95, 100)] {
        match e2e::attempt(&config(ForkName::Electra, ForkName::Fulu, 4, f, q), &sim, 12) {
            e2e::Outcome::Accepted { host, guest } => assert_eq!(guest.as_ref(), Ok(&host), "threshold {f}/{q}"),
            e2e::Outcome::HostRefuses(why) => assert_eq!(f, 95, "{why}"),
        }
    }
}
''',
    },
]
