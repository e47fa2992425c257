G = "core/src/input_reader/guest_input_reader.rs"
HEAD = '''
use beacon_types::EthSpec;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::guard;
use z_core::{Epoch, StatePatch, ConsensusState};
type E = Four;
const GWEI: u64 = 1_000_000_000;
fn state(epoch: u64, n: usize) -> BlockState {
    let mut s = BlockState::new::<E>(1, &tiny_spec(), epoch * 4, (0..n).map(|i| validator(i, 32 * GWEI)).collect());
    s.finalized_epoch = epoch - 2;
    s
}
fn ids(v: &View, epoch: u64) -> Vec<usize> { v.active[&epoch].iter().map(|x| x.0).collect() }
'''
BUGS = [
    {
        "id": "guest-omits-last-validators",
        "property": "C14",
        "needs": "a registry proof in which the last validators are not marked as values",
        "breaks": "the number of validators read is only checked not to exceed the proven list length, so the last validators can be left out",
        "edits": [(G, "    assert_eq!(validator_index as u64, length);", "    assert!(validator_index as u64 <= length);")],
        "features": "guest",
        "demo": HEAD + '''
fn main() {
    let built = state(5, 4).build();
    let input = built.input::<E>(5, (6, [9; 32]));
    let spec = tiny_spec();
    let v = view(input.guest(), &spec, &[7], &[], &[]).unwrap();
    assert_eq!(ids(&v, 7), vec![0, 1, 2, 3]);
    let mut short = input.clone();
    let mut want = vec![3];
    for i in 0..3 { want.extend(validator_indices(i, true)); }
    short.validators = prove(&built.registry, &want);
    short.keys.truncate(3);
    assert!(view(short.guest(), &spec, &[7], &[], &[]).is_err(), "validator 3 was left out");
}
''',
    },
    {
        "id": "guest-early-activation",
        "property": "C15",
        "needs": "a validator that became eligible between the trusted state's own finalized epoch and the trusted epoch, and a target epoch right after its too early activation",
        "breaks": "the lookahead processes every epoch with the trusted epoch as finalized, so validators activate one epoch too early",
        "edits": [(G, "                state.finalized_checkpoint_epoch\n            } else {", "                std::cmp::max(state.finalized_checkpoint_epoch, trusted_checkpoint.epoch())\n            } else {")],
        "features": "guest",
        "demo": HEAD + '''
fn main() {
    let mut s = state(5, 4);
    s.validators[2].activation_eligibility_epoch = Epoch::new(4);
    s.validators[2].activation_epoch = Epoch::new(FAR);
    let input = s.build().input::<E>(5, (6, [9; 32]));
    let v = view(input.guest(), &tiny_spec(), &[7, 8, 9, 10, 11, 12], &[], &[]).unwrap();
    // eligible at 4, finalized with the processing of epoch 6, active five epochs later
    for e in 7..=12 {
        assert_eq!(ids(&v, e).contains(&2), e >= 11, "epoch {e}");
    }
}
''',
    },
    {
        "id": "patch-budget-counts-pending",
        "property": "C16",
        "needs": "validators in the trusted state that are not active yet, and exits close to the limit",
        "breaks": "the exit budget is based on all validators that have not exited, including those still waiting for their activation",
        "edits": [(G, "            .filter_map(|(_, v)| v.is_active_at(trusted_checkpoint.epoch()).then_some(v));", "            .filter_map(|(_, v)| (trusted_checkpoint.epoch() < v.exit_epoch).then_some(v));")],
        "features": "guest",
        "demo": HEAD + '''
fn main() {
    let spec = tiny_spec();
    let mut s = state(5, 80);
    for v in &mut s.validators[40..] {
        v.activation_epoch = Epoch::new(FAR);
        v.activation_eligibility_epoch = Epoch::new(FAR);
    }
    let mut input = s.build().input::<E>(5, (6, [9; 32]));
    let first = 5 + 1 + spec.max_seed_lookahead.as_u64();
    let total = 40 * 32 * GWEI;
    let churn = 2 * (total / spec.churn_limit_quotient).max(spec.min_per_epoch_churn_limit_electra) / GWEI * GWEI;
    let allowed = churn * 3 / (32 * GWEI);
    assert!(allowed < 39, "{allowed}");
    for (n, ok) in [(allowed, true), (allowed + 1, false)] {
        let exits = (0..n as usize).map(|i| (i, Epoch::new(first + 2))).collect();
        input.patches = BTreeMap::from([(Epoch::new(7), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: exits })]);
        assert_eq!(view(input.guest(), &spec, &[7], &[], &[]).is_ok(), ok, "{n} exits");
    }
}
''',
    },
    {
        "id": "patch-moves-pending-exit",
        "property": "C16",
        "needs": "a patch for a validator that is already going to exit, naming an earlier exit epoch",
        "breaks": "patches of validators that already have an exit epoch are skipped unchecked, so a pending exit can be moved forward at will",
        "edits": [(G, "                if prev_exit_epoch == exit_epoch {\n                    continue;", "                if prev_exit_epoch == exit_epoch || prev_exit_epoch < spec.far_future_epoch {\n                    continue;")],
        "features": "guest",
        "demo": HEAD + '''
fn main() {
    let spec = tiny_spec();
    let mut s = state(5, 4);
    s.validators[1].exit_epoch = Epoch::new(30);
    let mut input = s.build().input::<E>(5, (6, [9; 32]));
    for (to, ok) in [(30, true), (6, false)] {
        let exits = BTreeMap::from([(1usize, Epoch::new(to))]);
        input.patches = BTreeMap::from([(Epoch::new(7), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: exits })]);
        assert_eq!(view(input.guest(), &spec, &[7], &[], &[]).is_ok(), ok, "exit moved to {to}");
    }
}
''',
    },
    {
        "id": "guest-slot-of-other-block",
        "property": "C14",
        "needs": "two slot proofs, the second of which is for another block",
        "breaks": "slots are stored under the root of the first proof when the proofs have the same shape, so the slot of another block is reported",
        "edits": [(G, "            block_slots.insert(root.into(), u64_from_chunk::<Leftmost>(slot));", "            block_slots\n                .entry(root.into())\n                .or_insert_with(|| u32::from_le_bytes(slot[0..4].try_into().unwrap()).into());")],
        "features": "guest",
        "demo": HEAD + '''
fn main() {
    let mut input = state(5, 4).build().input::<E>(5, (6, [9; 32]));
    let blocks: Vec<_> = [24u64, 1 << 33].iter().map(|s| header(1, *s)).collect();
    input.slots = blocks.iter().map(slot_proof).collect();
    let roots: Vec<_> = blocks.iter().map(|x| x.root()).collect();
    let v = view(input.guest(), &tiny_spec(), &[7], &roots, &[]).unwrap();
    assert_eq!(v.slots[&roots[0]], Some(24));
    assert_eq!(v.slots[&roots[1]], Some(1 << 33));
}
''',
    },
    {
        "id": "guest-journal-pre-state",
        "property": "C24",
        "needs": "verification from a state whose finalized checkpoint is not the parent of the justified one in the result",
        "breaks": "the journal's finalized slot is stored in 32 bits by the guest's journal helper",
        "edits": [("core/src/abi.rs", "            finalized_slot,\n        }\n    }", "            finalized_slot: u64::from(finalized_slot as u32),\n        }\n    }")],
        "features": "guest",
        "demo": HEAD + '''
use z_core::abi::Journal;
fn main() {
    let a = ConsensusState::new(cp((3, [3; 32])), cp((2, [2; 32])));
    let c = ConsensusState::new(cp((4, [4; 32])), cp((3, [3; 32])));
    for slot in [5u64, u64::MAX] {
        let bytes = Journal::new(&a, &c, slot).encode();
        assert_eq!(&bytes[280..288], &slot.to_be_bytes());
    }
}
''',
    },
]
