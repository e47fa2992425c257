import importlib.util, os

def head(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(os.path.dirname(__file__), name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.HEAD

CORE, GUEST, MPH = head("core"), head("guest"), head("mp")
V = "core/src/verify.rs"
G = "core/src/input_reader/guest_input_reader.rs"
MP = "ssz-multiproofs/src/multiproof.rs"
HR = "host/src/input_reader/host_input_reader.rs"
PR = "host/src/input_reader/preflight_input_reader.rs"
HOSTREADER = '''
#![allow(unused)]
mod sim;
use sim::*;
use host::host_input_reader::HostInputReader;
use host::mainnet::BeaconState;
use verif_harness::spec::Four;
use z_core::InputReader;
/// A chain whose state at an epoch's start has another registry.
fn changed(epoch: u64, f: impl FnOnce(&mut Vec<ethereum_consensus::phase0::Validator>)) -> Sim {
    let mut p = Plan::new(1, 10, 16, 9);
    p.part = (8..16).map(|e| (e, Part::All)).collect();
    let mut sim = p.build();
    let BeaconState::Electra(mut s) = (*sim.states[&(epoch * SPE)]).clone() else { panic!() };
    let mut v = s.validators.to_vec();
    f(&mut v);
    s.validators = v.try_into().unwrap();
    sim.states.insert(epoch * SPE, std::sync::Arc::new(BeaconState::Electra(s)));
    sim
}
fn reader<'a>(sim: &'a Sim, chain: &'a Chain<'a>) -> HostInputReader<Four, &'a Chain<'a>, &'a Chain<'a>> {
    futures::executor::block_on(HostInputReader::new(sim.spec.clone(), chain, chain, sim.checkpoint(11))).unwrap()
}
'''
BUGS = [
    {
        "id": "mp-trailing-bits",
        "property": "C10",
        "needs": "a descriptor that goes on with internal nodes after the complete tree",
        "breaks": "zero bits at the end of a descriptor are taken for padding, so an over-long description is accepted",
        "edits": [(MP, "    for bit in descriptor.iter() {\n        if *bit {\n            stack.push(TreeNode::Leaf(", "    // zero bits at the end only fill up the last word\n    let used = descriptor.last_one().map_or(0, |i| i + 1);\n    for bit in descriptor[..used].iter() {\n        if *bit {\n            stack.push(TreeNode::Leaf(")],
        "demo": MPH + '''
fn main() {
    let t = pair(leaf(val(1, "a", 0)), leaf(val(1, "b", 0)));
    let good = prove(&t, &[2, 3]);
    good.mp().verify(&t.root()).unwrap();
    let mut long = good.clone();
    long.desc.push(false);
    let p = long.mp();
    if guard(|| p.verify(&t.root()).is_ok()) == Ok(true) {
        panic!("over-long description accepted");
    }
}
''',
    },
    {
        "id": "verify-too-many-aggregates",
        "property": "C02",
        "needs": "a link whose votes are spread over more than 128 aggregates",
        "breaks": "only the first 128 attestations of a link are counted, so votes are lost",
        "edits": [(V, "        for attestation in attestations {\n            let attesting_indices", "        // no block holds more than this\n        for attestation in attestations.take(128) {\n            let attesting_indices")],
        "features": "core",
        "demo": CORE + '''
fn main() {
    let w = world(200);
    let s = ConsensusState::new(c(3), c(2));
    let input: Vec<_> = (0..200).flat_map(|i| w.attest::<E>(c(3), c(4), |v| v == i)).collect();
    assert_eq!(input.len(), 200);
    assert!(verdict(&w, &s, &input).is_some(), "everybody voted");
}
''',
    },
    {
        "id": "lookahead-in-32-bits",
        "property": "C06",
        "needs": "a target more than 2^32 epochs after the trusted checkpoint",
        "breaks": "the distance from the trusted checkpoint is cut to 32 bits, so a target far beyond the limit is accepted",
        "edits": [(V, "    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());", "    let distance = target_epoch.saturating_sub(trusted_checkpoint.epoch());\n    let lookahead = Epoch::new(u64::from(distance.as_u64() as u32));")],
        "features": "core",
        "demo": CORE + '''
fn main() {
    let mut w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    let (near, far) = (4u64, (1u64 << 32) + 4);
    for e in [far, far + 1] { w.slots.insert(root(e), e * E::slots_per_epoch()); }
    assert!(verdict(&w, &s, &chain(&w, &[3, near])).is_some());
    let skip = chain(&w, &[3, far, far + 1]);
    assert!(verdict(&w, &s, &skip).is_none(), "2^32 epochs ahead");
}
''',
    },
    {
        "id": "guest-fork-of-next-epoch",
        "property": "C14",
        "needs": "a fork two or more epochs after the justified checkpoint and a target behind it",
        "breaks": "the fork is looked up at the epoch after the justified checkpoint at the latest, so votes behind a later fork are judged by the old version",
        "edits": [(G, "        Ok(self.spec.fork_at_epoch(epoch))", "        let next = self.consensus_state.current_justified_checkpoint().epoch() + 1;\n        Ok(self.spec.fork_at_epoch(epoch.min(next)))")],
        "features": "guest",
        "demo": GUEST + '''
fn main() {
    let mut spec = tiny_spec();
    spec.fulu_fork_epoch = Some(Epoch::new(8));
    let s = BlockState::new::<E>(1, &spec, 20, (0..4).map(|i| validator(i, 32 * GWEI)).collect());
    let mut s = s;
    s.finalized_epoch = 3;
    let input = s.build().input::<E>(5, (6, [9; 32]));
    let v = view(input.guest(), &spec, &[6, 7, 8, 9], &[], &[]).unwrap();
    for e in [6u64, 7, 8, 9] {
        assert_eq!(v.versions[&e], fork_of(&spec, e).1, "epoch {e}");
    }
}
''',
    },
    {
        "id": "patch-slashed-leave-freely",
        "property": "C16",
        "needs": "patched exits of slashed validators",
        "breaks": "exits of slashed validators are not held against the churn limit or the earliest epoch, so they are let out at once",
        "edits": [(G, "                if prev_exit_epoch == exit_epoch {\n                    continue;", "                if prev_exit_epoch == exit_epoch || validator.slashed {\n                    continue;")],
        "features": "guest",
        "demo": GUEST + '''
fn main() {
    let spec = tiny_spec();
    let mut s = state(5, 4);
    s.validators[1].slashed = true;
    let mut input = s.build().input::<E>(5, (6, [9; 32]));
    let first = 5 + 1 + spec.max_seed_lookahead.as_u64();
    for (to, ok) in [(first, true), (6, false)] {
        let exits = BTreeMap::from([(1usize, Epoch::new(to))]);
        input.patches = BTreeMap::from([(Epoch::new(7), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: exits })]);
        assert_eq!(view(input.guest(), &spec, &[7], &[], &[]).is_ok(), ok, "exit at {to}");
    }
}
''',
    },
    {
        "id": "encoding-clips-epochs",
        "property": "C18",
        "needs": "an epoch of 2^32 or more in a guest input, such as a patched exit in the far future",
        "breaks": "epochs are written with 32 significant bits, so the guest reads another input than the host wrote",
        "edits": [("core/src/serde_utils.rs", "impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        serializer.serialize_u64(source.as_u64())", "impl SerializeAs<Epoch> for U64 {\n    #[inline]\n    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {\n        serializer.serialize_u64(source.as_u64() & u64::from(u32::MAX))")],
        "features": "guest",
        "demo": GUEST + '''
fn main() {
    let input = state(5, 4).build().input::<E>(5, (6, [9; 32])).guest();
    for to in [9u64, FAR] {
        let mut input = input.clone();
        input.patches = BTreeMap::from([(Epoch::new(7), StatePatch { randao_mixes: BTreeMap::new(), validator_exits: BTreeMap::from([(1usize, Epoch::new(to))]) })]);
        let bytes = bincode::serialize(&input).unwrap();
        let back: z_core::GuestInput<E> = bincode::deserialize(&bytes).unwrap();
        assert_eq!(back.patches[&Epoch::new(7)].validator_exits[&1].as_u64(), to);
    }
}
''',
    },
    {
        "id": "gindex-small-validators",
        "property": "C19",
        "needs": "a validator with an index of 2^21 or more",
        "breaks": "the exit epoch of validators with large indices is read at another validator's place",
        "edits": [("core/src/guest_gindices.rs", "    const CHUNK_OFFSET: u64 = 14u64 / 8u64;\n    const WITHIN_CHUNK: u64 = 14u64 % 8u64;\n    (2199023255552u64 + (i as u64))", "    const CHUNK_OFFSET: u64 = 14u64 / 8u64;\n    const WITHIN_CHUNK: u64 = 14u64 % 8u64;\n    (2199023255552u64 | (i as u64 & 0x1fffff))")],
        "features": "core",
        "demo": '''
use z_core::verif_hooks::gindex;
fn main() {
    for i in [0usize, 1, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1] {
        // the fields of one validator lie side by side
        assert_eq!(gindex("exit_epoch", i) / 8, gindex("activation_epoch", i) / 8, "validator {i}");
    }
}
''',
    },
    {
        "id": "config-less-margin",
        "property": "C31",
        "needs": "links with between 82 and 85 percent of the votes, four epochs ahead, and slashings meanwhile",
        "breaks": "the default threshold leaves too little room for balances that drift",
        "edits": [("core/src/config.rs", "    justification_threshold_factor: 85,", "    justification_threshold_factor: 82,")],
        "features": "core",
        "demo": CORE + '''
fn main() {
    // 83 of 100 vote; as much slashing as documented may bring them below two thirds
    let w = world(100);
    let s = ConsensusState::new(c(3), c(2));
    let votes = |n: usize| w.attest::<E>(c(3), c(4), move |v| v < n);
    let accepted = |n: usize| { let a = votes(n); let a: Vec<_> = a.iter().collect(); run::<E>(&z_core::DEFAULT_CONFIG, &w, &s, &a).0.is_some() };
    assert!(accepted(85));
    assert!(!accepted(83));
}
''',
    },
    {
        "id": "state-decodes-at-epoch-zero",
        "property": "C17",
        "needs": "the encoding of a state with both checkpoints at epoch zero that is not the all-zero state",
        "breaks": "an invalid state at epoch zero decodes instead of being refused",
        "edits": [("core/src/consensus_state.rs", "            || self == &ConsensusState::default()", "            || self.current_justified_checkpoint.epoch().as_u64() == 0")],
        "features": "core",
        "demo": '''
use z_core::ConsensusState;
fn main() {
    let mut bytes = ConsensusState::default().abi_encode();
    assert_eq!(ConsensusState::abi_decode(&bytes).unwrap(), ConsensusState::default());
    // another root at epoch zero
    bytes[40] = 1;
    assert!(ConsensusState::abi_decode(&bytes).is_err());
}
''',
    },
    {
        "id": "host-skips-broken-keys",
        "property": "C33",
        "needs": "an active validator in the served state whose public key does not decode",
        "breaks": "validators whose key does not decode are left out instead of refusing the state",
        "edits": [(HR, "                    .map(|(idx, validator)| validator.try_as_beacon_type().map(|info| (idx, info)))\n                    .collect::<Result<_, _>>()?;", "                    .filter_map(|(idx, validator)| {\n                        validator.try_as_beacon_type().ok().map(|info| (idx, info))\n                    })\n                    .collect();")],
        "features": "host",
        "mods": ["hostcheck/sim.rs"],
        "demo": HOSTREADER + '''
fn main() {
    let sim = changed(12, |v| v[3].public_key = [0xffu8; 48].as_slice().try_into().unwrap());
    let chain = Chain::new(&sim);
    let r = reader(&sim, &chain);
    let listed = r.active_validators(12.into()).map(|l| l.count());
    assert!(listed.is_err(), "{} of {} validators are listed", listed.unwrap(), sim.states[&48].validators().len());
}
''',
    },
    {
        "id": "host-forgets-early-activation",
        "property": "C33",
        "needs": "an active validator whose eligibility epoch is still the far future one, or behind its activation, such as a validator of the genesis state of a test network",
        "breaks": "validators that are active without having been eligible in the meantime are not listed",
        "edits": [(HR, "    validator.activation_epoch <= epoch && epoch < validator.exit_epoch\n", "    validator.activation_eligibility_epoch <= epoch\n        && validator.activation_epoch <= epoch\n        && epoch < validator.exit_epoch\n")],
        "features": "host",
        "mods": ["hostcheck/sim.rs"],
        "demo": HOSTREADER + '''
fn main() {
    let sim = changed(12, |v| v[2].activation_eligibility_epoch = u64::MAX);
    let chain = Chain::new(&sim);
    let r = reader(&sim, &chain);
    assert_eq!(r.active_validators(12.into()).unwrap().map(|(i, _)| i).collect::<Vec<_>>(), (0..9).collect::<Vec<_>>());
}
''',
    },
    {
        "id": "host-shifts-patched-exits",
        "property": "C34",
        "needs": "a slashed validator in the trusted state in front of one whose exit is patched",
        "breaks": "patched exits are counted among the unslashed validators, so they are said of the wrong ones",
        "edits": [("host/src/state_patch_builder.rs", "self.state.validators().iter().zip(validators).enumerate()", "self.state.validators().iter().zip(validators).filter(|(_, b)| !b.slashed).enumerate()")],
        "features": "host",
        "mods": ["hostcheck/sim.rs"],
        "demo": HOSTREADER + '''
fn main() {
    let sim = changed(13, |v| v[5].exit_epoch = 30);
    let mut before = sim.states[&48].validators().to_vec();
    before[1].slashed = true;
    let mut b = host::StatePatchBuilder::new(sim.states[&52].clone());
    b.validator_diff(before.iter());
    let p = b.build::<verif_harness::spec::Four>();
    assert_eq!(p.validator_exits.into_iter().map(|(i, e)| (i, e.as_u64())).collect::<Vec<_>>(), vec![(5, 30)]);
}
''',
    },
    {
        "id": "host-omits-unfetched-slots",
        "property": "C34",
        "needs": "a node that answered when a block's slot was read but has lost the block when the input is made",
        "breaks": "blocks whose header cannot be had any more are left out of the slot proofs instead of failing",
        "edits": [
            (PR, "            .map(|root| {\n                let block_header", "            .filter_map(|root| {\n                let block_header"),
            (PR, "                    futures::executor::block_on(self.chain_reader.get_block_header(*root))?\n                        .ok_or(anyhow::anyhow!(\"Block not found for root {}\", root))?\n                        .message;", "                    futures::executor::block_on(self.chain_reader.get_block_header(*root))\n                        .ok()??\n                        .message;"),
            (PR, "                    .build(&block_header)?;\n                proof.verify(root)?;\n                Ok(proof)", "                    .build(&block_header)\n                    .and_then(|proof| proof.verify(root).map(|_| proof));\n                Some(proof.map_err(anyhow::Error::from))"),
        ],
        "features": "host",
        "mods": ["hostcheck/sim.rs"],
        "demo": HOSTREADER + '''
fn main() {
    let sim = changed(12, |_| ());
    let chain = Chain::new(&sim);
    let r = reader(&sim, &chain);
    let p = host::preflight_input_reader::PreflightInputReader::new(&r, &chain, sim.checkpoint(11));
    let block = sim.boundary_root(12).into();
    p.slot_for_block(&block).unwrap();
    // what is kept after the first time is not asked for again
    p.to_input().unwrap();
    let n = {
        // how many requests making the input takes
        let before = chain.requests.get();
        assert_eq!(p.to_input().unwrap().block_slot_proofs.len(), 1);
        chain.requests.get() - before
    };
    for i in 0..n {
        chain.fail_at.set(Some(chain.requests.get() + i));
        assert!(p.to_input().is_err(), "request {i} fails but there is an input");
    }
}
''',
    },
]
