V = "core/src/verify.rs"
HEAD = '''
use beacon_types::{Attestation, EthSpec};
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::guard;
use z_core::{CommitteeCache, Checkpoint, ConsensusState, Epoch, Link};
type E = Four;
fn root(i: u64) -> B32 { val(1, "block", i) }
/// A world in which every link of the chain of epochs gets the votes of everybody.
fn world(n: usize) -> World {
    let mut w = World::new(1, n, 32_000_000_000);
    for e in 0..64 { w.slots.insert(root(e), e * E::slots_per_epoch()); }
    w
}
fn c(e: u64) -> Checkpoint { cp((e, root(e))) }
fn chain(w: &World, epochs: &[u64]) -> Vec<Attestation<E>> {
    epochs.windows(2).flat_map(|p| w.attest::<E>(c(p[0]), c(p[1]), |_| true)).collect()
}
fn verdict(w: &World, s: &ConsensusState, a: &[Attestation<E>]) -> Option<(ConsensusState, u64)> {
    let a: Vec<_> = a.iter().collect();
    run::<E>(&default_config(), w, s, &a).0
}
'''
BUGS = [
    {
        "id": "verify-skips-repeated-signature",
        "property": "C32",
        "needs": "an aggregate with the data and signature of the preceding one but other aggregation bits",
        "breaks": "an aggregate whose data and signature are those of the one before is taken to be the same and its signature is not checked again, so a prover adds whichever votes it likes",
        "edits": [
            (V, """        let mut participating_indices = BTreeSet::new();
        for attestation in attestations {
            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.extend(attesting_indices);
        }
""", """        let mut participating_indices = BTreeSet::new();
        let mut verified = None;
        for attestation in attestations {
            // blocks often include the same aggregate again
            let aggregate = attestation
                .as_electra()
                .map(|a| (a.data.clone(), a.signature.clone()))
                .ok();
            let repeated = verified.is_some() && verified == aggregate;
            let attesting_indices = process_attestation(
                input_reader,
                &active_validators,
                &committees,
                attestation,
                repeated,
            )?;
            participating_indices.extend(attesting_indices);
            verified = aggregate;
        }
"""),
            (V, """    attestation: &Attestation<E>,
) -> Result<BTreeSet""", """    attestation: &Attestation<E>,
    repeated: bool,
) -> Result<BTreeSet"""),
            (V, """        is_valid_indexed_attestation(
            state,
            &attesting_validators,
            &attestation.data,
            &attestation.signature,
        )?,""", """        repeated
            || is_valid_indexed_attestation(
                state,
                &attesting_validators,
                &attestation.data,
                &attestation.signature,
            )?,"""),
        ],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    let all = chain(&w, &[3, 4]);
    assert!(verdict(&w, &s, &all).is_some());
    // one vote a slot is real, the others are claimed with its signature
    let one = w.attest::<E>(c(3), c(4), |v| all_first(&w).contains(&v));
    assert!(verdict(&w, &s, &one).is_none());
    let mut input = vec![];
    for (a, full) in one.iter().zip(&all) {
        let (Attestation::Electra(x), Attestation::Electra(f)) = (a, full) else { panic!() };
        let mut claimed = f.clone();
        claimed.signature = x.signature.clone();
        input.push(a.clone());
        input.push(Attestation::Electra(claimed));
    }
    assert!(verdict(&w, &s, &input).is_none(), "votes without a signature");
}
fn all_first(w: &World) -> Vec<usize> {
    (16..20).map(|slot| w.committees::<E>(slot).unwrap()[0][0]).collect()
}
''',
    },
    {
        "id": "verify-ignores-trailing-links",
        "property": "C01",
        "needs": "an input whose chain of links goes on after the finalizing link",
        "breaks": "links after the finalizing one are ignored instead of rejecting the input",
        "edits": [(V, """        ensure!(
            consensus_state.finalized_checkpoint() == trusted_checkpoint,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );

        let link""", """        if consensus_state.finalized_checkpoint() != trusted_checkpoint {
            break;
        }

        let link""")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    assert!(verdict(&w, &s, &chain(&w, &[3, 4])).is_some());
    assert!(verdict(&w, &s, &chain(&w, &[3, 5, 6])).is_some());
    assert!(verdict(&w, &s, &chain(&w, &[3, 4, 5])).is_none(), "two finalizations accepted");
}
''',
    },
    {
        "id": "verify-counts-repeated-votes",
        "property": "C02",
        "needs": "the same votes included by two attestations of a link that are not next to each other",
        "breaks": "the votes are collected in a list whose adjacent duplicates only are removed, so a validator included by two separated attestations counts twice",
        "edits": [
            (V, "let mut participating_indices = BTreeSet::new();", "let mut participating_indices = Vec::new();"),
            (V, "            participating_indices.extend(attesting_indices);\n        }\n", "            participating_indices.extend(attesting_indices);\n        }\n        participating_indices.dedup();\n"),
        ],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    let all = chain(&w, &[3, 4]);
    assert!(verdict(&w, &s, &all).is_some());
    // half of the validators vote, each twice
    let half = &all[..all.len() / 2];
    assert!(verdict(&w, &s, half).is_none());
    let twice: Vec<_> = half.iter().chain(half).cloned().collect();
    assert!(verdict(&w, &s, &twice).is_none(), "votes counted twice");
}
''',
    },
    {
        "id": "attestation-bits-beyond-committees",
        "property": "C03",
        "needs": "an attestation whose aggregation bits are longer than the committees it names",
        "breaks": "surplus aggregation bits are ignored instead of rejecting the attestation",
        "edits": [("core/src/attestation.rs", "assert_eq!(attn.aggregation_bits.len(), committee_offset);", "assert!(attn.aggregation_bits.len() >= committee_offset);")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    let mut all = chain(&w, &[3, 4]);
    assert!(verdict(&w, &s, &all).is_some());
    let Attestation::Electra(a) = &all[0] else { panic!() };
    let named: Vec<usize> = a.committee_bits.iter().enumerate().filter(|x| x.1).map(|x| x.0).collect();
    let mut bits: Vec<bool> = a.aggregation_bits.iter().collect();
    bits.push(true);
    all[0] = attestation(&named, &bits, a.data.clone(), a.signature.clone());
    assert!(verdict(&w, &s, &all).is_none(), "surplus bits accepted");
}
''',
    },
    {
        "id": "committee-index-off-by-one",
        "property": "C04",
        "needs": "a committee request with an index equal to the number of committees per slot, not in the last slot",
        "breaks": "a committee index one beyond the count is answered with the first committee of the next slot",
        "edits": [("core/src/committee_cache.rs", "            index < self.committees_per_slot,", "            index <= self.committees_per_slot,")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let spec = tiny_spec();
    let d = z_core::verif_hooks::shuffle_data(b(root(0)), (0..40).collect(), 2);
    let cache = CommitteeCache::<E>::initialized(&spec, d, Epoch::new(3)).unwrap();
    for slot in 12..16u64 {
        for i in 0..6 {
            assert_eq!(cache.get_beacon_committee(slot.into(), i).is_ok(), i < 2);
        }
    }
}
''',
    },
    {
        "id": "seed-first-epochs",
        "property": "C05",
        "needs": "verifying one of the first epochs, where the looked-up epoch lies before genesis",
        "breaks": "the RANDAO lookup of the first epochs saturates at epoch zero instead of wrapping around the history",
        "edits": [("core/src/input_reader.rs", """            .safe_add(<Self::Spec as EthSpec>::EpochsPerHistoricalVector::to_u64())?
            .safe_sub(self.chain_spec().min_seed_lookahead)?
            .safe_sub(1)?;""", """            .saturating_sub(self.chain_spec().min_seed_lookahead)
            .saturating_sub(Epoch::new(1));""")],
        "features": "core",
        "demo": HEAD + '''
use z_core::InputReader;
fn main() {
    let w = world(4);
    let r = Reader::<E> { world: &w, state: ConsensusState::default(), attestations: vec![] };
    for e in 0..40u64 {
        let got = r.get_seed(Epoch::new(e), 1u32.to_le_bytes().into()).unwrap();
        assert_eq!(got.0, w.seed_at::<E>(e).unwrap(), "epoch {e}");
    }
}
''',
    },
    {
        "id": "lookahead-per-link",
        "property": "C06",
        "needs": "a chain of at least two links whose last target is too far ahead although no link alone is",
        "breaks": "the lookahead limit is applied to each link's own length instead of to the distance from the trusted checkpoint",
        "edits": [(V, "    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());", "    let lookahead = target_epoch\n        .saturating_sub(std::cmp::max(trusted_checkpoint.epoch(), link.source.epoch()));")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    assert!(verdict(&w, &s, &chain(&w, &[3, 5, 6])).is_some());
    assert!(verdict(&w, &s, &chain(&w, &[3, 7, 8])).is_none(), "a target beyond the limit accepted");
}
''',
    },
    {
        "id": "transition-link-other-branch",
        "property": "C08",
        "needs": "two states whose checkpoints have matching epochs but different roots",
        "breaks": "the reconstructed link of a finalization compares only the epoch of the new finalized checkpoint with the old justified one",
        "edits": [("core/src/consensus_state.rs", "if other.finalized_checkpoint == self.current_justified_checkpoint\n                && target", "if other.finalized_checkpoint.epoch() == self.current_justified_checkpoint.epoch()\n                && target")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let a = ConsensusState::new(c(3), c(2));
    let good = ConsensusState::new(c(4), c(3));
    let l = a.transition_link(&good).unwrap().unwrap();
    assert_eq!(a.state_transition(&l).unwrap(), good);
    let fork = ConsensusState::new(c(4), cp((3, root(30))));
    assert!(a.transition_link(&fork).is_err(), "a link between branches");
}
''',
    },
    {
        "id": "transition-keeps-old-finality",
        "property": "C07",
        "needs": "a one-epoch link applied directly after a skipping link",
        "breaks": "a one-epoch link out of a state whose last link skipped epochs justifies without finalizing its source",
        "edits": [("core/src/consensus_state.rs", """            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current""", """            // only an unbroken sequence of justified epochs finalizes
            let consecutive = source.epoch() <= self.finalized_checkpoint.epoch() + 2;
            return Ok(ConsensusState {
                finalized_checkpoint: if consecutive {
                    source
                } else {
                    self.finalized_checkpoint
                },
                current""")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let s = ConsensusState::new(c(3), c(2));
    let s = s.state_transition(&Link { source: c(3), target: c(6) }).unwrap();
    let s = s.state_transition(&Link { source: c(6), target: c(7) }).unwrap();
    assert_eq!(s, ConsensusState::new(c(7), c(6)));
}
''',
    },
]
BUGS += [
    {
        "id": "transition-wrong-two-finality",
        "property": "C27",
        "needs": "a link that skips one epoch, from a justified checkpoint right after the finalized one",
        "breaks": "a link over two epochs finalizes its source although the epoch in between is not justified, so another chain may finalize a conflicting checkpoint without a slashable vote",
        "edits": [("core/src/consensus_state.rs", """            return Ok(ConsensusState {
                finalized_checkpoint: self.finalized_checkpoint, // no change
""", """            // 2-finality: the checkpoints of three consecutive epochs are tied together
            let tied = target.epoch() == source.epoch().safe_add(2)?
                && source.epoch() == self.finalized_checkpoint.epoch().safe_add(1)?;
            return Ok(ConsensusState {
                finalized_checkpoint: if tied {
                    source
                } else {
                    self.finalized_checkpoint
                },
""")],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    assert!(verdict(&w, &s, &chain(&w, &[3, 5, 6])).is_some());
    // 3 is not final: the other chain 2->4, 4->5' -> 6' needs no slashable vote ...
    assert!(verdict(&w, &s, &chain(&w, &[3, 5])).is_none(), "3 finalized without a link to 4");
}
''',
    },
    {
        "id": "verify-keeps-votes-for-block",
        "property": "C27",
        "needs": "two links in a row whose targets are the same block (no block in the first slots of the later epoch), the second one with too few votes",
        "breaks": "voters are collected per target block, so votes for one link also count for the next link to the same block",
        "edits": [
            (V, "    // group attestations by their corresponding link\n", "    // the validators that voted for a block\n    let mut voters: BTreeMap<Root, BTreeSet<ValidatorIndex>> = BTreeMap::new();\n\n    // group attestations by their corresponding link\n"),
            (V, "let mut participating_indices = BTreeSet::new();", "let participating_indices = voters.entry(link.target.root()).or_default();"),
            (V, "            .map(|i| active_validators.get(i).unwrap())\n", "            .filter_map(|i| active_validators.get(i))\n"),
        ],
        "features": "core",
        "demo": HEAD + '''
fn main() {
    let w = world(16);
    let s = ConsensusState::new(c(3), c(2));
    // no block in epoch 6 before its second slot: the checkpoints of 5 and 6 are the same block
    let (five, six) = (cp((5, root(5))), cp((6, root(5))));
    let mut all = w.attest::<E>(c(3), five, |_| true);
    let n = all.len();
    all.extend(w.attest::<E>(five, six, |_| true));
    assert!(verdict(&w, &s, &all).is_some());
    assert!(verdict(&w, &s, &all[..n + 1]).is_none(), "a quarter of the stake finalizes");
}
''',
    },
]
