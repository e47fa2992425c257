#!/usr/bin/env python3
"""Writes src/states.rs: the beacon states of the forks before Electra, as the specification lays them out."""
Q = '#[serde(with = "crate::serde::as_str")]'
S = '#[serde(with = "crate::serde::seq_of_str")]'
base = [
    (Q, "genesis_time", "u64"), ("", "genesis_validators_root", "Root"), (Q, "slot", "Slot"), ("", "fork", "Fork"),
    ("", "latest_block_header", "BeaconBlockHeader"),
    ("", "block_roots", "Vector<Root, SLOTS_PER_HISTORICAL_ROOT>"), ("", "state_roots", "Vector<Root, SLOTS_PER_HISTORICAL_ROOT>"),
    ("", "historical_roots", "List<Root, HISTORICAL_ROOTS_LIMIT>"), ("", "eth1_data", "Eth1Data"),
    ("", "eth1_data_votes", "List<Eth1Data, ETH1_DATA_VOTES_BOUND>"), (Q, "eth1_deposit_index", "u64"),
    ("", "validators", "List<Validator, VALIDATOR_REGISTRY_LIMIT>"), (S, "balances", "List<Gwei, VALIDATOR_REGISTRY_LIMIT>"),
    ("", "randao_mixes", "Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>"), (S, "slashings", "Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>"),
]
phase0 = [
    ("", "previous_epoch_attestations", "List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>"),
    ("", "current_epoch_attestations", "List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>"),
]
part = [
    (S, "previous_epoch_participation", "List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>"),
    (S, "current_epoch_participation", "List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>"),
]
just = [
    ("", "justification_bits", "Bitvector<JUSTIFICATION_BITS_LENGTH>"), ("", "previous_justified_checkpoint", "Checkpoint"),
    ("", "current_justified_checkpoint", "Checkpoint"), ("", "finalized_checkpoint", "Checkpoint"),
]
altair = [
    (S, "inactivity_scores", "List<u64, VALIDATOR_REGISTRY_LIMIT>"),
    ("", "current_sync_committee", "SyncCommittee<SYNC_COMMITTEE_SIZE>"), ("", "next_sync_committee", "SyncCommittee<SYNC_COMMITTEE_SIZE>"),
]
payload = lambda t: [("", "latest_execution_payload_header", f"{t}<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>")]
capella = [
    (Q, "next_withdrawal_index", "u64"), (Q, "next_withdrawal_validator_index", "ValidatorIndex"),
    ("", "historical_summaries", "List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>"),
]
G0 = "SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE".split()
GP = G0 + ["PENDING_ATTESTATIONS_BOUND"]
GA = G0 + ["SYNC_COMMITTEE_SIZE"]
GB = GA + ["BYTES_PER_LOGS_BLOOM", "MAX_EXTRA_DATA_BYTES"]
forks = [
    ("phase0", GP, base + phase0 + just), ("altair", GA, base + part + just + altair),
    ("bellatrix", GB, base + part + just + altair + payload("BellatrixHeader")),
    ("capella", GB, base + part + just + altair + payload("CapellaHeader") + capella),
    ("deneb", GB, base + part + just + altair + payload("ExecutionPayloadHeader") + capella),
]
out = "// Written by gen.py.\nuse crate::common::*;\nuse crate::primitives::{Bytes32, Gwei, ParticipationFlags, Root, Slot, ValidatorIndex};\nuse ssz_rs::prelude::*;\n"
for name, gens, fields in forks:
    out += f"\npub mod {name} {{\n    use super::*;\n    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]\n    pub struct BeaconState<\n"
    out += "".join(f"        const {g}: usize,\n" for g in gens) + "    > {\n"
    out += "".join(f"        {a}\n        pub {n}: {t},\n" if a else f"        pub {n}: {t},\n" for a, n, t in fields) + "    }\n}\n"
open(__file__.rsplit("/", 1)[0] + "/src/states.rs", "w").write(out)
