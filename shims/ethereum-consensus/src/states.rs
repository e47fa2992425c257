// Written by gen.py.
use crate::common::*;
use crate::primitives::{Bytes32, Gwei, ParticipationFlags, Root, Slot, ValidatorIndex};
use ssz_rs::prelude::*;

pub mod phase0 {
    use super::*;
    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct BeaconState<
        const SLOTS_PER_HISTORICAL_ROOT: usize,
        const HISTORICAL_ROOTS_LIMIT: usize,
        const ETH1_DATA_VOTES_BOUND: usize,
        const VALIDATOR_REGISTRY_LIMIT: usize,
        const EPOCHS_PER_HISTORICAL_VECTOR: usize,
        const EPOCHS_PER_SLASHINGS_VECTOR: usize,
        const MAX_VALIDATORS_PER_COMMITTEE: usize,
        const PENDING_ATTESTATIONS_BOUND: usize,
    > {
        #[serde(with = "crate::serde::as_str")]
        pub genesis_time: u64,
        pub genesis_validators_root: Root,
        #[serde(with = "crate::serde::as_str")]
        pub slot: Slot,
        pub fork: Fork,
        pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        pub eth1_data: Eth1Data,
        pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "crate::serde::as_str")]
        pub eth1_deposit_index: u64,
        pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        pub previous_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
        pub current_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        pub previous_justified_checkpoint: Checkpoint,
        pub current_justified_checkpoint: Checkpoint,
        pub finalized_checkpoint: Checkpoint,
    }
}

pub mod altair {
    use super::*;
    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct BeaconState<
        const SLOTS_PER_HISTORICAL_ROOT: usize,
        const HISTORICAL_ROOTS_LIMIT: usize,
        const ETH1_DATA_VOTES_BOUND: usize,
        const VALIDATOR_REGISTRY_LIMIT: usize,
        const EPOCHS_PER_HISTORICAL_VECTOR: usize,
        const EPOCHS_PER_SLASHINGS_VECTOR: usize,
        const MAX_VALIDATORS_PER_COMMITTEE: usize,
        const SYNC_COMMITTEE_SIZE: usize,
    > {
        #[serde(with = "crate::serde::as_str")]
        pub genesis_time: u64,
        pub genesis_validators_root: Root,
        #[serde(with = "crate::serde::as_str")]
        pub slot: Slot,
        pub fork: Fork,
        pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        pub eth1_data: Eth1Data,
        pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "crate::serde::as_str")]
        pub eth1_deposit_index: u64,
        pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        pub previous_justified_checkpoint: Checkpoint,
        pub current_justified_checkpoint: Checkpoint,
        pub finalized_checkpoint: Checkpoint,
        #[serde(with = "crate::serde::seq_of_str")]
        pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
        pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
    }
}

pub mod bellatrix {
    use super::*;
    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct BeaconState<
        const SLOTS_PER_HISTORICAL_ROOT: usize,
        const HISTORICAL_ROOTS_LIMIT: usize,
        const ETH1_DATA_VOTES_BOUND: usize,
        const VALIDATOR_REGISTRY_LIMIT: usize,
        const EPOCHS_PER_HISTORICAL_VECTOR: usize,
        const EPOCHS_PER_SLASHINGS_VECTOR: usize,
        const MAX_VALIDATORS_PER_COMMITTEE: usize,
        const SYNC_COMMITTEE_SIZE: usize,
        const BYTES_PER_LOGS_BLOOM: usize,
        const MAX_EXTRA_DATA_BYTES: usize,
    > {
        #[serde(with = "crate::serde::as_str")]
        pub genesis_time: u64,
        pub genesis_validators_root: Root,
        #[serde(with = "crate::serde::as_str")]
        pub slot: Slot,
        pub fork: Fork,
        pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        pub eth1_data: Eth1Data,
        pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "crate::serde::as_str")]
        pub eth1_deposit_index: u64,
        pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        pub previous_justified_checkpoint: Checkpoint,
        pub current_justified_checkpoint: Checkpoint,
        pub finalized_checkpoint: Checkpoint,
        #[serde(with = "crate::serde::seq_of_str")]
        pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
        pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub latest_execution_payload_header: BellatrixHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
    }
}

pub mod capella {
    use super::*;
    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct BeaconState<
        const SLOTS_PER_HISTORICAL_ROOT: usize,
        const HISTORICAL_ROOTS_LIMIT: usize,
        const ETH1_DATA_VOTES_BOUND: usize,
        const VALIDATOR_REGISTRY_LIMIT: usize,
        const EPOCHS_PER_HISTORICAL_VECTOR: usize,
        const EPOCHS_PER_SLASHINGS_VECTOR: usize,
        const MAX_VALIDATORS_PER_COMMITTEE: usize,
        const SYNC_COMMITTEE_SIZE: usize,
        const BYTES_PER_LOGS_BLOOM: usize,
        const MAX_EXTRA_DATA_BYTES: usize,
    > {
        #[serde(with = "crate::serde::as_str")]
        pub genesis_time: u64,
        pub genesis_validators_root: Root,
        #[serde(with = "crate::serde::as_str")]
        pub slot: Slot,
        pub fork: Fork,
        pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        pub eth1_data: Eth1Data,
        pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "crate::serde::as_str")]
        pub eth1_deposit_index: u64,
        pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        pub previous_justified_checkpoint: Checkpoint,
        pub current_justified_checkpoint: Checkpoint,
        pub finalized_checkpoint: Checkpoint,
        #[serde(with = "crate::serde::seq_of_str")]
        pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
        pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub latest_execution_payload_header: CapellaHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "crate::serde::as_str")]
        pub next_withdrawal_index: u64,
        #[serde(with = "crate::serde::as_str")]
        pub next_withdrawal_validator_index: ValidatorIndex,
        pub historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>,
    }
}

pub mod deneb {
    use super::*;
    #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct BeaconState<
        const SLOTS_PER_HISTORICAL_ROOT: usize,
        const HISTORICAL_ROOTS_LIMIT: usize,
        const ETH1_DATA_VOTES_BOUND: usize,
        const VALIDATOR_REGISTRY_LIMIT: usize,
        const EPOCHS_PER_HISTORICAL_VECTOR: usize,
        const EPOCHS_PER_SLASHINGS_VECTOR: usize,
        const MAX_VALIDATORS_PER_COMMITTEE: usize,
        const SYNC_COMMITTEE_SIZE: usize,
        const BYTES_PER_LOGS_BLOOM: usize,
        const MAX_EXTRA_DATA_BYTES: usize,
    > {
        #[serde(with = "crate::serde::as_str")]
        pub genesis_time: u64,
        pub genesis_validators_root: Root,
        #[serde(with = "crate::serde::as_str")]
        pub slot: Slot,
        pub fork: Fork,
        pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        pub historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        pub eth1_data: Eth1Data,
        pub eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "crate::serde::as_str")]
        pub eth1_deposit_index: u64,
        pub validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        pub randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "crate::serde::seq_of_str")]
        pub current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        pub previous_justified_checkpoint: Checkpoint,
        pub current_justified_checkpoint: Checkpoint,
        pub finalized_checkpoint: Checkpoint,
        #[serde(with = "crate::serde::seq_of_str")]
        pub inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
        pub current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
        pub latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "crate::serde::as_str")]
        pub next_withdrawal_index: u64,
        #[serde(with = "crate::serde::as_str")]
        pub next_withdrawal_validator_index: ValidatorIndex,
        pub historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>,
    }
}
