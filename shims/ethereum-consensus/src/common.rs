use crate::primitives::{BlsPublicKey, BlsSignature, Bytes32, CommitteeIndex, Epoch, ExecutionAddress, Gwei, Root, Slot, ValidatorIndex, Version};
use ssz_rs::prelude::*;

pub const JUSTIFICATION_BITS_LENGTH: usize = 4;

macro_rules! container {
    ([$($g:tt)*] $name:ident { $($(#[$m:meta])* $f:ident: $t:ty,)* }) => {
        #[derive(Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
        pub struct $name<$($g)*> {
            $($(#[$m])* pub $f: $t,)*
        }
    };
}
container!([] Checkpoint {
    #[serde(with = "crate::serde::as_str")]
    epoch: Epoch,
    root: Root,
});
container!([] Fork {
    #[serde(with = "crate::serde::hex4")]
    previous_version: Version,
    #[serde(with = "crate::serde::hex4")]
    current_version: Version,
    #[serde(with = "crate::serde::as_str")]
    epoch: Epoch,
});
container!([] BeaconBlockHeader {
    #[serde(with = "crate::serde::as_str")]
    slot: Slot,
    #[serde(with = "crate::serde::as_str")]
    proposer_index: ValidatorIndex,
    parent_root: Root,
    state_root: Root,
    body_root: Root,
});
container!([] SignedBeaconBlockHeader {
    message: BeaconBlockHeader,
    signature: BlsSignature,
});
container!([] Eth1Data {
    deposit_root: Root,
    #[serde(with = "crate::serde::as_str")]
    deposit_count: u64,
    block_hash: Bytes32,
});
container!([] Validator {
    #[serde(rename = "pubkey")]
    public_key: BlsPublicKey,
    withdrawal_credentials: Bytes32,
    #[serde(with = "crate::serde::as_str")]
    effective_balance: Gwei,
    slashed: bool,
    #[serde(with = "crate::serde::as_str")]
    activation_eligibility_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    activation_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    exit_epoch: Epoch,
    #[serde(with = "crate::serde::as_str")]
    withdrawable_epoch: Epoch,
});
container!([] AttestationData {
    #[serde(with = "crate::serde::as_str")]
    slot: Slot,
    #[serde(with = "crate::serde::as_str")]
    index: CommitteeIndex,
    beacon_block_root: Root,
    source: Checkpoint,
    target: Checkpoint,
});
container!([const MAX_VALIDATORS_PER_COMMITTEE: usize] Attestation {
    aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
    data: AttestationData,
    signature: BlsSignature,
});
container!([const MAX_VALIDATORS_PER_COMMITTEE: usize] PendingAttestation {
    aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
    data: AttestationData,
    #[serde(with = "crate::serde::as_str")]
    inclusion_delay: Slot,
    #[serde(with = "crate::serde::as_str")]
    proposer_index: ValidatorIndex,
});
container!([const N: usize] SyncCommittee {
    #[serde(rename = "pubkeys")]
    public_keys: Vector<BlsPublicKey, N>,
    #[serde(rename = "aggregate_pubkey")]
    aggregate_public_key: BlsPublicKey,
});
container!([] HistoricalSummary {
    block_summary_root: Root,
    state_summary_root: Root,
});
macro_rules! header {
    ($name:ident { $($(#[$m:meta])* $f:ident: $t:ty,)* }) => {
        container!([const BYTES_PER_LOGS_BLOOM: usize, const MAX_EXTRA_DATA_BYTES: usize] $name {
            parent_hash: Bytes32,
            fee_recipient: ExecutionAddress,
            state_root: Bytes32,
            receipts_root: Bytes32,
            logs_bloom: ByteVector<BYTES_PER_LOGS_BLOOM>,
            prev_randao: Bytes32,
            #[serde(with = "crate::serde::as_str")]
            block_number: u64,
            #[serde(with = "crate::serde::as_str")]
            gas_limit: u64,
            #[serde(with = "crate::serde::as_str")]
            gas_used: u64,
            #[serde(with = "crate::serde::as_str")]
            timestamp: u64,
            extra_data: ByteList<MAX_EXTRA_DATA_BYTES>,
            #[serde(with = "crate::serde::as_str")]
            base_fee_per_gas: U256,
            block_hash: Bytes32,
            transactions_root: Root,
            $($(#[$m])* $f: $t,)*
        });
    };
}
header!(BellatrixHeader {});
header!(CapellaHeader {
    withdrawals_root: Root,
});
header!(ExecutionPayloadHeader {
    withdrawals_root: Root,
    #[serde(with = "crate::serde::as_str")]
    blob_gas_used: u64,
    #[serde(with = "crate::serde::as_str")]
    excess_blob_gas: u64,
});

pub mod electra {
    use super::*;
    container!([const MAX_VALIDATORS_PER_SLOT: usize, const MAX_COMMITTEES_PER_SLOT: usize] Attestation {
        aggregation_bits: Bitlist<MAX_VALIDATORS_PER_SLOT>,
        data: AttestationData,
        signature: BlsSignature,
        committee_bits: Bitvector<MAX_COMMITTEES_PER_SLOT>,
    });
    container!([] PendingConsolidation {
        #[serde(with = "crate::serde::as_str")]
        source_index: ValidatorIndex,
        #[serde(with = "crate::serde::as_str")]
        target_index: ValidatorIndex,
    });
    // Of a block's body only what the host looks at, and enough to tell the forks apart.
    container!([] BeaconBlockBody {
        randao_reveal: BlsSignature,
        graffiti: Bytes32,
        attestations: List<crate::electra::mainnet::Attestation, { crate::electra::mainnet::MAX_ATTESTATIONS_ELECTRA }>,
        execution_requests: Root,
    });
    container!([] BeaconBlock {
        #[serde(with = "crate::serde::as_str")]
        slot: Slot,
        #[serde(with = "crate::serde::as_str")]
        proposer_index: ValidatorIndex,
        parent_root: Root,
        state_root: Root,
        body: BeaconBlockBody,
    });
}
/// Blocks before Electra.
pub mod legacy {
    use super::*;
    container!([] BeaconBlockBody {
        randao_reveal: BlsSignature,
        graffiti: Bytes32,
        attestations: List<Attestation<{ crate::electra::mainnet::MAX_VALIDATORS_PER_COMMITTEE }>, { crate::electra::mainnet::MAX_ATTESTATIONS }>,
    });
    container!([] BeaconBlock {
        #[serde(with = "crate::serde::as_str")]
        slot: Slot,
        #[serde(with = "crate::serde::as_str")]
        proposer_index: ValidatorIndex,
        parent_root: Root,
        state_root: Root,
        body: BeaconBlockBody,
    });
}
