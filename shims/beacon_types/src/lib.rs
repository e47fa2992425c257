//! Stand-in for lighthouse's `types`: the consensus types, presets and helper functions the code under test uses,
//! as the consensus specification (and lighthouse's `legacy-arith` operators) define them.
mod attest;
mod chain_spec;
mod slot_epoch;

pub use attest::*;
pub use bls::{
    AggregateSignature, Keypair, PublicKey, PublicKeyBytes, SecretKey, Signature,
};
pub use chain_spec::*;
pub use slot_epoch::*;
pub use ssz_types::typenum::Unsigned;
pub use ssz_types::{typenum, BitList, BitVector};

pub mod attestation {
    pub use crate::attest::*;
}

use safe_arith::{ArithError, SafeArith};
use std::fmt::Debug;
use std::ops::Range;
use typenum::*;

pub type Hash256 = alloy_primitives::B256;
pub type Uint256 = alloy_primitives::U256;
pub type Address = alloy_primitives::Address;

pub trait FixedBytesExtended {
    fn from_low_u64_be(value: u64) -> Self;
    fn from_low_u64_le(value: u64) -> Self;
    fn zero() -> Self;
}
impl FixedBytesExtended for Hash256 {
    fn from_low_u64_be(v: u64) -> Self {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&v.to_be_bytes());
        b.into()
    }
    fn from_low_u64_le(v: u64) -> Self {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&v.to_le_bytes());
        b.into()
    }
    fn zero() -> Self {
        Self::ZERO
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Error {
    IncorrectStateVariant,
    InsufficientValidators,
    EpochOutOfBounds,
    SlotOutOfBounds,
    UnknownValidator(usize),
    ArithError(ArithError),
}
pub type BeaconStateError = Error;
impl From<ArithError> for Error {
    fn from(e: ArithError) -> Self {
        Self::ArithError(e)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub trait EthSpec: 'static + Default + Sync + Send + Clone + Copy + Debug + PartialEq + core::cmp::Eq {
    type SlotsPerEpoch: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type SlotsPerHistoricalRoot: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type EpochsPerHistoricalVector: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type MaxValidatorsPerCommittee: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type MaxValidatorsPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type MaxCommitteesPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq;

    fn default_spec() -> ChainSpec;

    fn slots_per_epoch() -> u64 {
        Self::SlotsPerEpoch::to_u64()
    }
    fn slots_per_historical_root() -> usize {
        Self::SlotsPerHistoricalRoot::to_usize()
    }
    fn epochs_per_historical_vector() -> usize {
        Self::EpochsPerHistoricalVector::to_usize()
    }
    fn max_committees_per_slot() -> usize {
        Self::MaxCommitteesPerSlot::to_usize()
    }
    fn get_committee_count_per_slot(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Self::get_committee_count_per_slot_with(
            active_validator_count,
            spec.max_committees_per_slot,
            spec.target_committee_size,
        )
    }
    fn get_committee_count_per_slot_with(
        active_validator_count: usize,
        max_committees_per_slot: usize,
        target_committee_size: usize,
    ) -> Result<usize, Error> {
        let slots_per_epoch = Self::SlotsPerEpoch::to_usize();
        Ok(std::cmp::max(
            1,
            std::cmp::min(
                max_committees_per_slot,
                active_validator_count.safe_div(slots_per_epoch)?.safe_div(target_committee_size)?,
            ),
        ))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec {
    type SlotsPerEpoch = U32;
    type SlotsPerHistoricalRoot = U8192;
    type EpochsPerHistoricalVector = U65536;
    type MaxValidatorsPerCommittee = U2048;
    type MaxValidatorsPerSlot = U131072;
    type MaxCommitteesPerSlot = U64;
    fn default_spec() -> ChainSpec {
        ChainSpec::mainnet()
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec {
    type SlotsPerEpoch = U8;
    type SlotsPerHistoricalRoot = U64;
    type EpochsPerHistoricalVector = U64;
    type MaxValidatorsPerCommittee = U2048;
    type MaxValidatorsPerSlot = U8192;
    type MaxCommitteesPerSlot = U4;
    fn default_spec() -> ChainSpec {
        ChainSpec::minimal()
    }
}

pub fn epoch_committee_count(committees_per_slot: usize, slots_per_epoch: usize) -> usize {
    committees_per_slot * slots_per_epoch
}
pub fn compute_committee_index_in_epoch(
    slot: Slot,
    slots_per_epoch: usize,
    committees_per_slot: usize,
    committee_index: usize,
) -> usize {
    (slot.as_usize() % slots_per_epoch) * committees_per_slot + committee_index
}
pub fn compute_committee_range_in_epoch(
    epoch_committee_count: usize,
    index_in_epoch: usize,
    shuffling_len: usize,
) -> Option<Range<usize>> {
    if epoch_committee_count == 0 || index_in_epoch >= epoch_committee_count {
        return None;
    }
    let start = (shuffling_len * index_in_epoch) / epoch_committee_count;
    let end = (shuffling_len * (index_in_epoch + 1)) / epoch_committee_count;
    Some(start..end)
}
