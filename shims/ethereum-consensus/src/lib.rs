//! Stand-in for `ethereum-consensus`: the containers of the consensus specification the host uses, with a small preset
//! (`electra::mainnet`, `phase0::mainnet`) so that states can be enumerated. The layouts are the specification's.
mod common;
mod states;
pub mod types;

pub mod ssz {
    pub use ssz_rs::prelude;
}
pub mod primitives {
    pub type Root = ssz_rs::Node;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Gwei = u64;
    pub type ValidatorIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type CommitteeIndex = usize;
    pub type ParticipationFlags = u8;
    pub type Version = [u8; 4];
    pub type Bytes32 = ssz_rs::ByteVector<32>;
    pub type BlsPublicKey = ssz_rs::ByteVector<48>;
    pub type BlsSignature = ssz_rs::ByteVector<96>;
    pub type ExecutionAddress = ssz_rs::ByteVector<20>;
    pub type U256 = ssz_rs::U256;
    pub const FAR_FUTURE_EPOCH: Epoch = Epoch::MAX;
}
pub mod serde {
    use serde::{de::Error, Deserialize, Deserializer, Serializer};
    use std::fmt::Display;
    use std::str::FromStr;
    pub mod as_str {
        use super::*;
        pub fn serialize<S: Serializer, T: Display>(v: &T, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(v)
        }
        pub fn deserialize<'de, D: Deserializer<'de>, T: FromStr<Err: Display>>(d: D) -> Result<T, D::Error> {
            String::deserialize(d)?.parse().map_err(D::Error::custom)
        }
    }
    pub mod seq_of_str {
        use super::*;
        use ssz_rs::Sequence;
        pub fn serialize<S: Serializer, T: Sequence<Item: Display>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
            s.collect_seq(v.items().iter().map(|x| x.to_string()))
        }
        pub fn deserialize<'de, D: Deserializer<'de>, T: Sequence<Item: FromStr<Err: Display>>>(d: D) -> Result<T, D::Error> {
            let v = Vec::<String>::deserialize(d)?;
            let v = v.iter().map(|x| x.parse()).collect::<Result<Vec<_>, _>>().map_err(D::Error::custom)?;
            T::build(v).map_err(D::Error::custom)
        }
    }
    pub mod hex4 {
        use super::*;
        pub fn serialize<S: Serializer>(v: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(&format!("0x{:02x}{:02x}{:02x}{:02x}", v[0], v[1], v[2], v[3]))
        }
        pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
            let s = String::deserialize(d)?;
            let h = s.strip_prefix("0x").filter(|h| h.len() == 8).ok_or_else(|| D::Error::custom("not a version"))?;
            Ok(u32::from_str_radix(h, 16).map_err(D::Error::custom)?.to_be_bytes())
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, ::serde::Serialize, ::serde::Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
}
impl std::fmt::Display for Fork {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Fork::Phase0 => "phase0",
            Fork::Altair => "altair",
            Fork::Bellatrix => "bellatrix",
            Fork::Capella => "capella",
            Fork::Deneb => "deneb",
            Fork::Electra => "electra",
            Fork::Fulu => "fulu",
        })
    }
}

pub mod phase0 {
    pub use crate::common::*;
    pub use crate::primitives::FAR_FUTURE_EPOCH;
    pub use crate::states::phase0::BeaconState;
    pub mod mainnet {
        pub use crate::preset::*;
    }
    pub mod presets {
        pub mod mainnet {
            use crate::preset::*;
            pub type BeaconState = crate::states::phase0::BeaconState<
                SLOTS_PER_HISTORICAL_ROOT,
                HISTORICAL_ROOTS_LIMIT,
                ETH1_DATA_VOTES_BOUND,
                VALIDATOR_REGISTRY_LIMIT,
                EPOCHS_PER_HISTORICAL_VECTOR,
                EPOCHS_PER_SLASHINGS_VECTOR,
                MAX_VALIDATORS_PER_COMMITTEE,
                PENDING_ATTESTATIONS_BOUND,
            >;
        }
    }
}
pub mod altair {
    pub use crate::common::*;
    pub use crate::primitives::FAR_FUTURE_EPOCH;
    pub use crate::primitives::ParticipationFlags;
    pub use crate::states::altair::BeaconState;
}
pub mod bellatrix {
    pub use crate::common::*;
    pub use crate::primitives::FAR_FUTURE_EPOCH;
    pub use crate::primitives::ParticipationFlags;
    pub use crate::states::bellatrix::BeaconState;
}
pub mod capella {
    pub use crate::common::*;
    pub use crate::primitives::FAR_FUTURE_EPOCH;
    pub use crate::primitives::ParticipationFlags;
    pub use crate::states::capella::BeaconState;
}
pub mod deneb {
    pub use crate::common::*;
    pub use crate::primitives::FAR_FUTURE_EPOCH;
    pub use crate::primitives::ParticipationFlags;
    pub use crate::states::deneb::BeaconState;
}
pub mod electra {
    pub use crate::common::electra::{Attestation, BeaconBlock, BeaconBlockBody, PendingConsolidation};
    pub use crate::common::{
        AttestationData, BeaconBlockHeader, Checkpoint, Eth1Data, ExecutionPayloadHeader, Fork, HistoricalSummary,
        SignedBeaconBlockHeader, SyncCommittee, Validator, JUSTIFICATION_BITS_LENGTH,
    };
    pub use crate::primitives::{ParticipationFlags, FAR_FUTURE_EPOCH};
    pub mod mainnet {
        pub use crate::common::SignedBeaconBlockHeader;
        pub use crate::preset::*;
        pub type Attestation = super::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>;
    }
}

mod preset {
    pub const SLOTS_PER_EPOCH: u64 = 4;
    pub const MIN_SEED_LOOKAHEAD: u64 = 1;
    pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8;
    pub const HISTORICAL_ROOTS_LIMIT: usize = 1 << 24;
    pub const ETH1_DATA_VOTES_BOUND: usize = 2048;
    pub const VALIDATOR_REGISTRY_LIMIT: usize = 1 << 40;
    pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 16;
    pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8;
    pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 64;
    pub const PENDING_ATTESTATIONS_BOUND: usize = 4096;
    pub const SYNC_COMMITTEE_SIZE: usize = 2;
    pub const BYTES_PER_LOGS_BLOOM: usize = 32;
    pub const MAX_EXTRA_DATA_BYTES: usize = 32;
    pub const PENDING_DEPOSITS_LIMIT: usize = 1 << 27;
    pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 1 << 27;
    pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 1 << 18;
    pub const MAX_VALIDATORS_PER_SLOT: usize = 256;
    pub const MAX_COMMITTEES_PER_SLOT: usize = 8;
    pub const MAX_ATTESTATIONS: usize = 128;
    pub const MAX_ATTESTATIONS_ELECTRA: usize = 32;
}
