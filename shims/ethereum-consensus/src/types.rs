use crate::common::{electra, legacy};
use crate::primitives::{Bytes32, Gwei, ParticipationFlags, Root, Slot, ValidatorIndex};
use ssz_rs::prelude::*;

pub enum BeaconBlockBodyRef<'a> {
    Deneb(&'a legacy::BeaconBlockBody),
    Electra(&'a electra::BeaconBlockBody),
}
pub mod mainnet {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, HashTreeRoot)]
    #[serde(untagged)]
    #[ssz(transparent)]
    pub enum BeaconBlock {
        Deneb(legacy::BeaconBlock),
        Electra(electra::BeaconBlock),
    }
    impl BeaconBlock {
        pub fn body(&self) -> BeaconBlockBodyRef<'_> {
            match self {
                Self::Deneb(b) => BeaconBlockBodyRef::Deneb(&b.body),
                Self::Electra(b) => BeaconBlockBodyRef::Electra(&b.body),
            }
        }
        pub fn slot(&self) -> Slot {
            match self {
                Self::Deneb(b) => b.slot,
                Self::Electra(b) => b.slot,
            }
        }
        pub fn proposer_index(&self) -> ValidatorIndex {
            match self {
                Self::Deneb(b) => b.proposer_index,
                Self::Electra(b) => b.proposer_index,
            }
        }
        pub fn parent_root(&self) -> Root {
            match self {
                Self::Deneb(b) => b.parent_root,
                Self::Electra(b) => b.parent_root,
            }
        }
        pub fn state_root(&self) -> Root {
            match self {
                Self::Deneb(b) => b.state_root,
                Self::Electra(b) => b.state_root,
            }
        }
    }
    impl<'de> serde::Deserialize<'de> for BeaconBlock {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let value = serde_json::Value::deserialize(d)?;
            if let Ok(b) = serde::Deserialize::deserialize(&value) {
                return Ok(Self::Electra(b));
            }
            if let Ok(b) = serde::Deserialize::deserialize(&value) {
                return Ok(Self::Deneb(b));
            }
            Err(serde::de::Error::custom("no variant could be deserialized from input"))
        }
    }
}
