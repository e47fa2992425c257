use crate::*;
use serde::{Deserialize, Serialize};
use ssz::{Decode, DecodeError, Encode};
use tree_hash::TreeHash;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct Checkpoint {
    pub epoch: Epoch,
    pub root: Hash256,
}
ssz::impl_container!([] Checkpoint { epoch: Epoch, root: Hash256 });
tree_hash::impl_container!([] Checkpoint { epoch, root });

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct Fork {
    pub previous_version: [u8; 4],
    pub current_version: [u8; 4],
    pub epoch: Epoch,
}
ssz::impl_container!([] Fork { previous_version: [u8; 4], current_version: [u8; 4], epoch: Epoch });
tree_hash::impl_container!([] Fork { previous_version, current_version, epoch });
impl Fork {
    pub fn get_fork_version(&self, epoch: Epoch) -> [u8; 4] {
        if epoch < self.epoch {
            return self.previous_version;
        }
        self.current_version
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct ForkData {
    pub current_version: [u8; 4],
    pub genesis_validators_root: Hash256,
}
ssz::impl_container!([] ForkData { current_version: [u8; 4], genesis_validators_root: Hash256 });
tree_hash::impl_container!([] ForkData { current_version, genesis_validators_root });

#[derive(Debug, Clone, PartialEq, Eq, Default, Hash)]
pub struct SigningData {
    pub object_root: Hash256,
    pub domain: Hash256,
}
tree_hash::impl_container!([] SigningData { object_root, domain });

pub trait SignedRoot: TreeHash {
    fn signing_root(&self, domain: Hash256) -> Hash256 {
        SigningData { object_root: self.tree_hash_root(), domain }.tree_hash_root()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct AttestationData {
    pub slot: Slot,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub index: u64,
    pub beacon_block_root: Hash256,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
ssz::impl_container!([] AttestationData { slot: Slot, index: u64, beacon_block_root: Hash256, source: Checkpoint, target: Checkpoint });
tree_hash::impl_container!([] AttestationData { slot, index, beacon_block_root, source, target });
impl SignedRoot for AttestationData {}

#[derive(Debug, Clone, PartialEq)]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerCommittee>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
}
ssz::impl_container!([E: EthSpec] AttestationBase<E> { aggregation_bits: BitList<E::MaxValidatorsPerCommittee>, data: AttestationData, signature: AggregateSignature });

#[derive(Debug, Clone, PartialEq)]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerSlot>,
    pub data: AttestationData,
    pub signature: AggregateSignature,
    pub committee_bits: BitVector<E::MaxCommitteesPerSlot>,
}
ssz::impl_container!([E: EthSpec] AttestationElectra<E> { aggregation_bits: BitList<E::MaxValidatorsPerSlot>, data: AttestationData, signature: AggregateSignature, committee_bits: BitVector<E::MaxCommitteesPerSlot> });
impl<E: EthSpec> AttestationElectra<E> {
    pub fn committee_index(&self) -> Option<u64> {
        self.get_committee_indices().first().cloned()
    }
    pub fn get_committee_indices(&self) -> Vec<u64> {
        get_committee_indices::<E>(&self.committee_bits)
    }
    pub fn get_aggregation_bits(&self) -> Vec<u64> {
        set_bits(self.aggregation_bits.iter())
    }
}
fn set_bits(it: impl Iterator<Item = bool>) -> Vec<u64> {
    it.enumerate().filter_map(|(i, b)| b.then_some(i as u64)).collect()
}
pub fn get_committee_indices<E: EthSpec>(bits: &BitVector<E::MaxCommitteesPerSlot>) -> Vec<u64> {
    set_bits(bits.iter())
}

#[derive(Debug, Clone, PartialEq)]
pub enum Attestation<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum AttestationRef<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<E: EthSpec> Attestation<E> {
    pub fn to_ref(&self) -> AttestationRef<'_, E> {
        match self {
            Self::Base(a) => AttestationRef::Base(a),
            Self::Electra(a) => AttestationRef::Electra(a),
        }
    }
    pub fn data(&self) -> &AttestationData {
        match self {
            Self::Base(a) => &a.data,
            Self::Electra(a) => &a.data,
        }
    }
    pub fn data_mut(&mut self) -> &mut AttestationData {
        match self {
            Self::Base(a) => &mut a.data,
            Self::Electra(a) => &mut a.data,
        }
    }
    pub fn signature(&self) -> &AggregateSignature {
        match self {
            Self::Base(a) => &a.signature,
            Self::Electra(a) => &a.signature,
        }
    }
    pub fn signature_mut(&mut self) -> &mut AggregateSignature {
        match self {
            Self::Base(a) => &mut a.signature,
            Self::Electra(a) => &mut a.signature,
        }
    }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn as_electra_mut(&mut self) -> Result<&mut AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, Error> {
        match self {
            Self::Base(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            Self::Base(a) => Some(a.data.index),
            Self::Electra(a) => a.committee_index(),
        }
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            Self::Base(a) => a.aggregation_bits.num_set_bits(),
            Self::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
}
impl<'a, E: EthSpec> AttestationRef<'a, E> {
    pub fn data(self) -> &'a AttestationData {
        match self {
            Self::Base(a) => &a.data,
            Self::Electra(a) => &a.data,
        }
    }
    pub fn as_electra(&self) -> Result<&'a AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn signature(&self) -> &AggregateSignature {
        match self {
            Self::Base(a) => &a.signature,
            Self::Electra(a) => &a.signature,
        }
    }
    pub fn as_base(&self) -> Result<&'a AttestationBase<E>, Error> {
        match self {
            Self::Base(a) => Ok(a),
            _ => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            Self::Base(a) => Some(a.data.index),
            Self::Electra(a) => a.committee_index(),
        }
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            Self::Base(a) => a.aggregation_bits.num_set_bits(),
            Self::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn clone_as_attestation(self) -> Attestation<E> {
        match self {
            Self::Base(a) => Attestation::Base(a.clone()),
            Self::Electra(a) => Attestation::Electra(a.clone()),
        }
    }
}

/// SSZ union of the attestation variants (selector 0: base, 1: electra).
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationOnDisk<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum AttestationRefOnDisk<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
fn put(sel: u8, v: &impl Encode, buf: &mut Vec<u8>) {
    buf.push(sel);
    v.ssz_append(buf);
}
impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            Self::Base(a) => put(0, *a, buf),
            Self::Electra(a) => put(1, *a, buf),
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.as_ssz_bytes().len()
    }
}
impl<E: EthSpec> Encode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            Self::Base(a) => put(0, a, buf),
            Self::Electra(a) => put(1, a, buf),
        }
    }
    fn ssz_bytes_len(&self) -> usize {
        self.as_ssz_bytes().len()
    }
}
impl<E: EthSpec> Decode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let (sel, body) = b
            .split_first()
            .ok_or(DecodeError::OutOfBoundsByte { i: 0 })?;
        match *sel {
            0 => AttestationBase::from_ssz_bytes(body).map(Self::Base),
            1 => AttestationElectra::from_ssz_bytes(body).map(Self::Electra),
            s => Err(DecodeError::UnionSelectorInvalid(s)),
        }
    }
}
impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> {
    fn from(a: AttestationRef<'a, E>) -> Self {
        match a {
            AttestationRef::Base(a) => Self::Base(a),
            AttestationRef::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> From<Attestation<E>> for AttestationOnDisk<E> {
    fn from(a: Attestation<E>) -> Self {
        match a {
            Attestation::Base(a) => Self::Base(a),
            Attestation::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> {
    fn from(a: AttestationOnDisk<E>) -> Self {
        match a {
            AttestationOnDisk::Base(a) => Self::Base(a),
            AttestationOnDisk::Electra(a) => Self::Electra(a),
        }
    }
}
