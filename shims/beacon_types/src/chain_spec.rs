use crate::*;
use serde::{Deserialize, Serialize};
use tree_hash::TreeHash;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
pub enum ForkName {
    Base,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
    Gloas,
}
impl ForkName {
    pub const ALL: [ForkName; 8] = [
        Self::Base,
        Self::Altair,
        Self::Bellatrix,
        Self::Capella,
        Self::Deneb,
        Self::Electra,
        Self::Fulu,
        Self::Gloas,
    ];
    pub fn list_all() -> Vec<ForkName> {
        Self::ALL.to_vec()
    }
    pub fn latest() -> ForkName {
        Self::Gloas
    }
    pub fn previous_fork(self) -> Option<ForkName> {
        let i = Self::ALL.iter().position(|f| *f == self).unwrap();
        i.checked_sub(1).map(|i| Self::ALL[i])
    }
    pub fn next_fork(self) -> Option<ForkName> {
        let i = Self::ALL.iter().position(|f| *f == self).unwrap();
        Self::ALL.get(i + 1).copied()
    }
    pub fn electra_enabled(self) -> bool {
        self >= Self::Electra
    }
    pub fn fulu_enabled(self) -> bool {
        self >= Self::Fulu
    }
    fn name(self) -> &'static str {
        match self {
            Self::Base => "phase0",
            Self::Altair => "altair",
            Self::Bellatrix => "bellatrix",
            Self::Capella => "capella",
            Self::Deneb => "deneb",
            Self::Electra => "electra",
            Self::Fulu => "fulu",
            Self::Gloas => "gloas",
        }
    }
}
impl std::fmt::Display for ForkName {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name())
    }
}
impl std::str::FromStr for ForkName {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let l = s.to_lowercase();
        Self::ALL
            .into_iter()
            .find(|f| f.name() == l || (l == "base" && *f == Self::Base))
            .ok_or_else(|| format!("unknown fork name: {s}"))
    }
}
impl TryFrom<String> for ForkName {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        s.parse()
    }
}
impl From<ForkName> for String {
    fn from(f: ForkName) -> String {
        f.to_string()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Domain {
    BlsToExecutionChange,
    BeaconProposer,
    BeaconAttester,
    Randao,
    Deposit,
    VoluntaryExit,
    SelectionProof,
    AggregateAndProof,
    SyncCommittee,
    ContributionAndProof,
    SyncCommitteeSelectionProof,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub genesis_slot: Slot,
    pub far_future_epoch: Epoch,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub shuffle_round_count: u8,
    pub hysteresis_quotient: u64,
    pub min_deposit_amount: u64,
    pub max_effective_balance: u64,
    pub ejection_balance: u64,
    pub effective_balance_increment: u64,
    pub genesis_fork_version: [u8; 4],
    pub bls_withdrawal_prefix_byte: u8,
    pub min_attestation_inclusion_delay: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_epochs_to_inactivity_penalty: u64,
    pub min_validator_withdrawability_delay: Epoch,
    pub shard_committee_period: u64,
    pub seconds_per_slot: u64,
    pub altair_fork_version: [u8; 4],
    pub altair_fork_epoch: Option<Epoch>,
    pub bellatrix_fork_version: [u8; 4],
    pub bellatrix_fork_epoch: Option<Epoch>,
    pub capella_fork_version: [u8; 4],
    pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_version: [u8; 4],
    pub deneb_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4],
    pub electra_fork_epoch: Option<Epoch>,
    pub fulu_fork_version: [u8; 4],
    pub fulu_fork_epoch: Option<Epoch>,
    pub gloas_fork_version: [u8; 4],
    pub gloas_fork_epoch: Option<Epoch>,
    pub min_activation_balance: u64,
    pub max_effective_balance_electra: u64,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
}

impl ChainSpec {
    pub fn mainnet() -> Self {
        Self {
            config_name: Some("mainnet".into()),
            genesis_slot: Slot::new(0),
            far_future_epoch: Epoch::new(u64::MAX),
            max_committees_per_slot: 64,
            target_committee_size: 128,
            min_per_epoch_churn_limit: 4,
            churn_limit_quotient: 65_536,
            shuffle_round_count: 90,
            hysteresis_quotient: 4,
            min_deposit_amount: 1_000_000_000,
            max_effective_balance: 32_000_000_000,
            ejection_balance: 16_000_000_000,
            effective_balance_increment: 1_000_000_000,
            genesis_fork_version: [0; 4],
            bls_withdrawal_prefix_byte: 0,
            min_attestation_inclusion_delay: 1,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_epochs_to_inactivity_penalty: 4,
            min_validator_withdrawability_delay: Epoch::new(256),
            shard_committee_period: 256,
            seconds_per_slot: 12,
            altair_fork_version: [1, 0, 0, 0],
            altair_fork_epoch: Some(Epoch::new(74240)),
            bellatrix_fork_version: [2, 0, 0, 0],
            bellatrix_fork_epoch: Some(Epoch::new(144896)),
            capella_fork_version: [3, 0, 0, 0],
            capella_fork_epoch: Some(Epoch::new(194048)),
            deneb_fork_version: [4, 0, 0, 0],
            deneb_fork_epoch: Some(Epoch::new(269568)),
            electra_fork_version: [5, 0, 0, 0],
            electra_fork_epoch: Some(Epoch::new(364032)),
            fulu_fork_version: [6, 0, 0, 0],
            fulu_fork_epoch: Some(Epoch::new(411392)),
            gloas_fork_version: [7, 0, 0, 0],
            gloas_fork_epoch: None,
            min_activation_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
        }
    }

    pub fn minimal() -> Self {
        Self {
            config_name: None,
            max_committees_per_slot: 4,
            target_committee_size: 4,
            min_per_epoch_churn_limit: 2,
            churn_limit_quotient: 32,
            shuffle_round_count: 10,
            genesis_fork_version: [0, 0, 0, 1],
            shard_committee_period: 64,
            seconds_per_slot: 6,
            altair_fork_version: [1, 0, 0, 1],
            altair_fork_epoch: None,
            bellatrix_fork_version: [2, 0, 0, 1],
            bellatrix_fork_epoch: None,
            capella_fork_version: [3, 0, 0, 1],
            capella_fork_epoch: None,
            deneb_fork_version: [4, 0, 0, 1],
            deneb_fork_epoch: None,
            electra_fork_version: [5, 0, 0, 1],
            electra_fork_epoch: None,
            fulu_fork_version: [6, 0, 0, 1],
            fulu_fork_epoch: None,
            gloas_fork_version: [7, 0, 0, 1],
            gloas_fork_epoch: None,
            min_per_epoch_churn_limit_electra: 64_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 128_000_000_000,
            ..Self::mainnet()
        }
    }

    pub fn fork_name_at_slot<E: EthSpec>(&self, slot: Slot) -> ForkName {
        self.fork_name_at_epoch(slot.epoch(E::slots_per_epoch()))
    }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        for f in ForkName::ALL.into_iter().rev() {
            match self.fork_epoch(f) {
                Some(e) if epoch >= e => return f,
                _ => {}
            }
        }
        ForkName::Base
    }
    pub fn fork_version_for_name(&self, f: ForkName) -> [u8; 4] {
        match f {
            ForkName::Base => self.genesis_fork_version,
            ForkName::Altair => self.altair_fork_version,
            ForkName::Bellatrix => self.bellatrix_fork_version,
            ForkName::Capella => self.capella_fork_version,
            ForkName::Deneb => self.deneb_fork_version,
            ForkName::Electra => self.electra_fork_version,
            ForkName::Fulu => self.fulu_fork_version,
            ForkName::Gloas => self.gloas_fork_version,
        }
    }
    pub fn fork_epoch(&self, f: ForkName) -> Option<Epoch> {
        match f {
            ForkName::Base => Some(Epoch::new(0)),
            ForkName::Altair => self.altair_fork_epoch,
            ForkName::Bellatrix => self.bellatrix_fork_epoch,
            ForkName::Capella => self.capella_fork_epoch,
            ForkName::Deneb => self.deneb_fork_epoch,
            ForkName::Electra => self.electra_fork_epoch,
            ForkName::Fulu => self.fulu_fork_epoch,
            ForkName::Gloas => self.gloas_fork_epoch,
        }
    }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let current = self.fork_name_at_epoch(epoch);
        let fork_epoch = self.fork_epoch(current).unwrap_or_else(|| Epoch::new(0));
        // at genesis both versions are the same
        let previous = if fork_epoch == 0 {
            current
        } else {
            current.previous_fork().unwrap_or(ForkName::Base)
        };
        Fork {
            previous_version: self.fork_version_for_name(previous),
            current_version: self.fork_version_for_name(current),
            epoch: fork_epoch,
        }
    }
    pub fn get_domain_constant(&self, domain: Domain) -> u32 {
        match domain {
            Domain::BeaconProposer => 0,
            Domain::BeaconAttester => 1,
            Domain::Randao => 2,
            Domain::Deposit => 3,
            Domain::VoluntaryExit => 4,
            Domain::SelectionProof => 5,
            Domain::AggregateAndProof => 6,
            Domain::SyncCommittee => 7,
            Domain::SyncCommitteeSelectionProof => 8,
            Domain::ContributionAndProof => 9,
            Domain::BlsToExecutionChange => 10,
        }
    }
    pub fn compute_domain(&self, domain: Domain, fork_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let mut d = [0u8; 32];
        d[..4].copy_from_slice(&self.get_domain_constant(domain).to_le_bytes());
        let root = ForkData { current_version: fork_version, genesis_validators_root }.tree_hash_root();
        d[4..].copy_from_slice(&root[..28]);
        d.into()
    }
    pub fn get_domain(&self, epoch: Epoch, domain: Domain, fork: &Fork, genesis_validators_root: Hash256) -> Hash256 {
        self.compute_domain(domain, fork.get_fork_version(epoch), genesis_validators_root)
    }
    pub fn get_deposit_domain(&self) -> Hash256 {
        self.compute_domain(Domain::Deposit, self.genesis_fork_version, Hash256::ZERO)
    }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, safe_arith::ArithError> {
        use safe_arith::SafeArith;
        epoch.safe_add(1u64)?.safe_add(self.max_seed_lookahead)
    }

    pub fn from_config<E: EthSpec>(config: &Config) -> Option<Self> {
        let mut s = E::default_spec();
        // a configuration is only valid for its own preset
        let preset = if s == ChainSpec::minimal() { "minimal" } else { "mainnet" };
        if config.preset_base.trim_matches('\'').trim_matches('"') != preset {
            return None;
        }
        s.config_name = config.config_name.clone();
        s.genesis_fork_version = config.genesis_fork_version.0;
        macro_rules! fork {
            ($v:ident $e:ident) => {
                s.$v = config.$v.0;
                s.$e = (config.$e != u64::MAX).then(|| Epoch::new(config.$e));
            };
        }
        fork!(altair_fork_version altair_fork_epoch);
        fork!(bellatrix_fork_version bellatrix_fork_epoch);
        fork!(capella_fork_version capella_fork_epoch);
        fork!(deneb_fork_version deneb_fork_epoch);
        fork!(electra_fork_version electra_fork_epoch);
        fork!(fulu_fork_version fulu_fork_epoch);
        if let Some(v) = &config.gloas_fork_version {
            s.gloas_fork_version = v.0;
        }
        s.gloas_fork_epoch = config.gloas_fork_epoch.filter(|e| *e != u64::MAX).map(Epoch::new);
        s.seconds_per_slot = config.seconds_per_slot;
        s.min_validator_withdrawability_delay = Epoch::new(config.min_validator_withdrawability_delay);
        s.shard_committee_period = config.shard_committee_period;
        s.ejection_balance = config.ejection_balance;
        s.min_per_epoch_churn_limit = config.min_per_epoch_churn_limit;
        s.churn_limit_quotient = config.churn_limit_quotient;
        s.min_per_epoch_churn_limit_electra = config.min_per_epoch_churn_limit_electra;
        s.max_per_epoch_activation_exit_churn_limit = config.max_per_epoch_activation_exit_churn_limit;
        Some(s)
    }
}

/// Four bytes in `0x` notation.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Bytes4(pub [u8; 4]);
impl Serialize for Bytes4 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(self.0)))
    }
}
impl<'de> Deserialize<'de> for Bytes4 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        Ok(Self(b.try_into().map_err(|_| serde::de::Error::custom("expected 4 bytes"))?))
    }
}

/// A chain configuration file (`config.yaml`).
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "UPPERCASE")]
pub struct Config {
    #[serde(default)]
    pub config_name: Option<String>,
    pub preset_base: String,
    pub genesis_fork_version: Bytes4,
    pub altair_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub altair_fork_epoch: u64,
    pub bellatrix_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub bellatrix_fork_epoch: u64,
    pub capella_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub capella_fork_epoch: u64,
    pub deneb_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub deneb_fork_epoch: u64,
    pub electra_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub electra_fork_epoch: u64,
    pub fulu_fork_version: Bytes4,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub fulu_fork_epoch: u64,
    #[serde(default)]
    pub gloas_fork_version: Option<Bytes4>,
    #[serde(default)]
    pub gloas_fork_epoch: Option<u64>,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub seconds_per_slot: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub min_validator_withdrawability_delay: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub shard_committee_period: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub ejection_balance: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub min_per_epoch_churn_limit: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub churn_limit_quotient: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub min_per_epoch_churn_limit_electra: u64,
    #[serde(with = "crate::slot_epoch::quoted")]
    pub max_per_epoch_activation_exit_churn_limit: u64,
}
