//! The consensus specification, written independently of the code under test, and a fake chain to run it on.
use crate::util::*;
use alloy_primitives::B256;
use beacon_types::{
    Attestation, AttestationBase, AttestationData, AttestationElectra, AggregateSignature, BitList, BitVector, ChainSpec,
    EthSpec, Fork, ForkName, SecretKey,
};
use std::collections::{BTreeMap, BTreeSet};
use z_core::{Checkpoint, Config, ConsensusState, Epoch, InputReader, Link, ValidatorInfo};

pub const FAR: u64 = u64::MAX;

macro_rules! preset {
    ($name:ident, $spe:ident, $hist:ident, $cps:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)]
        pub struct $name;
        impl EthSpec for $name {
            type SlotsPerEpoch = beacon_types::typenum::$spe;
            type SlotsPerHistoricalRoot = beacon_types::typenum::U64;
            type EpochsPerHistoricalVector = beacon_types::typenum::$hist;
            type MaxValidatorsPerCommittee = beacon_types::typenum::U64;
            type MaxValidatorsPerSlot = beacon_types::typenum::U256;
            type MaxCommitteesPerSlot = beacon_types::typenum::$cps;
            fn default_spec() -> ChainSpec {
                tiny_spec()
            }
        }
    };
}
preset!(One, U1, U8, U4);
preset!(Two, U2, U8, U4);
preset!(Four, U4, U16, U8);
preset!(Wide, U2, U8, U64);

/// Electra from genesis on, Fulu never; small everything.
pub fn tiny_spec() -> ChainSpec {
    let mut s = ChainSpec::minimal();
    for e in [&mut s.altair_fork_epoch, &mut s.bellatrix_fork_epoch, &mut s.capella_fork_epoch, &mut s.deneb_fork_epoch, &mut s.electra_fork_epoch] {
        *e = Some(Epoch::new(0));
    }
    s.target_committee_size = 4;
    s.max_committees_per_slot = 4;
    s.shuffle_round_count = 6;
    s
}

pub fn b(x: B32) -> B256 {
    x.into()
}

/// The specification's `compute_shuffled_index`.
pub fn shuffled_index(index: usize, n: usize, seed: &B32, rounds: u8) -> usize {
    let mut i = index as u64;
    let n = n as u64;
    for r in 0..rounds {
        let pivot = u64::from_le_bytes(sha(&[seed, &[r]])[..8].try_into().unwrap()) % n;
        let flip = (pivot + n - i) % n;
        let pos = i.max(flip);
        let src = sha(&[seed, &[r], &((pos / 256) as u32).to_le_bytes()]);
        if src[(pos % 256) as usize / 8] >> (pos % 8) & 1 == 1 {
            i = flip;
        }
    }
    i as usize
}
/// `compute_committee` of the specification for committee `index` of `count` in the epoch.
pub fn committee(active: &[usize], seed: &B32, index: usize, count: usize, rounds: u8) -> Vec<usize> {
    let n = active.len();
    (n * index / count..n * (index + 1) / count).map(|i| active[shuffled_index(i, n, seed, rounds)]).collect()
}
pub fn committees_per_slot<E: EthSpec>(active: usize, spec: &ChainSpec) -> usize {
    (active / E::slots_per_epoch() as usize / spec.target_committee_size).clamp(1, spec.max_committees_per_slot)
}

fn merkle8(l: [B32; 8]) -> B32 {
    let h = |a, b| hash2(&a, &b);
    h(h(h(l[0], l[1]), h(l[2], l[3])), h(h(l[4], l[5]), h(l[6], l[7])))
}
fn checkpoint_root(c: &beacon_types::Checkpoint) -> B32 {
    hash2(&u64_chunk(c.epoch.as_u64()), &c.root.0)
}
pub fn data_root(d: &AttestationData) -> B32 {
    let z = [0u8; 32];
    merkle8([u64_chunk(d.slot.as_u64()), u64_chunk(d.index), d.beacon_block_root.0, checkpoint_root(&d.source), checkpoint_root(&d.target), z, z, z])
}
pub fn domain(kind: u32, version: [u8; 4], gvr: &B32) -> B32 {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version);
    let root = hash2(&v, gvr);
    let mut d = [0u8; 32];
    d[..4].copy_from_slice(&kind.to_le_bytes());
    d[4..].copy_from_slice(&root[..28]);
    d
}
/// Name of the fork in force: the last one whose epoch has come.
pub fn fork_name(spec: &ChainSpec, epoch: u64) -> ForkName {
    let s = [
        (ForkName::Altair, spec.altair_fork_epoch),
        (ForkName::Bellatrix, spec.bellatrix_fork_epoch),
        (ForkName::Capella, spec.capella_fork_epoch),
        (ForkName::Deneb, spec.deneb_fork_epoch),
        (ForkName::Electra, spec.electra_fork_epoch),
        (ForkName::Fulu, spec.fulu_fork_epoch),
        (ForkName::Gloas, spec.gloas_fork_epoch),
    ];
    s.iter().rev().find(|(_, e)| e.is_some_and(|e| e.as_u64() <= epoch)).map_or(ForkName::Base, |f| f.0)
}
pub fn fork_version(spec: &ChainSpec, epoch: u64) -> [u8; 4] {
    match fork_name(spec, epoch) {
        ForkName::Base => spec.genesis_fork_version,
        ForkName::Altair => spec.altair_fork_version,
        ForkName::Bellatrix => spec.bellatrix_fork_version,
        ForkName::Capella => spec.capella_fork_version,
        ForkName::Deneb => spec.deneb_fork_version,
        ForkName::Electra => spec.electra_fork_version,
        ForkName::Fulu => spec.fulu_fork_version,
        ForkName::Gloas => spec.gloas_fork_version,
    }
}

#[derive(Debug)]
pub struct WorldError(pub String);
impl std::fmt::Display for WorldError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for WorldError {}
impl From<safe_arith::ArithError> for WorldError {
    fn from(e: safe_arith::ArithError) -> Self {
        Self(format!("{e:?}"))
    }
}

/// A chain as far as verification can see it: a registry, RANDAO mixes per state, block slots.
#[derive(Clone)]
pub struct World {
    pub spec: ChainSpec,
    pub gvr: B32,
    pub seed: u64,
    pub registry: BTreeMap<usize, ValidatorInfo>,
    pub slots: BTreeMap<B32, u64>,
    /// (state epoch, index) pairs for which there is no mix
    pub no_mix: BTreeSet<(u64, u32)>,
}

pub fn key(i: usize) -> SecretKey {
    SecretKey::from_index(i as u64)
}
pub fn validator(i: usize, balance: u64) -> ValidatorInfo {
    ValidatorInfo {
        pubkey: key(i).public_key(),
        effective_balance: balance,
        slashed: false,
        activation_eligibility_epoch: Epoch::new(0),
        activation_epoch: Epoch::new(0),
        exit_epoch: Epoch::new(FAR),
    }
}

impl World {
    pub fn new(seed: u64, n: usize, balance: u64) -> Self {
        World {
            spec: tiny_spec(),
            gvr: val(seed, "gvr", 0),
            seed,
            registry: (0..n).map(|i| (i, validator(i, balance))).collect(),
            slots: BTreeMap::new(),
            no_mix: BTreeSet::new(),
        }
    }
    /// The mix at `idx` as the state at `state_epoch` has it.
    pub fn mix(&self, state_epoch: u64, idx: u32) -> Option<B32> {
        (!self.no_mix.contains(&(state_epoch, idx))).then(|| val(self.seed, "mix", state_epoch.wrapping_mul(1 << 20) ^ idx as u64))
    }
    pub fn active(&self, epoch: u64) -> Vec<usize> {
        self.registry
            .iter()
            .filter(|(_, v)| v.activation_epoch.as_u64() <= epoch && epoch < v.exit_epoch.as_u64())
            .map(|(i, _)| *i)
            .collect()
    }
    pub fn mix_index<E: EthSpec>(&self, epoch: u64) -> u32 {
        let hist = E::epochs_per_historical_vector() as u128;
        ((epoch as u128 + hist - self.spec.min_seed_lookahead.as_u64() as u128 - 1) % hist) as u32
    }
    pub fn seed_at<E: EthSpec>(&self, epoch: u64) -> Option<B32> {
        let mix = self.mix(epoch, self.mix_index::<E>(epoch))?;
        Some(sha(&[&1u32.to_le_bytes(), &epoch.to_le_bytes(), &mix]))
    }
    /// The committees of a slot.
    pub fn committees<E: EthSpec>(&self, slot: u64) -> Option<Vec<Vec<usize>>> {
        let spe = E::slots_per_epoch();
        let active = self.active(slot / spe);
        if active.is_empty() {
            return None;
        }
        let seed = self.seed_at::<E>(slot / spe)?;
        let cps = committees_per_slot::<E>(active.len(), &self.spec);
        let first = (slot % spe) as usize * cps;
        Some((first..first + cps).map(|i| committee(&active, &seed, i, cps * spe as usize, self.spec.shuffle_round_count)).collect())
    }
    pub fn signing_root(&self, d: &AttestationData) -> B32 {
        let version = fork_version(&self.spec, d.target.epoch.as_u64());
        hash2(&data_root(d), &domain(1, version, &self.gvr))
    }
    pub fn sign(&self, signers: &[usize], root: &B32) -> AggregateSignature {
        let mut a = AggregateSignature::empty();
        for s in signers {
            a.add_assign(&key(*s).sign(b(*root)));
        }
        a
    }
    pub fn data(&self, slot: u64, source: Checkpoint, target: Checkpoint) -> AttestationData {
        AttestationData {
            slot: slot.into(),
            index: 0,
            beacon_block_root: b(val(self.seed, "head", slot)),
            source: source.into(),
            target: target.into(),
        }
    }
    /// Honest attestations for a link by the given voters, one per slot of the target epoch.
    pub fn attest<E: EthSpec>(&self, source: Checkpoint, target: Checkpoint, voter: impl Fn(usize) -> bool) -> Vec<Attestation<E>> {
        let spe = E::slots_per_epoch();
        let mut out = vec![];
        for slot in target.epoch().as_u64() * spe..(target.epoch().as_u64() + 1) * spe {
            let Some(cs) = self.committees::<E>(slot) else { continue };
            let named: Vec<usize> = (0..cs.len()).filter(|c| cs[*c].iter().any(|v| voter(*v))).collect();
            if named.is_empty() {
                continue;
            }
            let members: Vec<usize> = named.iter().flat_map(|c| cs[*c].iter().copied()).collect();
            let bits: Vec<bool> = members.iter().map(|v| voter(*v)).collect();
            let data = self.data(slot, source, target);
            let signers: Vec<usize> = members.into_iter().filter(|v| voter(*v)).collect();
            let signature = self.sign(&signers, &self.signing_root(&data));
            out.push(attestation(&named, &bits, data, signature));
        }
        out
    }
}

pub fn attestation<E: EthSpec>(committees: &[usize], bits: &[bool], data: AttestationData, signature: AggregateSignature) -> Attestation<E> {
    let mut aggregation_bits = BitList::with_capacity(bits.len()).unwrap();
    for (i, x) in bits.iter().enumerate() {
        aggregation_bits.set(i, *x).unwrap();
    }
    let mut committee_bits = BitVector::new();
    for c in committees {
        committee_bits.set(*c, true).unwrap();
    }
    Attestation::Electra(AttestationElectra { aggregation_bits, data, signature, committee_bits })
}
pub fn base_attestation<E: EthSpec>(bits: &[bool], data: AttestationData, signature: AggregateSignature) -> Attestation<E> {
    let mut aggregation_bits = BitList::with_capacity(bits.len()).unwrap();
    for (i, x) in bits.iter().enumerate() {
        aggregation_bits.set(i, *x).unwrap();
    }
    Attestation::Base(AttestationBase { aggregation_bits, data, signature })
}

/// What verification sees.
pub struct Reader<'a, E: EthSpec> {
    pub world: &'a World,
    pub state: ConsensusState,
    pub attestations: Vec<&'a Attestation<E>>,
}
impl<E: EthSpec> InputReader for Reader<'_, E> {
    type Error = WorldError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.world.spec
    }
    fn genesis_validators_root(&self) -> Result<B256, WorldError> {
        Ok(b(self.world.gvr))
    }
    fn fork(&self, epoch: Epoch) -> Result<Fork, WorldError> {
        Ok(self.world.spec.fork_at_epoch(epoch))
    }
    fn active_validators(&self, epoch: Epoch) -> Result<impl Iterator<Item = (usize, &ValidatorInfo)>, WorldError> {
        Ok(self.world.active(epoch.as_u64()).into_iter().map(|i| (i, &self.world.registry[&i])))
    }
    fn randao_mix(&self, epoch: Epoch, idx: u32) -> Result<Option<B256>, WorldError> {
        Ok(self.world.mix(epoch.as_u64(), idx).map(b))
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, WorldError> {
        Ok(self.attestations.iter().copied())
    }
    fn consensus_state(&self) -> Result<ConsensusState, WorldError> {
        Ok(self.state.clone())
    }
    fn slot_for_block(&self, root: &B256) -> Result<u64, WorldError> {
        self.world.slots.get(&root.0).copied().ok_or_else(|| WorldError("no such block".into()))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept(ConsensusState, u64),
    Reject(&'static str),
    /// arithmetic beyond 64 bits: may be refused, but if accepted then with this result
    MayReject(ConsensusState, u64),
}

pub fn config(min: ForkName, max: ForkName, limit: u64, factor: u64, quotient: u64) -> Config {
    Config {
        min_version: min,
        max_version: max,
        epoch_lookahead_limit: Epoch::new(limit),
        justification_threshold_factor: factor,
        justification_threshold_quotient: quotient,
    }
}
pub fn default_config() -> Config {
    config(ForkName::Electra, ForkName::Fulu, 4, 2, 3)
}

/// The model of a state: (justified, finalized), each (epoch, root).
pub type Cp = (u64, B32);
pub fn cp(c: Cp) -> Checkpoint {
    Checkpoint::new(Epoch::new(c.0), b(c.1))
}
pub fn un(c: Checkpoint) -> Cp {
    (c.epoch().as_u64(), c.root().0)
}
/// One step of the model: the successor of a state over a link, if there is one.
pub fn step(s: (Cp, Cp), l: (Cp, Cp)) -> Option<(Cp, Cp)> {
    let (justified, finalized) = s;
    let (source, target) = l;
    if source != justified || target.0 <= source.0 {
        return None;
    }
    Some((target, if target.0 - source.0 == 1 { source } else { finalized }))
}

/// What verification has to answer.
pub fn oracle<E: EthSpec>(cfg: &Config, w: &World, state: &ConsensusState, atts: &[&Attestation<E>]) -> Verdict {
    let spe = E::slots_per_epoch();
    let trusted = un(state.finalized_checkpoint());
    let mut cur = (un(state.current_justified_checkpoint()), trusted);
    let mut may = false;
    let mut i = 0;
    while i < atts.len() {
        let link = (atts[i].data().source, atts[i].data().target);
        let mut j = i;
        while j < atts.len() && (atts[j].data().source, atts[j].data().target) == link {
            j += 1;
        }
        let group = &atts[i..j];
        i = j;
        if cur.1 != trusted {
            return Verdict::Reject("link after the finalizing one");
        }
        let epoch = link.1.epoch.as_u64();
        let f = fork_name(&w.spec, epoch);
        if f < cfg.min_version || f > cfg.max_version {
            return Verdict::Reject("unsupported fork");
        }
        if epoch.saturating_sub(trusted.0) > cfg.epoch_lookahead_limit.as_u64() {
            return Verdict::Reject("too far ahead");
        }
        let active = w.active(epoch);
        let mut voted: BTreeSet<usize> = BTreeSet::new();
        for a in group {
            let Attestation::Electra(a) = a else { return Verdict::Reject("not an electra attestation") };
            let slot = a.data.slot.as_u64();
            if slot / spe != epoch || a.data.index != 0 {
                return Verdict::Reject("slot or index");
            }
            let Some(cs) = w.committees::<E>(slot) else { return Verdict::Reject("no committees") };
            let mut bits = a.aggregation_bits.iter();
            let mut signers = vec![];
            let named: Vec<usize> = a.committee_bits.iter().enumerate().filter(|x| x.1).map(|x| x.0).collect();
            for c in named {
                let Some(members) = cs.get(c) else { return Verdict::Reject("no such committee") };
                let before = signers.len();
                for m in members {
                    match bits.next() {
                        None => return Verdict::Reject("too few bits"),
                        Some(true) => signers.push(*m),
                        Some(false) => {}
                    }
                }
                if signers.len() == before {
                    return Verdict::Reject("committee without a vote");
                }
            }
            if bits.next().is_some() {
                return Verdict::Reject("too many bits");
            }
            if signers.is_empty() {
                return Verdict::Reject("no votes");
            }
            if w.sign(&signers, &w.signing_root(&a.data)) != a.signature {
                return Verdict::Reject("signature");
            }
            voted.extend(signers);
        }
        let inc = w.spec.effective_balance_increment as u128;
        let total: u128 = active.iter().map(|v| w.registry[v].effective_balance as u128).sum();
        let votes: u128 = voted.iter().filter(|v| !w.registry[v].slashed).map(|v| w.registry[v].effective_balance as u128).sum();
        let (total, votes) = (total.max(inc), votes.max(inc));
        if votes * (cfg.justification_threshold_quotient as u128) < total * (cfg.justification_threshold_factor as u128) || votes * 3 < total * 2 {
            return Verdict::Reject("not enough stake");
        }
        if total * 3 > u64::MAX as u128 {
            may = true;
        }
        match step(cur, (un(link.0.into()), un(link.1.into()))) {
            Some(s) => cur = s,
            None => return Verdict::Reject("not a transition"),
        }
    }
    if cur.1 == trusted {
        return Verdict::Reject("no finalization");
    }
    let Some(slot) = w.slots.get(&cur.1 .1) else { return Verdict::Reject("unknown block") };
    let s = ConsensusState::new(cp(cur.0), cp(cur.1));
    if may {
        Verdict::MayReject(s, *slot)
    } else {
        Verdict::Accept(s, *slot)
    }
}

/// Runs the real verification; `None` if it refuses or panics.
pub fn run<E: EthSpec>(cfg: &Config, w: &World, state: &ConsensusState, atts: &[&Attestation<E>]) -> (Option<(ConsensusState, u64)>, String) {
    let r = Reader { world: w, state: state.clone(), attestations: atts.to_vec() };
    match crate::guard(|| z_core::verify(cfg, &r)) {
        Ok(Ok(x)) => (Some(x), String::new()),
        Ok(Err(e)) => (None, e.to_string()),
        Err(p) => (None, format!("panic: {p}")),
    }
}
pub fn agrees(v: &Verdict, got: &Option<(ConsensusState, u64)>) -> bool {
    match (v, got) {
        (Verdict::Accept(s, n), Some((t, m))) => s == t && n == m,
        (Verdict::Reject(_), None) => true,
        (Verdict::MayReject(..), None) => true,
        (Verdict::MayReject(s, n), Some((t, m))) => s == t && n == m,
        _ => false,
    }
}
pub fn link(source: Cp, target: Cp) -> Link {
    Link { source: cp(source), target: cp(target) }
}
