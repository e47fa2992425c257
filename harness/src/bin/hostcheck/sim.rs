//! A small consensus chain: slots, blocks with attestations, justification and finalization, the registry's life cycle
//! and the Electra to Fulu fork, after the consensus specification and independent of the code under test.
//! Rewards, penalties and everything else the host does not look at are left out.
use alloy_primitives::B256;
use beacon_types::{ChainSpec, EthSpec};
use ethereum_consensus::electra::mainnet::Attestation as BlockAttestation;
use ethereum_consensus::electra::{BeaconBlock, BeaconBlockBody};
use ethereum_consensus::phase0::{AttestationData, BeaconBlockHeader, Checkpoint, Fork, SignedBeaconBlockHeader, Validator};
use ethereum_consensus::types::mainnet::BeaconBlock as AnyBlock;
use host::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
use ssz_rs::HashTreeRoot;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;
use std::sync::Arc;
use verif_harness::spec::{self, committee, committees_per_slot, domain, fork_version, key, Four, FAR};
use verif_harness::util::*;

pub const SPE: u64 = 4;
const HIST: u64 = 16;
pub type StateRef = Arc<BeaconState>;

/// How much of an epoch's committees votes, and when their votes get into blocks.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    /// all vote, and their votes get into the next blocks
    All,
    /// too few vote for a justification
    Few,
    /// all but those of the last slot vote: enough for the chain, in time, but no more than three of four
    Most,
    /// all vote, but the votes get into blocks of the following epoch only, from its n-th slot on
    Late(u64),
    /// all vote, but for another target
    Elsewhere,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Event {
    /// in the block at a slot (or the next block)
    Exit(usize),
    Slash(usize),
    Consolidate(usize),
    /// at the end of the slot's epoch
    Deposit,
    Balance(usize, u64),
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub spec: ChainSpec,
    pub base: u64,
    pub last: u64,
    pub registry: Vec<Validator>,
    pub empty: BTreeSet<u64>,
    pub part: BTreeMap<u64, Part>,
    pub events: Vec<(u64, Event)>,
    /// every slot's votes come in two overlapping aggregates instead of one
    pub overlapping: bool,
    pub earliest_exit: u64,
}
pub fn validator(i: usize) -> Validator {
    Validator {
        public_key: key(i).public_key().serialize().into(),
        withdrawal_credentials: val(1, "wc", i as u64).into(),
        effective_balance: 32_000_000_000,
        slashed: false,
        activation_eligibility_epoch: 0,
        activation_epoch: 0,
        exit_epoch: FAR,
        withdrawable_epoch: FAR,
    }
}
impl Plan {
    pub fn new(seed: u64, base: u64, last: u64, n: usize) -> Self {
        let mut spec = spec::tiny_spec();
        // room for consolidations beside exits
        spec.min_per_epoch_churn_limit_electra = 128_000_000_000;
        spec.max_per_epoch_activation_exit_churn_limit = 64_000_000_000;
        Plan {
            seed,
            spec,
            base,
            last,
            registry: (0..n).map(validator).collect(),
            empty: BTreeSet::new(),
            part: BTreeMap::new(),
            events: vec![],
            overlapping: false,
            earliest_exit: 0,
        }
    }
    pub fn build(&self) -> Sim {
        Sim::run(self)
    }
}

macro_rules! to_fulu {
    // the lists' limits may differ, C25 is to tell
    ($s:expr; $($f:ident)*; $($l:ident)*) => {
        FuluBeaconState { $($f: $s.$f.clone(),)* $($l: $s.$l.iter().cloned().collect::<Vec<_>>().try_into().unwrap(),)* ..Default::default() }
    };
}
/// The Fulu state with an Electra state's contents.
pub fn fulu_of(s: &ElectraBeaconState) -> FuluBeaconState {
    to_fulu!(s; genesis_time genesis_validators_root slot fork latest_block_header block_roots state_roots historical_roots
        eth1_data eth1_data_votes eth1_deposit_index validators balances randao_mixes slashings previous_epoch_participation
        current_epoch_participation justification_bits previous_justified_checkpoint current_justified_checkpoint
        finalized_checkpoint inactivity_scores current_sync_committee next_sync_committee latest_execution_payload_header
        next_withdrawal_index next_withdrawal_validator_index historical_summaries deposit_requests_start_index
        deposit_balance_to_consume exit_balance_to_consume earliest_exit_epoch consolidation_balance_to_consume
        earliest_consolidation_epoch; pending_deposits pending_partial_withdrawals pending_consolidations)
}

pub struct Sim {
    pub spec: ChainSpec,
    pub states: BTreeMap<u64, StateRef>,
    pub blocks: BTreeMap<u64, AnyBlock>,
    pub roots: BTreeMap<u64, B256>,
    pub headers: BTreeMap<B256, SignedBeaconBlockHeader>,
}
struct Run<'a> {
    p: &'a Plan,
    s: ElectraBeaconState,
    fulu: bool,
    /// votes not yet known to be in a block: (epoch, first slot of inclusion, vote)
    pending: Vec<(u64, u64, BlockAttestation)>,
    events: Vec<(u64, Event)>,
    out: Sim,
}

fn active(v: &Validator, e: u64) -> bool {
    v.activation_epoch <= e && e < v.exit_epoch
}
impl Run<'_> {
    fn wrap(&self) -> BeaconState {
        if self.fulu {
            BeaconState::Fulu(fulu_of(&self.s))
        } else {
            BeaconState::Electra(self.s.clone())
        }
    }
    fn root(&self) -> B256 {
        self.wrap().hash_tree_root().unwrap()
    }
    fn epoch(&self) -> u64 {
        self.s.slot / SPE
    }
    fn total(&self, e: u64) -> u64 {
        self.s.validators.iter().filter(|v| active(v, e)).map(|v| v.effective_balance).sum::<u64>().max(1_000_000_000)
    }
    fn churn(&self) -> (u64, u64) {
        let sp = &self.p.spec;
        let c = sp.min_per_epoch_churn_limit_electra.max(self.total(self.epoch()) / sp.churn_limit_quotient);
        let c = c - c % sp.effective_balance_increment;
        let exit = c.min(sp.max_per_epoch_activation_exit_churn_limit);
        (exit, c - exit)
    }
    fn activation_exit(&self, e: u64) -> u64 {
        e + 1 + self.p.spec.max_seed_lookahead.as_u64()
    }
    fn set_exit(&mut self, i: usize, e: u64) {
        self.s.validators[i].exit_epoch = e;
        self.s.validators[i].withdrawable_epoch = e + 256;
    }
    fn initiate_exit(&mut self, i: usize) {
        if self.s.validators[i].exit_epoch != FAR {
            return;
        }
        let balance = self.s.validators[i].effective_balance;
        let mut earliest = self.s.earliest_exit_epoch.max(self.activation_exit(self.epoch()));
        let churn = self.churn().0;
        let mut left = if self.s.earliest_exit_epoch < earliest { churn } else { self.s.exit_balance_to_consume };
        if balance > left {
            let more = (balance - left - 1) / churn + 1;
            earliest += more;
            left += more * churn;
        }
        self.s.exit_balance_to_consume = left - balance;
        self.s.earliest_exit_epoch = earliest;
        self.set_exit(i, earliest);
    }
    fn consolidate(&mut self, i: usize) {
        let churn = self.churn().1;
        if self.s.validators[i].exit_epoch != FAR || churn <= self.p.spec.min_activation_balance {
            return;
        }
        let balance = self.s.validators[i].effective_balance;
        let mut earliest = self.s.earliest_consolidation_epoch.max(self.activation_exit(self.epoch()));
        let mut left = if self.s.earliest_consolidation_epoch < earliest { churn } else { self.s.consolidation_balance_to_consume };
        if balance > left {
            let more = (balance - left - 1) / churn + 1;
            earliest += more;
            left += more * churn;
        }
        self.s.consolidation_balance_to_consume = left - balance;
        self.s.earliest_consolidation_epoch = earliest;
        self.set_exit(i, earliest);
    }
    fn root_at(&self, slot: u64) -> B256 {
        *self.out.roots.range(..=slot).next_back().unwrap().1
    }
    fn justification(&mut self) {
        let now = self.epoch();
        let weight = |part: &[u8], e: u64| -> u64 {
            self.s.validators.iter().zip(part).filter(|(v, p)| active(v, e) && !v.slashed && **p & 2 != 0).map(|(v, _)| v.effective_balance).sum()
        };
        let prev = weight(&self.s.previous_epoch_participation, now - 1);
        let cur = weight(&self.s.current_epoch_participation, now);
        let total = self.total(now);
        let (old_prev, old_cur) = (self.s.previous_justified_checkpoint.clone(), self.s.current_justified_checkpoint.clone());
        self.s.previous_justified_checkpoint = old_cur.clone();
        let bits = &mut self.s.justification_bits;
        bits.copy_within(0..3, 1);
        bits.set_bit(0, false);
        let mut new = None;
        if prev * 3 >= total * 2 {
            bits.set_bit(1, true);
            new = Some(now - 1);
        }
        if cur * 3 >= total * 2 {
            bits.set_bit(0, true);
            new = Some(now);
        }
        if let Some(e) = new {
            self.s.current_justified_checkpoint = Checkpoint { epoch: e, root: self.root_at(e * SPE) };
        }
        let b: Vec<bool> = (0..4).map(|i| self.s.justification_bits[i]).collect();
        if b[1] && b[2] && b[3] && old_prev.epoch + 3 == now {
            self.s.finalized_checkpoint = old_prev.clone();
        }
        if b[1] && b[2] && old_prev.epoch + 2 == now {
            self.s.finalized_checkpoint = old_prev;
        }
        if b[0] && b[1] && b[2] && old_cur.epoch + 2 == now {
            self.s.finalized_checkpoint = old_cur.clone();
        }
        if b[0] && b[1] && old_cur.epoch + 1 == now {
            self.s.finalized_checkpoint = old_cur;
        }
    }
    fn end_of_epoch(&mut self) {
        let now = self.epoch();
        self.justification();
        // registry updates
        for i in 0..self.s.validators.len() {
            let v = self.s.validators[i].clone();
            if v.activation_eligibility_epoch == FAR && v.effective_balance >= self.p.spec.min_activation_balance {
                self.s.validators[i].activation_eligibility_epoch = now + 1;
            } else if active(&v, now) && v.effective_balance <= self.p.spec.ejection_balance {
                self.initiate_exit(i);
            } else if v.activation_epoch == FAR && v.activation_eligibility_epoch <= self.s.finalized_checkpoint.epoch {
                self.s.validators[i].activation_epoch = self.activation_exit(now);
            }
        }
        for (slot, ev) in self.events.clone() {
            if slot / SPE == now {
                match ev {
                    Event::Deposit => {
                        let i = self.s.validators.len();
                        let mut v = validator(i);
                        v.activation_eligibility_epoch = FAR;
                        v.activation_epoch = FAR;
                        self.add(v);
                    }
                    Event::Balance(i, gwei) => self.s.validators[i].effective_balance = gwei,
                    _ => {}
                }
            }
        }
        let mix = self.s.randao_mixes[(now % HIST) as usize].clone();
        self.s.randao_mixes[((now + 1) % HIST) as usize] = mix;
        self.s.previous_epoch_participation = self.s.current_epoch_participation.clone();
        for p in self.s.current_epoch_participation.iter_mut() {
            *p = 0;
        }
    }
    fn add(&mut self, v: Validator) {
        self.s.balances.push(v.effective_balance);
        self.s.validators.push(v);
        self.s.previous_epoch_participation.push(0);
        self.s.current_epoch_participation.push(0);
        self.s.inactivity_scores.push(0);
    }
    fn advance(&mut self) {
        let root = self.root();
        let slot = self.s.slot;
        self.s.state_roots[(slot % 8) as usize] = root;
        if self.s.latest_block_header.state_root.is_zero() {
            self.s.latest_block_header.state_root = root;
        }
        self.s.block_roots[(slot % 8) as usize] = self.s.latest_block_header.hash_tree_root().unwrap();
        if (slot + 1) % SPE == 0 {
            self.end_of_epoch();
        }
        self.s.slot += 1;
        if Some(self.s.slot) == self.p.spec.fulu_fork_epoch.map(|e| e.as_u64() * SPE) {
            self.fulu = true;
            self.s.fork = fork(&self.p.spec, self.s.slot / SPE);
        }
    }
    fn block(&mut self) {
        let slot = self.s.slot;
        let epoch = self.epoch();
        let mut body = BeaconBlockBody::default();
        body.randao_reveal[..32].copy_from_slice(&val(self.p.seed, "reveal", slot));
        for (_, ev) in self.events.clone().into_iter().filter(|(s, _)| *s == slot) {
            match ev {
                Event::Exit(i) => self.initiate_exit(i),
                Event::Slash(i) => {
                    self.initiate_exit(i);
                    self.s.validators[i].slashed = true;
                }
                Event::Consolidate(i) => self.consolidate(i),
                _ => {}
            }
        }
        // votes
        let mut rest = vec![];
        for (e, from, a) in std::mem::take(&mut self.pending) {
            if a.data.slot < slot && from <= slot && e + 1 >= epoch {
                self.count(&a);
                body.attestations.push(a);
            } else if e + 1 >= epoch {
                rest.push((e, from, a));
            }
        }
        self.pending = rest;
        let mix = &mut self.s.randao_mixes[(epoch % HIST) as usize];
        let h = sha(&[&body.randao_reveal]);
        for (m, x) in mix.iter_mut().zip(h) {
            *m ^= x;
        }
        self.s.latest_block_header = BeaconBlockHeader {
            slot,
            proposer_index: (slot % 3) as usize,
            parent_root: self.s.latest_block_header.hash_tree_root().unwrap(),
            state_root: B256::ZERO,
            body_root: body.hash_tree_root().unwrap(),
        };
        let mut header = self.s.latest_block_header.clone();
        header.state_root = self.root();
        let root = header.hash_tree_root().unwrap();
        let block = BeaconBlock {
            slot,
            proposer_index: header.proposer_index,
            parent_root: header.parent_root,
            state_root: header.state_root,
            body,
        };
        assert_eq!(root, block.hash_tree_root().unwrap());
        self.out.blocks.insert(slot, AnyBlock::Electra(block));
        self.out.roots.insert(slot, root);
        self.out.headers.insert(root, SignedBeaconBlockHeader { message: header, ..Default::default() });
    }
    /// Takes a vote's target into account, if it is the right one.
    fn count(&mut self, a: &BlockAttestation) {
        let e = a.data.target.epoch;
        let current = e == self.epoch();
        let source = if current { &self.s.current_justified_checkpoint } else { &self.s.previous_justified_checkpoint };
        assert_eq!(*source, a.data.source);
        if a.data.target.root != self.root_at(e * SPE) {
            return;
        }
        let members = committees(&self.p.spec, &self.s, a.data.slot).concat();
        for (m, b) in members.iter().zip(a.aggregation_bits.iter()) {
            if *b {
                if current {
                    self.s.current_epoch_participation[*m] |= 7;
                } else {
                    self.s.previous_epoch_participation[*m] |= 7;
                }
            }
        }
    }
    fn votes(&mut self) {
        let slot = self.s.slot;
        let e = self.epoch();
        let part = self.p.part.get(&e).copied().unwrap_or(Part::All);
        let cs = committees(&self.p.spec, &self.s, slot);
        let members = cs.concat();
        let mut target = Checkpoint { epoch: e, root: self.root_at(e * SPE) };
        if part == Part::Elsewhere {
            target.root = val(self.p.seed, "elsewhere", e).into();
        }
        let data = AttestationData {
            slot,
            index: 0,
            beacon_block_root: self.root_at(slot),
            source: self.s.current_justified_checkpoint.clone(),
            target,
        };
        let root = {
            let d = beacon_types::AttestationData {
                slot: slot.into(),
                index: 0,
                beacon_block_root: data.beacon_block_root,
                source: beacon_types::Checkpoint { epoch: data.source.epoch.into(), root: data.source.root },
                target: beacon_types::Checkpoint { epoch: e.into(), root: data.target.root },
            };
            hash2(&spec::data_root(&d), &domain(1, fork_version(&self.p.spec, e), &self.s.genesis_validators_root.0))
        };
        let sets: Vec<Vec<bool>> = match part {
            Part::Few => vec![(0..members.len()).map(|i| i == 0 || slot % SPE == 0).collect()],
            Part::Most if slot % SPE == SPE - 1 => vec![],
            _ if self.p.overlapping && members.len() > 1 => {
                let n = members.len();
                vec![(0..n).map(|i| i > 0).collect(), (0..n).map(|i| i + 1 < n).collect()]
            }
            _ => vec![vec![true; members.len()]],
        };
        let from = match part {
            Part::Late(n) => (e + 1) * SPE + n,
            _ => 0,
        };
        for bits in sets.into_iter().filter(|b| b.contains(&true)) {
            // committees without a vote are not named
            let mut named = ethereum_bits();
            let mut kept = vec![];
            let mut at = 0;
            for (c, ms) in cs.iter().enumerate() {
                let b = &bits[at..at + ms.len()];
                at += ms.len();
                if b.iter().any(|x| *x) {
                    named.set_bit(c, true);
                    kept.extend_from_slice(b);
                }
            }
            let mut sig = beacon_types::AggregateSignature::empty();
            for (m, b) in members.iter().zip(&bits) {
                if *b {
                    sig.add_assign(&key(*m).sign(root.into()));
                }
            }
            let mut a = BlockAttestation { aggregation_bits: kept.into(), data: data.clone(), committee_bits: named, ..Default::default() };
            a.signature.copy_from_slice(&sig.serialize());
            self.pending.push((e, from, a));
        }
    }
}
fn ethereum_bits() -> ssz_rs::Bitvector<8> {
    Default::default()
}
pub trait SetBit {
    fn set_bit(&mut self, i: usize, v: bool);
}
impl<const N: usize> SetBit for ssz_rs::Bitvector<N> {
    fn set_bit(&mut self, i: usize, v: bool) {
        self[i] = v;
    }
}
pub fn fork(spec: &ChainSpec, epoch: u64) -> Fork {
    let f = spec.fork_at_epoch(epoch.into());
    Fork { previous_version: f.previous_version, current_version: f.current_version, epoch: f.epoch.as_u64() }
}
/// The committees of a slot of the state's epoch.
pub fn committees(spec: &ChainSpec, s: &ElectraBeaconState, slot: u64) -> Vec<Vec<usize>> {
    let e = slot / SPE;
    let set: Vec<usize> = (0..s.validators.len()).filter(|i| active(&s.validators[*i], e)).collect();
    let mix = &s.randao_mixes[((e + HIST - spec.min_seed_lookahead.as_u64() - 1) % HIST) as usize];
    let seed = sha(&[&1u32.to_le_bytes(), &e.to_le_bytes(), mix]);
    let cps = committees_per_slot::<Four>(set.len(), spec);
    let first = (slot % SPE) as usize * cps;
    (first..first + cps).map(|i| committee(&set, &seed, i, cps * SPE as usize, spec.shuffle_round_count)).collect()
}
impl Sim {
    fn run(p: &Plan) -> Sim {
        assert_eq!(Four::slots_per_epoch(), SPE);
        let mut s = ElectraBeaconState { genesis_time: 7, slot: p.base * SPE, ..Default::default() };
        s.genesis_validators_root = val(p.seed, "gvr", 0).into();
        s.fork = fork(&p.spec, p.base);
        for i in 0..HIST {
            s.randao_mixes[i as usize] = val(p.seed, "mix0", i).into();
        }
        for i in 0..8 {
            s.block_roots[i] = val(p.seed, "root0", i as u64).into();
            s.state_roots[i] = val(p.seed, "sroot0", i as u64).into();
        }
        let header = BeaconBlockHeader {
            slot: p.base * SPE - 1,
            proposer_index: 1,
            parent_root: val(p.seed, "parent", 0).into(),
            state_root: val(p.seed, "sroot", 0).into(),
            body_root: val(p.seed, "body", 0).into(),
        };
        let cp = |e: u64| Checkpoint { epoch: e, root: val(p.seed, "cp0", e).into() };
        s.previous_justified_checkpoint = cp(p.base - 2);
        s.current_justified_checkpoint = cp(p.base - 1);
        s.finalized_checkpoint = cp(p.base - 2);
        for i in 0..4 {
            s.justification_bits.set_bit(i, true);
        }
        s.earliest_exit_epoch = p.earliest_exit;
        let root = header.hash_tree_root().unwrap();
        s.latest_block_header = header.clone();
        let out = Sim {
            spec: p.spec.clone(),
            states: BTreeMap::new(),
            blocks: BTreeMap::new(),
            roots: [((p.base - 1) * SPE, val(p.seed, "cp0", p.base - 1).into()), (header.slot, root)].into(),
            headers: [(root, SignedBeaconBlockHeader { message: header, ..Default::default() })].into(),
        };
        let fulu = p.spec.fulu_fork_epoch.is_some_and(|e| e.as_u64() <= p.base);
        let mut r = Run { p, s, fulu, pending: vec![], events: p.events.clone(), out };
        for v in &p.registry {
            r.add(v.clone());
        }
        for x in r.s.previous_epoch_participation.iter_mut() {
            *x = 7;
        }
        while r.epoch() <= p.last {
            let slot = r.s.slot;
            if p.empty.contains(&slot) {
                // what would be in this block is in the next
                for e in r.events.iter_mut().filter(|(s, e)| *s == slot && !matches!(e, Event::Deposit | Event::Balance(..))) {
                    e.0 += 1;
                }
            } else {
                r.block();
            }
            r.out.states.insert(slot, Arc::new(r.wrap()));
            r.votes();
            r.advance();
        }
        r.out
    }
    /// The root of the last block at or before the epoch's first slot.
    pub fn boundary_root(&self, epoch: u64) -> B256 {
        *self.roots.range(..=epoch * SPE).next_back().unwrap().1
    }
    pub fn checkpoint(&self, epoch: u64) -> z_core::Checkpoint {
        z_core::Checkpoint::new(epoch.into(), self.boundary_root(epoch))
    }
    pub fn consensus(&self, slot: u64) -> Option<z_core::ConsensusState> {
        let s = self.states.get(&slot)?;
        let cp = |c: &Checkpoint| z_core::Checkpoint::new(c.epoch.into(), c.root);
        Some(z_core::ConsensusState::new(cp(s.current_justified_checkpoint()), cp(s.finalized_checkpoint())))
    }
    pub fn block_by_id(&self, id: &str) -> Option<u64> {
        match id.parse::<u64>() {
            Ok(slot) => self.blocks.contains_key(&slot).then_some(slot),
            Err(_) => {
                let root: B256 = id.parse().ok()?;
                self.headers.get(&root).map(|h| h.message.slot)
            }
        }
    }
}

/// The chain as the host reads it; requests can be made to fail.
pub struct Chain<'a> {
    pub sim: &'a Sim,
    pub requests: Cell<u64>,
    pub fail_at: Cell<Option<u64>>,
    pub log: RefCell<Vec<String>>,
}
impl<'a> Chain<'a> {
    pub fn new(sim: &'a Sim) -> Self {
        Chain { sim, requests: Cell::new(0), fail_at: Cell::new(None), log: Default::default() }
    }
    fn request(&self) -> anyhow::Result<()> {
        let n = self.requests.get();
        self.requests.set(n + 1);
        anyhow::ensure!(self.fail_at.get() != Some(n), "broken");
        Ok(())
    }
}
impl host::ChainReader for &Chain<'_> {
    async fn get_block_header(&self, id: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        self.request()?;
        let id = id.to_string();
        Ok(match id.parse::<u64>() {
            Ok(slot) => self.sim.roots.get(&slot).map(|r| self.sim.headers[r].clone()),
            Err(_) => self.sim.headers.get(&id.parse::<B256>()?).cloned(),
        })
    }
    async fn get_block(&self, id: impl Display) -> anyhow::Result<Option<AnyBlock>> {
        self.request()?;
        Ok(self.sim.block_by_id(&id.to_string()).and_then(|s| self.sim.blocks.get(&s).cloned()))
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<z_core::ConsensusState> {
        self.request()?;
        let slot: u64 = id.to_string().parse()?;
        self.sim.consensus(slot).ok_or_else(|| anyhow::anyhow!("no state at {slot}"))
    }
}
impl host::StateProvider for &Chain<'_> {
    type Spec = Four;
    fn state_at_slot(&self, slot: z_core::Slot) -> Result<StateRef, host::StateProviderError> {
        self.request()?;
        self.sim.states.get(&slot.as_u64()).cloned().ok_or(host::StateProviderError::NotFound(slot))
    }
}
