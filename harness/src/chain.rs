//! A beacon block and state with the layout of the consensus specification, and the guest input for them.
use crate::spec::*;
use crate::tree::*;
use crate::util::*;
use beacon_types::{Attestation, ChainSpec, EthSpec};
use std::collections::BTreeMap;
use z_core::{ConsensusState, Epoch, GuestInput, InputReader, StatePatch, ValidatorInfo};

/// The Electra beacon state's fields; Fulu appends one.
pub const STATE_FIELDS: [&str; 38] = [
    "genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots",
    "historical_roots", "eth1_data", "eth1_data_votes", "eth1_deposit_index", "validators", "balances", "randao_mixes",
    "slashings", "previous_epoch_participation", "current_epoch_participation", "justification_bits",
    "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "inactivity_scores",
    "current_sync_committee", "next_sync_committee", "latest_execution_payload_header", "next_withdrawal_index",
    "next_withdrawal_validator_index", "historical_summaries", "deposit_requests_start_index",
    "deposit_balance_to_consume", "exit_balance_to_consume", "earliest_exit_epoch",
    "consolidation_balance_to_consume", "earliest_consolidation_epoch", "pending_deposits",
    "pending_partial_withdrawals", "pending_consolidations", "proposer_lookahead",
];
pub const BLOCK_FIELDS: [&str; 5] = ["slot", "proposer_index", "parent_root", "state_root", "body_root"];
pub const VALIDATOR_FIELDS: [&str; 8] = [
    "pubkey", "withdrawal_credentials", "effective_balance", "slashed", "activation_eligibility_epoch",
    "activation_epoch", "exit_epoch", "withdrawable_epoch",
];
fn pos(names: &[&str], name: &str) -> u64 {
    names.iter().position(|n| *n == name).unwrap_or_else(|| panic!("{name}")) as u64
}
/// Generalized index of a top-level field of the state (64 chunks), block header (8) or validator (8).
pub fn state_g(name: &str) -> u64 {
    64 + pos(&STATE_FIELDS, name)
}
pub fn block_g(name: &str) -> u64 {
    8 + pos(&BLOCK_FIELDS, name)
}
/// Generalized index of a validator's field in the registry (a list of at most 2^40).
pub fn validator_g(i: u64, name: &str) -> u64 {
    let v = (2u64 << 40) + i;
    v * 8 + pos(&VALIDATOR_FIELDS, name)
}
pub fn pubkey_g(i: u64, part: u64) -> u64 {
    validator_g(i, "pubkey") * 2 + part
}

#[derive(Clone, Debug)]
pub struct BlockState {
    pub seed: u64,
    pub gvr: B32,
    pub slot: u64,
    pub fork: ([u8; 4], [u8; 4], u64),
    pub validators: Vec<ValidatorInfo>,
    pub finalized_epoch: u64,
    pub earliest_exit: u64,
    pub earliest_consolidation: u64,
    pub fulu: bool,
    /// the slot of the block (that of the state unless slots are skipped)
    pub block_slot: u64,
    /// withdrawal credentials chosen by a validator
    pub withdrawal: std::collections::BTreeMap<usize, B32>,
}
impl BlockState {
    pub fn new<E: EthSpec>(seed: u64, spec: &ChainSpec, slot: u64, validators: Vec<ValidatorInfo>) -> Self {
        let f = fork_of(spec, slot / E::slots_per_epoch());
        BlockState {
            seed,
            gvr: val(seed, "gvr", 0),
            slot,
            fork: f,
            validators,
            finalized_epoch: (slot / E::slots_per_epoch()).saturating_sub(2),
            earliest_exit: 0,
            earliest_consolidation: 0,
            fulu: false,
            block_slot: slot,
            withdrawal: Default::default(),
        }
    }
    pub fn validator_tree(&self, i: usize) -> T {
        let v = &self.validators[i];
        let pk = v.pubkey.serialize();
        let mut a = [0u8; 32];
        let mut c = [0u8; 32];
        a.copy_from_slice(&pk[..32]);
        c[..16].copy_from_slice(&pk[32..]);
        container(vec![
            pair(leaf(a), leaf(c)),
            leaf(self.withdrawal.get(&i).copied().unwrap_or_else(|| val(self.seed, "withdrawal", i as u64))),
            num(v.effective_balance),
            num(v.slashed as u64),
            num(v.activation_eligibility_epoch.as_u64()),
            num(v.activation_epoch.as_u64()),
            num(v.exit_epoch.as_u64()),
            num(v.exit_epoch.as_u64().saturating_add(256)),
        ])
    }
    pub fn registry(&self) -> T {
        list((0..self.validators.len()).map(|i| self.validator_tree(i)).collect(), 40)
    }
    pub fn state(&self, registry: T) -> T {
        let v4 = |v: [u8; 4]| {
            let mut c = [0u8; 32];
            c[..4].copy_from_slice(&v);
            leaf(c)
        };
        let n = 37 + self.fulu as usize;
        let parts = (0..n)
            .map(|i| match STATE_FIELDS[i] {
                "genesis_validators_root" => leaf(self.gvr),
                "slot" => num(self.slot),
                "fork" => container(vec![v4(self.fork.0), v4(self.fork.1), num(self.fork.2)]),
                "validators" => registry.clone(),
                "finalized_checkpoint" => pair(num(self.finalized_epoch), leaf(val(self.seed, "fin", 0))),
                "earliest_exit_epoch" => num(self.earliest_exit),
                "earliest_consolidation_epoch" => num(self.earliest_consolidation),
                // containers whose parts have the same shape as the ones that are read
                "current_justified_checkpoint" | "previous_justified_checkpoint" => pair(num(self.finalized_epoch + 1), leaf(val(self.seed, "j", i as u64))),
                "balances" => list(vec![leaf(val(self.seed, "balances", 0))], 38),
                _ => leaf(val(self.seed, "field", i as u64)),
            })
            .collect();
        merkle(parts, 6)
    }
    pub fn block(&self, state_root: B32) -> T {
        container(vec![num(self.block_slot), num(3), leaf(val(self.seed, "parent", 0)), leaf(state_root), leaf(val(self.seed, "body", 0))])
    }
    pub fn build(&self) -> Built {
        let registry = self.registry();
        let state = self.state(registry.clone());
        let block = self.block(state.root());
        Built { bs: self.clone(), registry, state, block }
    }
}
pub fn fork_of(spec: &ChainSpec, epoch: u64) -> ([u8; 4], [u8; 4], u64) {
    let f = spec.fork_at_epoch(Epoch::new(epoch));
    (f.previous_version, f.current_version, f.epoch.as_u64())
}

#[derive(Clone)]
pub struct Built {
    pub bs: BlockState,
    pub registry: T,
    pub state: T,
    pub block: T,
}
pub fn state_indices() -> Vec<u64> {
    let fork = state_g("fork") * 4;
    vec![state_g("genesis_validators_root"), state_g("slot"), fork, fork + 1, fork + 2, state_g("validators"),
        state_g("finalized_checkpoint") * 2, state_g("earliest_exit_epoch"), state_g("earliest_consolidation_epoch")]
}
/// What is shown of a validator.
pub fn validator_indices(i: u64, full: bool) -> Vec<u64> {
    if full {
        let f = |n| validator_g(i, n);
        vec![pubkey_g(i, 0), pubkey_g(i, 1), f("effective_balance"), f("slashed"), f("activation_eligibility_epoch"), f("activation_epoch"), f("exit_epoch")]
    } else {
        vec![validator_g(i, "exit_epoch")]
    }
}
#[derive(Clone)]
pub struct Input<E: EthSpec> {
    pub block: Proof,
    pub state: Proof,
    pub validators: Proof,
    pub keys: Vec<beacon_types::PublicKey>,
    pub patches: BTreeMap<Epoch, StatePatch>,
    pub consensus: ConsensusState,
    pub attestations: Vec<Attestation<E>>,
    pub slots: Vec<Proof>,
}
impl<E: EthSpec> Input<E> {
    pub fn guest(&self) -> GuestInput<'static, E> {
        self.guest_hint(0)
    }
    pub fn guest_hint(&self, hint: u64) -> GuestInput<'static, E> {
        GuestInput {
            beacon_block: self.block.mp_hint(hint),
            beacon_state: self.state.mp_hint(hint),
            active_validators: self.validators.mp_hint(hint),
            public_keys: self.keys.clone(),
            patches: self.patches.clone(),
            consensus_state: self.consensus.clone(),
            attestations: self.attestations.clone(),
            block_slot_proofs: self.slots.iter().map(|p| p.mp_hint(hint)).collect(),
        }
    }
}
impl Built {
    /// The registry proof in which the validators of `full` are shown completely.
    pub fn registry_proof(&self, full: impl Fn(usize) -> bool) -> (Proof, Vec<beacon_types::PublicKey>) {
        let mut want = vec![3];
        let mut keys = vec![];
        for (i, v) in self.bs.validators.iter().enumerate() {
            want.extend(validator_indices(i as u64, full(i)));
            if full(i) {
                keys.push(v.pubkey.clone());
            }
        }
        (prove(&self.registry, &want), keys)
    }
    /// The honest input for a trusted state whose finalized checkpoint is this block, at `trusted`.
    pub fn input<E: EthSpec>(&self, trusted: u64, justified: Cp) -> Input<E> {
        let (validators, keys) = self.registry_proof(|i| self.bs.validators[i].exit_epoch.as_u64() > trusted);
        Input {
            block: prove(&self.block, &[block_g("state_root")]),
            state: prove(&self.state, &state_indices()),
            validators,
            keys,
            patches: BTreeMap::new(),
            consensus: ConsensusState::new(cp(justified), cp((trusted, self.block.root()))),
            attestations: vec![],
            slots: vec![],
        }
    }
}
/// A block header as far as slot proofs see it.
pub fn header(seed: u64, slot: u64) -> T {
    container(vec![num(slot), num(seed), leaf(val(seed, "p", slot)), leaf(val(seed, "s", slot)), leaf(val(seed, "b", slot))])
}
pub fn slot_proof(block: &T) -> Proof {
    prove(block, &[block_g("slot")])
}

/// The trusted registry after the protocol's activations up to the current justified epoch.
pub fn advanced(spec: &ChainSpec, bs: &BlockState, state_epoch: u64, trusted: u64, justified: u64) -> BTreeMap<usize, ValidatorInfo> {
    let mut out: BTreeMap<usize, ValidatorInfo> = bs.validators.iter().cloned().enumerate().collect();
    for v in out.values_mut() {
        let (mut elig, mut act) = (v.activation_eligibility_epoch.as_u64(), v.activation_epoch.as_u64());
        for epoch in state_epoch..=justified {
            let finalized = if epoch == justified { trusted } else { bs.finalized_epoch };
            if elig == FAR && v.effective_balance >= spec.min_activation_balance {
                elig = epoch + 1;
            } else if act == FAR && elig <= finalized {
                act = epoch + 1 + spec.max_seed_lookahead.as_u64();
            }
        }
        v.activation_eligibility_epoch = Epoch::new(elig);
        v.activation_epoch = Epoch::new(act);
    }
    out
}
pub type Active = Vec<(usize, ValidatorInfo)>;
/// Who of the registry is active, given the patched exits.
pub fn active(registry: &BTreeMap<usize, ValidatorInfo>, patches: &BTreeMap<Epoch, StatePatch>, epoch: u64) -> Active {
    let patch = patches.get(&Epoch::new(epoch));
    registry
        .iter()
        .filter(|(i, v)| {
            let exit = v.exit_epoch.as_u64().min(patch.and_then(|p| p.validator_exits.get(i)).map_or(FAR, |e| e.as_u64()));
            v.activation_epoch.as_u64() <= epoch && epoch < exit
        })
        .map(|(i, v)| (*i, v.clone()))
        .collect()
}

/// Everything an accepted input makes the reader say.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub gvr: B32,
    pub active: BTreeMap<u64, Active>,
    pub slots: BTreeMap<B32, Option<u64>>,
    pub mixes: BTreeMap<(u64, u32), Option<B32>>,
    pub consensus: ConsensusState,
    /// the version that the reported fork puts in force at each epoch
    pub versions: BTreeMap<u64, [u8; 4]>,
}
pub fn view<E: EthSpec>(input: GuestInput<'static, E>, spec: &ChainSpec, epochs: &[u64], roots: &[B32], mixes: &[(u64, u32)]) -> Result<View, String> {
    let r = crate::guard(|| -> Result<View, String> {
        let r = input.into_reader(spec.clone()).map_err(|e| e.to_string())?;
        Ok(View {
            gvr: r.genesis_validators_root().map_err(|e| e.to_string())?.0,
            active: epochs.iter().map(|e| (*e, r.active_validators(Epoch::new(*e)).unwrap().map(|(i, v)| (i, v.clone())).collect())).collect(),
            slots: roots.iter().map(|x| (*x, r.slot_for_block(&b(*x)).ok())).collect(),
            mixes: mixes.iter().map(|(e, i)| ((*e, *i), r.randao_mix(Epoch::new(*e), *i).unwrap().map(|m| m.0))).collect(),
            consensus: r.consensus_state().unwrap(),
            versions: epochs
                .iter()
                .map(|e| {
                    let f = r.fork(Epoch::new(*e)).unwrap();
                    (*e, if *e < f.epoch.as_u64() { f.previous_version } else { f.current_version })
                })
                .collect(),
        })
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    }
}
