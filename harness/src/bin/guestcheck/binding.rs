//! C14: an accepted input shows only what the trusted block contains.
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::Ctx;
use z_core::{Epoch, ValidatorInfo};

pub const ETH: u64 = 1_000_000_000;
/// Validators at the interesting points of their life, around the trusted epoch.
pub fn kinds(t: u64) -> Vec<ValidatorInfo> {
    let k = |elig: u64, act: u64, exit: u64, balance: u64, slashed: bool| ValidatorInfo {
        activation_eligibility_epoch: Epoch::new(elig),
        activation_epoch: Epoch::new(act),
        exit_epoch: Epoch::new(exit),
        slashed,
        ..validator(0, balance * ETH)
    };
    vec![
        k(0, 0, FAR, 32, false),
        k(0, 0, t, 32, false),         // just exited
        k(0, 0, t + 1, 32, false),     // about to exit
        k(FAR, FAR, FAR, 32, false),   // to become eligible
        k(t - 2, FAR, FAR, 33, false), // in the queue
        k(t, FAR, FAR, 64, false),     // in the queue, not to be activated before t is final
        k(FAR, FAR, FAR, 31, false),   // below the activation balance
        k(0, t + 1, FAR, 2048, false), // about to be activated
        k(0, 0, t + 3, 32, true),      // slashed and exiting
        k(0, 0, 1, 0, true),           // long gone
        k(0, t + 5, t + 6, 40, false),
    ]
}
pub fn registry_of(kinds: &[ValidatorInfo], pick: &[usize]) -> Vec<ValidatorInfo> {
    pick.iter().enumerate().map(|(i, k)| ValidatorInfo { pubkey: key(i).public_key(), ..kinds[*k].clone() }).collect()
}

pub struct Case {
    pub spec: beacon_types::ChainSpec,
    pub built: Built,
    pub trusted: u64,
    pub justified: Cp,
    pub epochs: Vec<u64>,
    pub blocks: Vec<T>,
}
impl Case {
    pub fn truth(&self, patches: &BTreeMap<Epoch, z_core::StatePatch>) -> View {
        let state_epoch = self.built.bs.slot / 2;
        let reg = advanced(&self.spec, &self.built.bs, state_epoch, self.trusted, self.justified.0);
        View {
            gvr: self.built.bs.gvr,
            active: self.epochs.iter().map(|e| (*e, active(&reg, patches, *e))).collect(),
            slots: self.blocks.iter().map(|t| (t.root(), node(t, 8).map(|c| u64::from_le_bytes(c[..8].try_into().unwrap())))).collect(),
            mixes: BTreeMap::new(),
            consensus: z_core::ConsensusState::new(cp(self.justified), cp((self.trusted, self.built.block.root()))),
            versions: self.epochs.iter().map(|e| (*e, fork_version(&self.spec, *e))).collect(),
        }
    }
    pub fn roots(&self) -> Vec<B32> {
        self.blocks.iter().map(|b| b.root()).collect()
    }
    pub fn honest(&self) -> Input<Two> {
        let mut i = self.built.input(self.trusted, self.justified);
        i.slots = self.blocks.iter().map(slot_proof).collect();
        i
    }
}
pub fn case(seed: u64, trusted: u64, skipped: u64, dj: u64, fulu: bool, validators: Vec<ValidatorInfo>) -> Case {
    let mut spec = tiny_spec();
    if fulu {
        spec.fulu_fork_epoch = Some(Epoch::new(trusted - 1));
    } else if skipped > 1 {
        // the fork lies ahead
        spec.fulu_fork_epoch = Some(Epoch::new(trusted + 4));
    }
    case_at(seed, trusted, skipped, dj, spec, validators)
}
/// The fork of the spec may lie anywhere.
fn case_at(seed: u64, trusted: u64, skipped: u64, dj: u64, spec: beacon_types::ChainSpec, validators: Vec<ValidatorInfo>) -> Case {
    let mut bs = BlockState::new::<Two>(seed, &spec, trusted * 2 - skipped, validators);
    bs.fulu = spec.fulu_fork_epoch.is_some_and(|e| e.as_u64() <= bs.slot / 2);
    bs.earliest_exit = trusted + 5;
    bs.earliest_consolidation = trusted + 6;
    let built = bs.build();
    let blocks = vec![built.block.clone(), header(seed, 7), header(seed, 9), header(seed, u64::MAX)];
    Case { spec, trusted, justified: (trusted + dj, val(seed, "justified", 0)), epochs: (trusted..trusted + 9).chain([FAR - 1]).collect(), blocks, built }
}

/// Runs an input; if it is accepted, what is said of the chain must be the truth.
fn judge(ctx: &Ctx, space: &str, c: &Case, input: &Input<Two>, must: bool, what: impl Fn() -> String) -> bool {
    let truth = c.truth(&input.patches);
    let got = view(input.guest(), &c.spec, &c.epochs, &c.roots(), &[]);
    ctx.eval(got.is_ok());
    match &got {
        Err(e) => {
            ctx.check(!must, space, "honest-refused", || format!("{}: {e}", what()));
            false
        }
        Ok(v) => {
            let same = v.gvr == truth.gvr
                && v.active == truth.active
                && v.versions == truth.versions
                && v.slots.iter().all(|(r, s)| s.is_none() && !must || *s == truth.slots[r])
                && v.consensus.finalized_checkpoint() == truth.consensus.finalized_checkpoint();
            ctx.check(same, space, "other-view", || format!("{}: accepted, says {v:?}, is {truth:?}", what()));
            true
        }
    }
}

pub fn c14(ctx: &'static Ctx) -> ! {
    let t = 12u64;
    let ks = kinds(t);
    ctx.space("honest", || {
        let n = ctx.pick(3, 4);
        let mut picks = vec![vec![]];
        for len in 1..=n {
            product(&vec![ks.len(); len], |p| picks.push(p.to_vec()));
        }
        picks.par_iter().for_each(|p| {
            for (skipped, dj, fulu) in [(0u64, 1u64, false), (1, 2, true), (3, 4, false)] {
                let c = case(ctx.seed, t, skipped, dj, fulu, registry_of(&ks, p));
                judge(ctx, "honest", &c, &c.honest(), true, || format!("registry {p:?}, {skipped} slots skipped, justified {dj} later, fulu {fulu}"));
            }
        });
        // the next fork at any epoch, before, between and after the checkpoints
        for fork in (t - 3..t + 10).map(Some).chain([None]) {
            for skipped in 0..4 {
                for dj in 1..=4 {
                    let mut spec = tiny_spec();
                    spec.fulu_fork_epoch = fork.map(Epoch::new);
                    let c = case_at(ctx.seed, t, skipped, dj, spec, registry_of(&ks, &[0, 1, 3]));
                    judge(ctx, "honest", &c, &c.honest(), true, || format!("fulu at {fork:?}, {skipped} slots skipped, justified {dj} later"));
                }
            }
        }
    });
    let bases = [vec![0, 1, 3], vec![4, 0], vec![2, 9, 7, 8], vec![1], vec![]];
    let cases: Vec<Case> = bases.iter().enumerate().map(|(i, p)| case(ctx.seed + i as u64, t, i as u64 % 2, 2, i % 2 == 1, registry_of(&ks, p))).collect();
    type Part = (&'static str, fn(&mut Input<Two>) -> &mut Proof);
    let parts: [Part; 4] = [("block", |i| &mut i.block), ("state", |i| &mut i.state), ("validators", |i| &mut i.validators), ("slot", |i| &mut i.slots[1])];
    ctx.space("changed-leaves", || {
        for (ci, c) in cases.iter().enumerate() {
            for (name, part) in parts {
                let n = part(&mut c.honest()).leaves.len();
                                (0..n).into_par_iter().for_each(|l| {
                    for bit in 0..256 {
                        let mut i = c.honest();
                        part(&mut i).leaves[l][bit / 8] ^= 1 << (bit % 8);
                        judge(ctx, "changed-leaves", c, &i, false, || format!("base {ci}: bit {bit} of leaf {l} of the {name} proof"));
                    }
                    for m in 0..n {
                        let mut i = c.honest();
                        part(&mut i).leaves.swap(l, m);
                        judge(ctx, "changed-leaves", c, &i, false, || format!("base {ci}: leaves {l},{m} of the {name} proof swapped"));
                        let mut i = c.honest();
                        let x = part(&mut i).leaves[m];
                        part(&mut i).leaves[l] = x;
                        judge(ctx, "changed-leaves", c, &i, false, || format!("base {ci}: leaf {l} of the {name} proof replaced by leaf {m}"));
                        let mut i = c.honest();
                        part(&mut i).leaves.insert(l, x);
                        judge(ctx, "changed-leaves", c, &i, false, || format!("base {ci}: leaf {m} of the {name} proof repeated at {l}"));
                    }
                    let mut i = c.honest();
                    part(&mut i).leaves.remove(l);
                    judge(ctx, "changed-leaves", c, &i, false, || format!("base {ci}: leaf {l} of the {name} proof removed"));
                });
            }
        }
    });
    ctx.space("changed-shape", || {
        // every one or two bits of the value mask and of the tree description, each bit removed or repeated
        for (ci, c) in cases.iter().enumerate() {
            for (name, part) in parts {
                for which in 0..2 {
                    fn field(p: &mut Proof, which: usize) -> &mut Vec<bool> {
                        if which == 0 { &mut p.mask } else { &mut p.desc }
                    }
                    let n = field(part(&mut c.honest()), which).len();
                    (0..n).into_par_iter().for_each(|a| {
                        for b2 in a..n {
                            let mut i = c.honest();
                            let f = field(part(&mut i), which);
                            f[a] ^= true;
                            if b2 > a {
                                f[b2] ^= true;
                            }
                            judge(ctx, "changed-shape", c, &i, false, || format!("base {ci}: {name} proof, {} bits {a},{b2}", ["mask", "description"][which]));
                        }
                        for rep in [false, true] {
                            let mut i = c.honest();
                            let f = field(part(&mut i), which);
                            let v = f[a];
                            if rep { f.insert(a, v) } else { f.remove(a); }
                            judge(ctx, "changed-shape", c, &i, false, || format!("base {ci}: {name} proof, {} bit {a} repeated {rep}", ["mask", "description"][which]));
                        }
                    });
                }
            }
        }
    });
    ctx.space("shown-parts", || {
        // every choice of what is shown of each validator: nothing, the exit epoch, everything, or everything but one
        // field, with or without marks, with and without the list length
        let forms: Vec<Vec<(u64, bool)>> = {
            let all = validator_indices(0, true);
            let mut f = vec![vec![], vec![(all[6], true)], all.iter().map(|g| (*g, true)).collect::<Vec<_>>()];
            for i in 0..7 {
                f.push(all.iter().map(|g| (*g, *g != all[i])).collect());
                f.push(all.iter().filter(|g| **g != all[i]).map(|g| (*g, true)).collect());
            }
            f.push(all.iter().map(|g| (*g, true)).chain([(validator_g(0, "withdrawal_credentials"), true)]).collect());
            f.push(all.iter().map(|g| (*g, true)).chain([(validator_g(0, "withdrawable_epoch"), true)]).collect());
            f.push(vec![(validator_g(0, "pubkey"), true)]);
            f
        };
        let base = validator_g(0, "pubkey") / 8;
        // exits which are in the past only if cut to fewer bits, or swapped
        let mut ks = ks.clone();
        let late = ks.len();
        ks.extend([8, 16, 31, 32, 33, 48, 56, 63].map(|b| ValidatorInfo { exit_epoch: Epoch::new((1 << b) + 1), ..ks[0].clone() }));
        let mut registries = vec![vec![0, 1], vec![1, 0], vec![3, 2], vec![1, 9], vec![0, 1, 4], vec![9, 1, 0]];
        registries.extend((late..ks.len()).map(|k| vec![k, 0]));
        for (ci, p) in registries.iter().enumerate() {
            let c = case(ctx.seed + 50 + ci as u64, t, 0, 1, false, registry_of(&ks, p));
            let n = p.len();
            let nf = if n == 2 { forms.len() } else { ctx.pick(5, forms.len()) };
            let mut choices = vec![];
            product(&vec![nf; n], |x| choices.push(x.to_vec()));
            choices.par_iter().for_each(|x| {
                for len in 0..3 {
                    let mut want: Vec<(u64, bool)> = vec![];
                    for (i, f) in x.iter().enumerate() {
                        for (g, m) in &forms[*f] {
                            // the same node below validator i
                            let d = 63 - g.leading_zeros() - (63 - base.leading_zeros());
                            want.push((((base + i as u64) << d) | (g & ((1 << d) - 1)), *m));
                        }
                    }
                    if len > 0 {
                        want.push((3, len == 2));
                    }
                    if want.is_empty() {
                        continue;
                    }
                    let proof = prove_marked(&c.built.registry, &want);
                    // keys of those shown, of all, of none
                    for keyset in 0..3 {
                        let mut i = c.honest();
                        i.validators = proof.clone();
                        i.keys = (0..n).filter(|v| keyset == 1 || keyset == 0 && x[*v] >= 2).map(|v| key(v).public_key()).collect();
                        judge(ctx, "shown-parts", &c, &i, false, || format!("registry {p:?} shown as {x:?}, length {len}, keys {keyset}"));
                    }
                }
            });
        }
    });
    ctx.space("look-alikes", || {
        // a validator chose withdrawal credentials that look like the end of another key; every choice of two nodes
        // to be shown as the key
        let own = key(0).public_key();
        let mut other = own.serialize();
        other[40] ^= 1;
        let other = bls::PublicKey::deserialize(&other).unwrap();
        let mut tail = [0u8; 32];
        tail[..16].copy_from_slice(&other.serialize()[32..]);
        for p in [vec![0, 1], vec![0], vec![3, 0]] {
            let mut c = case(ctx.seed + 70, t, 0, 1, false, registry_of(&ks, &p));
            c.built.bs.withdrawal.insert(0, tail);
            c.built = c.built.bs.build();
            c.blocks[0] = c.built.block.clone();
            let all = validator_indices(0, true);
            let mut nodes = all.clone();
            nodes.extend([validator_g(0, "withdrawal_credentials"), validator_g(0, "withdrawable_epoch")]);
            for marks in 0u32..1 << nodes.len() {
                let mut want: Vec<(u64, bool)> = nodes.iter().enumerate().map(|(k, g)| (*g, marks >> k & 1 == 1)).collect();
                for i in 1..p.len() as u64 {
                    want.extend(validator_indices(i, p[i as usize] != 1).iter().map(|g| (*g, true)));
                }
                want.push((3, true));
                let proof = prove_marked(&c.built.registry, &want);
                for first in [&own, &other] {
                    let mut i = c.honest();
                    i.validators = proof.clone();
                    i.keys[0] = first.clone();
                    judge(ctx, "look-alikes", &c, &i, false, || format!("registry {p:?}, marks {marks:b}, other key {}", first != &own));
                }
            }
        }
    });
    ctx.space("one-byte-off", || {
        // keys which differ from a validator's in one byte, whichever it is
        for (ci, p) in [vec![0], vec![0, 4]].iter().enumerate() {
            let c = case(ctx.seed + 75 + ci as u64, t, 0, 1, false, registry_of(&ks, p));
            for v in 0..p.len() {
                for byte in 0..48 {
                    for bit in 0..8 {
                        let mut b = key(v).public_key().serialize();
                        b[byte] ^= 1 << bit;
                        let Ok(k) = bls::PublicKey::deserialize(&b) else { continue };
                        let mut i = c.honest();
                        i.keys[v] = k;
                        judge(ctx, "one-byte-off", &c, &i, false, || format!("registry {p:?}, bit {bit} of byte {byte} of key {v} changed"));
                    }
                }
            }
        }
    });
    ctx.space("keys", || {
        // every sequence of keys
        for (ci, p) in [vec![0, 3], vec![0, 1, 4], vec![2, 0, 0]].iter().enumerate() {
            let c = case(ctx.seed + 80 + ci as u64, t, 1, 1, false, registry_of(&ks, p));
            let cand: Vec<_> = (0..5).map(|i| key(i).public_key()).collect();
            for len in 0..=ctx.pick(4, 5) {
                product(&vec![cand.len(); len], |x| {
                    let mut i = c.honest();
                    i.keys = x.iter().map(|k| cand[*k].clone()).collect();
                    judge(ctx, "keys", &c, &i, false, || format!("registry {p:?}, keys {x:?}"));
                });
            }
        }
    });
    ctx.space("other-chains", || {
        // every mixture of the parts of two chains which differ in one thing
        let c = &cases[0];
        let a = &c.built.bs;
        let mut others: Vec<(String, BlockState)> = vec![];
        let mut put = |name: &str, f: &dyn Fn(&mut BlockState)| {
            let mut x = a.clone();
            f(&mut x);
            others.push((name.into(), x));
        };
        put("gvr", &|x| x.gvr[3] ^= 1);
        put("slot", &|x| x.slot += 1);
        put("earlier slot", &|x| x.slot -= 4);
        put("fork", &|x| x.fork.1[0] ^= 1);
        put("previous fork", &|x| x.fork.0[0] ^= 1);
        put("fork epoch", &|x| x.fork.2 += 1);
        put("finalized", &|x| x.finalized_epoch += 1);
        put("exit", &|x| x.earliest_exit += 1);
        put("consolidation", &|x| x.earliest_consolidation += 1);
        put("block slot", &|x| x.block_slot += 1);
        put("fulu", &|x| x.fulu = true);
        put("other fields", &|x| x.seed += 1);
        put("one more", &|x| x.validators.push(validator(9, 32 * ETH)));
        put("one less", &|x| { x.validators.pop(); });
        put("none", &|x| x.validators.clear());
        put("swapped", &|x| x.validators.swap(0, 2));
        put("key", &|x| x.validators[0].pubkey = key(7).public_key());
        put("balance", &|x| x.validators[0].effective_balance += ETH);
        put("slashed", &|x| x.validators[0].slashed = true);
        put("eligibility", &|x| x.validators[2].activation_eligibility_epoch = Epoch::new(t - 2));
        put("activation", &|x| x.validators[2].activation_epoch = Epoch::new(t));
        put("exit of an active one", &|x| x.validators[0].exit_epoch = Epoch::new(t));
        put("exit of an exited one", &|x| x.validators[1].exit_epoch = Epoch::new(FAR));
        others.par_iter().for_each(|(name, o)| {
            let ob = o.build();
            let oi: Input<Two> = ob.input(t, c.justified);
            let all = ob.registry_proof(|_| true);
            for m in 0u32..64 {
                let mut i = c.honest();
                if m & 1 > 0 { i.block = oi.block.clone() }
                if m & 2 > 0 { i.state = oi.state.clone() }
                if m & 4 > 0 { i.validators = if m & 32 > 0 { all.0.clone() } else { oi.validators.clone() } }
                if m & 8 > 0 { i.keys = if m & 32 > 0 { all.1.clone() } else { oi.keys.clone() } }
                if m & 16 > 0 { i.slots.insert(0, slot_proof(&ob.block)) }
                judge(ctx, "other-chains", c, &i, false, || format!("parts {m:06b} of a chain with a different {name}"));
            }
            // a state whose fork is not the configured one is never accepted
            if matches!(name.as_str(), "fork" | "previous fork" | "fork epoch") {
                let got = view(oi.guest(), &c.spec, &c.epochs, &[], &[]);
                ctx.eval(false);
                ctx.check(got.is_err(), "other-chains", "other-fork", || format!("a state with another {name} is accepted"));
            }
        });
        // the right contents in trees of another shape: the registry one level higher or lower, fields exchanged
        let v = &c.built;
        for (name, reg) in [
            ("no length", merkle((0..3).map(|i| a.validator_tree(i)).collect(), 41)),
            ("shallower", list((0..3).map(|i| a.validator_tree(i)).collect(), 39)),
            ("deeper", list((0..3).map(|i| a.validator_tree(i)).collect(), 41)),
            ("shifted", list([merkle(vec![], 3)].into_iter().chain((0..3).map(|i| a.validator_tree(i))).collect(), 40)),
        ] {
            let mut other = v.clone();
            other.state = a.state(reg.clone());
            other.block = a.block(other.state.root());
            other.registry = reg;
                        let mut shown: Vec<Vec<u64>> = vec![];
            for first in [1u64 << 40, 2 << 40, 4 << 40] {
                for len in [0u64, 2, 3, 6, 7] {
                    let mut w: Vec<u64> = (0..3).flat_map(|i| validator_indices(i, i != 1)).map(|g| {
                        let d = 63 - g.leading_zeros() as u64 - 41;
                        let i = (g >> d) - (2 << 40);
                        ((first + i) << d) | (g & ((1 << d) - 1))
                    }).collect();
                    if len > 0 { w.push(len) }
                    shown.push(w);
                }
            }
            for w in shown {
                // requests that do not exist in this tree cannot be proven
                let Ok(proof) = verif_harness::guard(|| prove(&other.registry, &w)) else { continue };
                let mut i = c.honest();
                i.block = prove(&other.block, &[block_g("state_root")]);
                i.state = prove(&other.state, &state_indices());
                i.consensus = z_core::ConsensusState::new(cp(c.justified), cp((c.trusted, other.block.root())));
                i.slots.clear();
                i.validators = proof;
                let got = view(i.guest(), &c.spec, &c.epochs, &[], &[]);
                ctx.eval(got.is_ok());
                ctx.check(got.is_err(), "other-chains", "other-layout", || format!("a registry which is {name} is accepted when shown at {w:?}"));
            }
        }
    });
    ctx.space("marks", || {
        // every node of the state, block and header may be shown, and every one be marked instead of or besides another
        let c = &cases[1];
        let leaves = |t: &T, depth: u32| -> Vec<u64> { (1u64 << depth..2 << depth).filter(|g| node(t, *g).is_some()).collect() };
        let honest_marks = state_indices();
        let mut shown: Vec<u64> = leaves(&c.built.state, 6);
        let split: Vec<u64> = vec![state_g("fork"), state_g("finalized_checkpoint"), state_g("current_justified_checkpoint")];
        shown.retain(|g| !split.contains(g));
        shown.extend([4 * split[0], 4 * split[0] + 1, 4 * split[0] + 2, 4 * split[0] + 3, 2 * split[1], 2 * split[1] + 1, 2 * split[2], 2 * split[2] + 1]);
        let base: Vec<(u64, bool)> = shown.iter().map(|g| (*g, honest_marks.contains(g))).collect();
        (0..base.len()).into_par_iter().for_each(|x| {
            for y in 0..base.len() {
                for z in std::iter::once(None).chain((0..base.len()).filter(|_| ctx.thorough).map(Some)) {
                    let mut w = base.clone();
                    for k in [Some(x), Some(y).filter(|y| *y != x), z.filter(|z| *z != x && *z != y)].into_iter().flatten() {
                        w[k].1 ^= true;
                    }
                    let mut i = c.honest();
                    i.state = prove_marked(&c.built.state, &w);
                    judge(ctx, "marks", c, &i, false, || format!("state nodes {:?} marked differently", [Some(x), Some(y), z].map(|k| k.map(|k| base[k].0))));
                }
            }
        });
        // the block header: every shape of the tree of depth three, with every set of marks
        let shapes = cuts(3);
        shapes.par_iter().for_each(|cut| {
            for marks in 0u32..1 << cut.len() {
                let w: Vec<(u64, bool)> = cut.iter().enumerate().map(|(k, g)| (*g, marks >> k & 1 == 1)).collect();
                if w.len() < 2 {
                    continue;
                }
                let mut i = c.honest();
                i.block = prove_marked(&c.built.block, &w);
                judge(ctx, "marks", c, &i, false, || format!("block nodes {w:?}"));
                let mut i = c.honest();
                i.slots[1] = prove_marked(&c.blocks[1], &w);
                judge(ctx, "marks", c, &i, false, || format!("header nodes {w:?}"));
            }
        });
    });
    ctx.space("slot-proofs", || {
        // every list of up to three slot proofs out of right and wrong ones
        let c = &cases[2];
        let hs = &c.blocks[1..4];
        let mut letters: Vec<Proof> = hs.iter().map(slot_proof).collect();
        letters.push(prove(&hs[0], &[9]));
        letters.push(prove(&hs[0], &[8, 11]));
        letters.push(prove(&hs[0], &[11]));
        letters.push(prove_marked(&hs[0], &[(8, false)]));
        letters.push(Proof::default());
        // the tree of one header below another's
        letters.push(prove(&pair(hs[0].clone(), hs[1].clone()), &[16]));
        // another header's slot in this one's proof
        let mut forged = slot_proof(&hs[0]);
        forged.leaves[0] = u64_chunk(9);
        letters.push(forged);
        for len in 0..=3 {
            product(&vec![letters.len(); len], |x| {
                let mut i = c.honest();
                i.slots = x.iter().map(|k| letters[*k].clone()).collect();
                judge(ctx, "slot-proofs", c, &i, false, || format!("slot proofs {x:?}"));
            });
        }
    });
    ctx.finish(
        "exploration",
        "honest inputs of every small registry must be accepted with the true view; every alteration of the stated families (leaf bits, leaf order, masks, tree descriptions, shown parts, marks, keys, parts of other chains) must be refused or leave the view as it is; non-trivial = accepted",
        &["SHA-256 is collision free", "public keys are idealized"],
        json!({"kinds_of_validators": ks.len()}),
    )
}
/// All cuts of the complete binary tree of a depth: the leaf sets of its prunings.
fn cuts(depth: u32) -> Vec<Vec<u64>> {
    fn go(g: u64, d: u32) -> Vec<Vec<u64>> {
        let mut out = vec![vec![g]];
        if d > 0 {
            for l in go(2 * g, d - 1) {
                for r in go(2 * g + 1, d - 1) {
                    out.push(l.iter().chain(&r).copied().collect());
                }
            }
        }
        out
    }
    go(1, depth)
}
