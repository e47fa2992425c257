//! C28: the reader that puts two readers side by side.
use alloy_primitives::B256;
use beacon_types::{AggregateSignature, Attestation, ChainSpec, Fork};
use host::AssertInputReader;
use rayon::prelude::*;
use serde_json::json;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{ConsensusState, Epoch, InputReader, ValidatorInfo};

type E = Four;
type Answer<T> = Result<T, String>;

/// A reader that gives the answers it is told to give, whatever it is asked.
#[derive(Clone)]
struct Told {
    spec: ChainSpec,
    gvr: Answer<B256>,
    fork: Answer<Fork>,
    validators: Answer<Vec<(usize, ValidatorInfo)>>,
    mix: Answer<Option<B256>>,
    attestations: Answer<Vec<Attestation<E>>>,
    state: Answer<ConsensusState>,
    slot: Answer<u64>,
}
fn err<T: Clone>(a: &Answer<T>) -> Result<T, WorldError> {
    a.clone().map_err(WorldError)
}
impl InputReader for Told {
    type Error = WorldError;
    type Spec = E;
    fn chain_spec(&self) -> &ChainSpec {
        &self.spec
    }
    fn genesis_validators_root(&self) -> Result<B256, WorldError> {
        err(&self.gvr)
    }
    fn fork(&self, _: Epoch) -> Result<Fork, WorldError> {
        err(&self.fork)
    }
    fn active_validators(&self, _: Epoch) -> Result<impl Iterator<Item = (usize, &ValidatorInfo)>, WorldError> {
        match &self.validators {
            Ok(v) => Ok(v.iter().map(|(i, v)| (*i, v))),
            Err(e) => Err(WorldError(e.clone())),
        }
    }
    fn randao_mix(&self, _: Epoch, _: u32) -> Result<Option<B256>, WorldError> {
        err(&self.mix)
    }
    fn attestations(&self) -> Result<impl Iterator<Item = &Attestation<E>>, WorldError> {
        match &self.attestations {
            Ok(v) => Ok(v.iter()),
            Err(e) => Err(WorldError(e.clone())),
        }
    }
    fn consensus_state(&self) -> Result<ConsensusState, WorldError> {
        err(&self.state)
    }
    fn slot_for_block(&self, _: &B256) -> Result<u64, WorldError> {
        err(&self.slot)
    }
}
/// What came of a call: an answer, an error, or a panic.
#[derive(Debug, PartialEq, Clone)]
enum Got<T> {
    Answer(T),
    Error(String),
    Panic,
}
fn got<T>(f: impl FnOnce() -> Result<T, WorldError>) -> Got<T> {
    match guard(f) {
        Ok(Ok(x)) => Got::Answer(x),
        Ok(Err(e)) => Got::Error(e.0),
        Err(_) => Got::Panic,
    }
}

/// Every pair of answers of a domain: agreement is passed on, everything else is not answered.
fn pairs<T: Clone + PartialEq + std::fmt::Debug + Sync>(
    ctx: &Ctx,
    space: &str,
    base: &Told,
    domain: &[Answer<T>],
    set: impl Fn(&mut Told, &Answer<T>) + Sync,
    ask: impl Fn(&AssertInputReader<Told, Told>) -> Result<T, WorldError> + Sync,
    same: impl Fn(&T, &T) -> bool + Sync,
) {
    let readers: Vec<Told> = domain
        .iter()
        .map(|d| {
            let mut r = base.clone();
            set(&mut r, d);
            r
        })
        .collect();
    (0..domain.len()).into_par_iter().for_each(|i| {
        for k in 0..domain.len() {
            let g = got(|| ask(&AssertInputReader::new(&readers[i], &readers[k])));
            let (a, b) = (&domain[i], &domain[k]);
            let ok = match (a, b) {
                (Ok(x), Ok(y)) if same(x, y) => g == Got::Answer(x.clone()),
                // the first reader's own error, and never a value
                (Err(x), Err(_)) => g == Got::Error(x.clone()) || g == Got::Panic,
                _ => !matches!(g, Got::Answer(_)),
            };
            ctx.eval(matches!(g, Got::Answer(_)));
            if !ok {
                ctx.violation(space, "asserting", || format!("{space}: the readers answer {a:?} and {b:?}, the asserting one {g:?}").chars().take(1200).collect());
            }
        }
    });
}
fn lists<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..max {
        level = level.iter().flat_map(|l| items.iter().map(|i| [l.as_slice(), std::slice::from_ref(i)].concat()).collect::<Vec<_>>()).collect();
        out.extend(level.clone());
    }
    out
}

pub fn run(ctx: &'static Ctx) -> ! {
    let w = World::new(ctx.seed, 8, 32_000_000_000);
    let r = |i| b(val(ctx.seed, "root", i));
    let c = |e: u64, i| z_core::Checkpoint::new(Epoch::new(e), r(i));
    let base = Told {
        spec: w.spec.clone(),
        gvr: Ok(r(0)),
        fork: Ok(w.spec.fork_at_epoch(Epoch::new(3))),
        validators: Ok(vec![(0, validator(0, 32))]),
        mix: Ok(None),
        attestations: Ok(vec![]),
        state: Ok(ConsensusState::new(c(3, 1), c(2, 2))),
        slot: Ok(7),
    };
    let failed = |n| -> String { format!("failure {n}") };
    fn domain<T>(ok: Vec<T>) -> Vec<Answer<T>> {
        ok.into_iter().map(Ok).chain([Err("failure 1".into()), Err("failure 2".into())]).collect()
    }
    ctx.space("values", || {
        pairs(ctx, "genesis validators root", &base, &domain(vec![r(0), r(1), B256::ZERO]), |t, x| t.gvr = x.clone(), |a| a.genesis_validators_root(), |x, y| x == y);
        let f = |p: u8, q: u8, e: u64| Fork { previous_version: [p; 4], current_version: [q; 4], epoch: Epoch::new(e) };
        pairs(ctx, "fork", &base, &domain(vec![f(1, 2, 3), f(1, 2, 4), f(1, 3, 3), f(2, 2, 3)]), |t, x| t.fork = x.clone(), |a| a.fork(Epoch::new(3)), |x, y| x == y);
        pairs(ctx, "RANDAO mix", &base, &domain(vec![None, Some(r(0)), Some(r(1)), Some(B256::ZERO)]), |t, x| t.mix = x.clone(), |a| a.randao_mix(Epoch::new(3), 1), |x, y| x == y);
        let states = vec![ConsensusState::default(), ConsensusState::new(c(3, 1), c(2, 2)), ConsensusState::new(c(4, 1), c(2, 2)), ConsensusState::new(c(3, 3), c(2, 2)), ConsensusState::new(c(3, 1), c(1, 2)), ConsensusState::new(c(3, 1), c(2, 3))];
        pairs(ctx, "consensus state", &base, &domain(states), |t, x| t.state = x.clone(), |a| a.consensus_state(), |x, y| x == y);
        pairs(ctx, "slot", &base, &domain(vec![0, 1, 7, u64::MAX]), |t, x| t.slot = x.clone(), |a| a.slot_for_block(&r(9)), |x, y| x == y);
        // the chain's parameters have no error
        let specs: Vec<ChainSpec> = (0..8u64)
            .map(|k| {
                let mut s = w.spec.clone();
                match k {
                    1 => s.electra_fork_epoch = Some(Epoch::new(1)),
                    2 => s.fulu_fork_epoch = Some(Epoch::new(9)),
                    3 => s.target_committee_size += 1,
                    4 => s.shuffle_round_count += 1,
                    5 => s.effective_balance_increment += 1,
                    6 => s.electra_fork_version = [9; 4],
                    7 => s.min_seed_lookahead = Epoch::new(2),
                    _ => {}
                }
                s
            })
            .collect();
        let specs: Vec<Answer<ChainSpec>> = specs.into_iter().map(Ok).collect();
        pairs(ctx, "chain parameters", &base, &specs, |t, x| t.spec = x.clone().unwrap(), |a| Ok(a.chain_spec().clone()), |x, y| x == y);
    });
    ctx.space("validators", || {
        let mut items = vec![];
        for i in 0..2usize {
            for k in 0..7 {
                let mut v = validator(0, 32);
                match k {
                    1 => v.pubkey = key(5).public_key(),
                    2 => v.slashed = true,
                    3 => v.activation_eligibility_epoch = Epoch::new(1),
                    4 => v.activation_epoch = Epoch::new(1),
                    5 => v.effective_balance = 31,
                    6 => v.exit_epoch = Epoch::new(40),
                    _ => {}
                }
                items.push((i, v));
            }
        }
        let mut answers: Vec<Answer<Vec<(usize, ValidatorInfo)>>> = lists(&items, 2).into_iter().map(Ok).collect();
        // longer ones that differ in one place
        for n in 3..=ctx.pick(4, 6) {
            let plain: Vec<_> = (0..n).map(|i| (i, validator(i, 32))).collect();
            answers.push(Ok(plain.clone()));
            for at in 0..n {
                let mut l = plain.clone();
                l[at].1.slashed = true;
                answers.push(Ok(l));
                let mut l = plain.clone();
                l.remove(at);
                answers.push(Ok(l));
                let mut l = plain.clone();
                l[at].1.effective_balance = 16;
                answers.push(Ok(l));
            }
        }
        answers.extend([Err(failed(1)), Err(failed(2))]);
        let strip = |v: &[(usize, ValidatorInfo)]| -> Vec<(usize, ValidatorInfo)> {
            v.iter().map(|(i, v)| (*i, ValidatorInfo { effective_balance: 0, exit_epoch: Epoch::new(0), ..v.clone() })).collect()
        };
        pairs(
            ctx,
            "validators",
            &base,
            &answers,
            |t, x| t.validators = x.clone(),
            |a| Ok(a.active_validators(Epoch::new(3))?.map(|(i, v)| (i, v.clone())).collect::<Vec<_>>()),
            |x, y| strip(x) == strip(y),
        );
    });
    ctx.space("attestations", || {
        let data = |k: u64| w.data(12 + k, c(2, 1), c(3, 2));
        let sig = |who: &[usize]| w.sign(who, &[0; 32]);
        let mut items: Vec<Attestation<E>> = vec![
            attestation(&[0], &[true, false], data(0), sig(&[0])),
            attestation(&[0], &[true, true], data(0), sig(&[0])),
            attestation(&[0], &[true, false], data(1), sig(&[0])),
            attestation(&[0], &[true, false], data(0), sig(&[1])),
            attestation(&[1], &[true, false], data(0), sig(&[0])),
        ];
        if ctx.thorough {
            items.push(attestation(&[0], &[true, false], data(0), AggregateSignature::empty()));
            items.push(base_attestation(&[true, false], data(0), sig(&[0])));
        }
        let answers: Vec<Answer<Vec<Attestation<E>>>> = lists(&items, 3).into_iter().map(Ok).chain([Err(failed(1)), Err(failed(2))]).collect();
        pairs(ctx, "attestations", &base, &answers, |t, x| t.attestations = x.clone(), |a| Ok(a.attestations()?.cloned().collect::<Vec<_>>()), |x, y| x == y);
    });
    ctx.space("verification", || {
        // a verification through the pair succeeds only on inputs on which both readers agree, with the same result
        let (f, j, t, u) = ((10, val(ctx.seed, "f", 0)), (11, val(ctx.seed, "j", 0)), (13, val(ctx.seed, "t", 0)), (14, val(ctx.seed, "u", 0)));
        let mut w = w.clone();
        w.slots.insert(t.1, 52);
        let state = ConsensusState::new(cp(j), cp(f));
        let good: Vec<Attestation<E>> = [w.attest::<E>(cp(j), cp(t), |_| true), w.attest::<E>(cp(t), cp(u), |_| true)].concat();
        let mut worlds = vec![("same", w.clone(), state.clone(), good.clone(), true)];
        for i in 0..8 {
            let mut x = w.clone();
            x.registry.get_mut(&i).unwrap().slashed = true;
            worlds.push(("a slashed validator", x, state.clone(), good.clone(), false));
            let mut x = w.clone();
            x.registry.remove(&i);
            worlds.push(("a missing validator", x, state.clone(), good.clone(), false));
            let mut x = w.clone();
            x.registry.get_mut(&i).unwrap().effective_balance = 16;
            worlds.push(("another balance", x, state.clone(), good.clone(), true));
            let mut x = w.clone();
            x.registry.get_mut(&i).unwrap().exit_epoch = Epoch::new(99);
            worlds.push(("another exit", x, state.clone(), good.clone(), true));
        }
        for i in 0..good.len() {
            let mut a = good.clone();
            a.remove(i);
            worlds.push(("a missing attestation", w.clone(), state.clone(), a, false));
            let mut a = good.clone();
            a.insert(i, a[i].clone());
            worlds.push(("a repeated attestation", w.clone(), state.clone(), a, false));
            if i > 0 {
                let mut a = good.clone();
                a.swap(i - 1, i);
                worlds.push(("swapped attestations", w.clone(), state.clone(), a, false));
            }
        }
        let mut x = w.clone();
        x.gvr = val(ctx.seed, "gvr", 1);
        worlds.push(("another genesis", x, state.clone(), good.clone(), false));
        for e in [13u64, 14] {
            let mut x = w.clone();
            x.no_mix.insert((e, w.mix_index::<E>(e)));
            worlds.push(("no mix", x, state.clone(), good.clone(), false));
        }
        let mut x = w.clone();
        x.slots.insert(t.1, 53);
        worlds.push(("another slot", x, state.clone(), good.clone(), false));
        worlds.push(("another state", w.clone(), ConsensusState::new(cp(j), cp((9, f.1))), good.clone(), false));
        let mut x = w.clone();
        x.spec.fulu_fork_epoch = Some(Epoch::new(1000));
        worlds.push(("another fork schedule", x, state.clone(), good.clone(), false));
        let cfg = config(beacon_types::ForkName::Electra, beacon_types::ForkName::Fulu, 6, 2, 3);
        for (i, (what, aw, a_state, aa, like)) in worlds.iter().enumerate() {
            for (k, (what2, bw, b_state, ba, like2)) in worlds.iter().enumerate() {
                let a = Reader { world: aw, state: a_state.clone(), attestations: aa.iter().collect() };
                let z = Reader { world: bw, state: b_state.clone(), attestations: ba.iter().collect() };
                let alone = guard(|| z_core::verify(&cfg, &a).ok()).ok().flatten();
                let both = guard(|| z_core::verify(&cfg, &AssertInputReader::new(&a, &z)).ok()).ok().flatten();
                ctx.eval(both.is_some());
                let agree = i == k || (*like && *like2);
                let ok = if agree { both == alone } else { both.is_none() || both == alone };
                let differ = !agree && (i == 0 || k == 0) && both.is_some();
                if !ok || differ {
                    ctx.violation("verification", "verification", || format!("verification over two readers ({what} / {what2}): alone {alone:?}, with the other reader beside it {both:?}"));
                }
            }
        }
    });
    ctx.finish(
        "exploration",
        "every pair of answers of the stated domains for every question an input reader answers, and verification over every pair of worlds out of one and its single alterations; non-trivial = answered",
        &["idealized BLS and SSZ stand-ins", "the stand-ins' ChainSpec has the fields verification uses"],
        json!({}),
    )
}
