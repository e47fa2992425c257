//! C21: the starting state, the links and their votes the host finds in a chain's history.
use crate::e2e::parallel;
use crate::sim::{SetBit, SPE};
use ethereum_consensus::electra::mainnet::Attestation as BlockAttestation;
use ethereum_consensus::electra::{BeaconBlock, BeaconBlockBody};
use ethereum_consensus::phase0::{AttestationData, Checkpoint as BlockCheckpoint, SignedBeaconBlockHeader};
use ethereum_consensus::types::mainnet::BeaconBlock as AnyBlock;
use host::host_input_reader::HostInputReader;
use host::BeaconClient;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Display;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Mutex;
use std::task::{Context, Poll};
use verif_harness::spec::{cp, key, step, tiny_spec, un, Cp, Four};
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{Attestation, ConsensusState, InputReader};

/// Becomes ready at its n+1st poll.
struct Later(usize);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub type State = (Cp, Cp);
/// A chain's history as its reader shows it: the state at every epoch's start, and the blocks.
pub struct History {
    pub first: u64,
    pub states: Vec<State>,
    pub blocks: BTreeMap<u64, AnyBlock>,
    /// the request that fails
    pub fail: Option<usize>,
    /// how long each slot's block takes
    pub polls: BTreeMap<u64, usize>,
    requests: Cell<usize>,
}
impl History {
    pub fn new(first: u64, states: Vec<State>) -> Self {
        History { first, states, blocks: BTreeMap::new(), fail: None, polls: BTreeMap::new(), requests: Cell::new(0) }
    }
    pub fn state(&self, epoch: u64) -> Option<State> {
        epoch.checked_sub(self.first).and_then(|i| self.states.get(i as usize)).copied()
    }
    fn request(&self) -> bool {
        let n = self.requests.get();
        self.requests.set(n + 1);
        self.fail != Some(n)
    }
}
fn consensus(s: State) -> ConsensusState {
    ConsensusState::new(cp(s.0), cp(s.1))
}
impl host::ChainReader for &History {
    async fn get_block_header(&self, _: impl Display) -> anyhow::Result<Option<SignedBeaconBlockHeader>> {
        anyhow::bail!("no headers")
    }
    async fn get_block(&self, id: impl Display) -> anyhow::Result<Option<AnyBlock>> {
        let slot: u64 = id.to_string().parse()?;
        let ok = self.request();
        Later(self.polls.get(&slot).copied().unwrap_or(0)).await;
        anyhow::ensure!(ok, "broken");
        Ok(self.blocks.get(&slot).cloned())
    }
    async fn get_consensus_state(&self, id: impl Display) -> anyhow::Result<ConsensusState> {
        let slot: u64 = id.to_string().parse()?;
        anyhow::ensure!(self.request(), "broken");
        anyhow::ensure!(slot % SPE == 0, "not an epoch's start: {slot}");
        self.state(slot / SPE).map(consensus).ok_or_else(|| anyhow::anyhow!("no state at {slot}"))
    }
}
struct Nothing;
impl host::StateProvider for Nothing {
    type Spec = Four;
    fn state_at_slot(&self, slot: z_core::Slot) -> Result<host::StateRef, host::StateProviderError> {
        Err(host::StateProviderError::NotFound(slot))
    }
}

/// One vote: its link, and a number that tells it from others.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Vote {
    pub source: Cp,
    pub target: Cp,
    pub id: u64,
}
fn signature(id: u64) -> &'static [u8; 96] {
    static SIGNATURES: std::sync::OnceLock<Vec<[u8; 96]>> = std::sync::OnceLock::new();
    &SIGNATURES.get_or_init(|| {
        (0..16)
            .map(|i| {
                let mut s = beacon_types::AggregateSignature::empty();
                s.add_assign(&key(i).sign([i as u8; 32].into()));
                s.serialize()
            })
            .collect()
    })[id as usize % 16]
}
/// A vote whose parts (slot, index, head, bits, committees, signature) are given each by itself.
const PARTS: u64 = 1 << 20;
impl Vote {
    /// What its number stands for in each of its parts.
    fn parts(&self) -> [u64; 6] {
        if self.id & PARTS == 0 {
            [self.id; 6]
        } else {
            std::array::from_fn(|i| self.id >> (2 * i) & 3)
        }
    }
    fn block(&self) -> BlockAttestation {
        let [at, index, head, bits, named, sig] = self.parts();
        let c = |c: Cp| BlockCheckpoint { epoch: c.0, root: c.1.into() };
        let mut a = BlockAttestation {
            aggregation_bits: (0..12u64).map(|i| i < 6 && bits >> i & 1 == 1).collect::<Vec<bool>>().into(),
            data: AttestationData {
                slot: self.target.0 * SPE + at % SPE,
                index: (index % 3) as usize,
                beacon_block_root: val(1, "head", head).into(),
                source: c(self.source),
                target: c(self.target),
            },
            ..Default::default()
        };
        for i in 0..8 {
            a.committee_bits.set_bit(i, (named + 1) >> (i % 4) & 1 == 1);
        }
        a.signature.copy_from_slice(signature(sig));
        a
    }
    /// Whether the host's attestation is this vote, in everything.
    fn is(&self, a: &Attestation<Four>) -> bool {
        let Attestation::Electra(a) = a else { return false };
        let d = &a.data;
        let b = self.block();
        let bits: Vec<bool> = a.aggregation_bits.iter().collect();
        let want: Vec<bool> = b.aggregation_bits.iter().map(|x| *x).collect();
        let named: Vec<bool> = a.committee_bits.iter().collect();
        let want_named: Vec<bool> = b.committee_bits.iter().map(|x| *x).collect();
        (d.source.epoch.as_u64(), d.source.root.0) == self.source
            && (d.target.epoch.as_u64(), d.target.root.0) == self.target
            && d.slot.as_u64() == b.data.slot
            && d.index == b.data.index as u64
            && d.beacon_block_root == b.data.beacon_block_root
            && bits == want
            && named == want_named
            && a.signature.serialize() == *signature(self.parts()[5])
    }
}
pub fn block(slot: u64, votes: &[Vote]) -> AnyBlock {
    let mut body = BeaconBlockBody::default();
    for v in votes {
        body.attestations.push(v.block());
    }
    AnyBlock::Electra(BeaconBlock { slot, body, ..Default::default() })
}
fn old_block(slot: u64) -> AnyBlock {
    let AnyBlock::Electra(b) = block(slot, &[]) else { unreachable!() };
    let mut v = serde_json::to_value(&b).unwrap();
    let body = v["body"].as_object_mut().unwrap();
    body.remove("execution_requests");
    let b: AnyBlock = serde_json::from_value(v).unwrap();
    assert!(matches!(b, AnyBlock::Deneb(_)));
    b
}

/// What there is to find: the starting state and the links; or nothing.
pub fn course(h: &History, trusted: Cp) -> Result<(State, Vec<(Cp, Cp)>), &'static str> {
    let mut e = trusted.0 + 1;
    let start = loop {
        let s = h.state(e).ok_or("the history ends")?;
        if s.1 == trusted {
            break s;
        }
        if s.1 .0 >= trusted.0 {
            return Err("never finalized");
        }
        e += 1;
    };
    let mut links = vec![];
    let mut s = start;
    loop {
        e += 1;
        let n = h.state(e).ok_or("the history ends")?;
        if n != s {
            let link = (s.0, n.0);
            if step(s, link) != Some(n) {
                return Err("not a step");
            }
            links.push(link);
        }
        if n.1 != trusted {
            return Ok((start, links));
        }
        s = n;
    }
}
type Found = (State, Vec<Attestation<Four>>);
fn result<P: host::StateProvider<Spec = Four>, C: host::ChainReader>(r: HostInputReader<Four, P, C>) -> Result<Found, String> {
    let s = r.consensus_state().map_err(|e| e.to_string())?;
    let a = r.attestations().map_err(|e| e.to_string())?.cloned().collect();
    Ok(((un(s.current_justified_checkpoint()), un(s.finalized_checkpoint())), a))
}
pub fn find(h: &History, trusted: Cp) -> Result<Found, String> {
    h.requests.set(0);
    guard(|| {
        let r = futures::executor::block_on(HostInputReader::<Four, _, _>::new(tiny_spec(), Nothing, h, cp(trusted)));
        result(r.map_err(|e| format!("{e:#}"))?)
    })
    .unwrap_or_else(|p| Err(format!("panic: {p}")))
}
/// Whether `got` are the votes for the links, link by link.
fn complete(got: &[Attestation<Four>], links: &[(Cp, Cp)], votes: &[Vote]) -> Result<(), String> {
    let mut at = 0;
    for l in links {
        let mut want: Vec<&Vote> = votes.iter().filter(|v| (v.source, v.target) == *l).collect();
        for a in got.iter().skip(at).take(want.len()) {
            let Some(i) = want.iter().position(|v| v.is(a)) else {
                return Err(format!("{a:?} is not a vote for {l:?}, or comes twice"));
            };
            want.remove(i);
            at += 1;
        }
        if !want.is_empty() {
            return Err(format!("votes for {l:?} are missing: {want:?}"));
        }
    }
    if at < got.len() {
        return Err(format!("{} votes too many", got.len() - at));
    }
    Ok(())
}
fn judge(ctx: &Ctx, space: &str, h: &History, trusted: Cp, votes: &[Vote], got: &Result<Found, String>) {
    let what = || format!("trusted {trusted:?}, states from epoch {}: {:?}, blocks at {:?}, votes {votes:?}", h.first, h.states, h.blocks.keys());
    match (course(h, trusted), got) {
        (Ok((start, links)), Ok((s, a))) => {
            ctx.eval(true);
            if *s != start {
                ctx.violation(space, "start", || format!("{}: starts from {s:?} instead of {start:?}", what()));
            } else if let Err(e) = complete(a, &links, votes) {
                ctx.violation(space, "votes", || format!("{}: {e}", what()));
            }
        }
        (Ok(c), Err(e)) => {
            ctx.eval(true);
            ctx.violation(space, "refused", || format!("{}: {c:?} refused: {e}", what()));
        }
        (Err(why), Ok((s, a))) => {
            ctx.eval(false);
            ctx.violation(space, why, || format!("{}: found {s:?} with {} votes", what(), a.len()));
        }
        (Err(_), Err(_)) => ctx.eval(false),
    }
}

fn c(e: u64, branch: u8) -> Cp {
    (e, if e == 0 { [0; 32] } else { val(1, "cp", e * 4 + branch as u64) })
}
/// Every history that is not decided yet, extended by every state, to the given length.
fn histories(ctx: &Ctx, space: &str, trusted: Cp, alphabet: &[State], depth: usize) {
    // in every epoch's blocks there is a vote for every link anyone could mean
    let cps: Vec<Cp> = {
        let mut x: Vec<Cp> = alphabet.iter().flat_map(|s| [s.0, s.1]).collect();
        x.sort();
        x.dedup();
        x
    };
    let mut blocks = BTreeMap::new();
    let mut votes = vec![];
    for (i, t) in cps.iter().enumerate() {
        for s in &cps {
            if s.0 < t.0 {
                let v = Vote { source: *s, target: *t, id: votes.len() as u64 };
                votes.push(v);
                let slot = t.0 * SPE + 1 + i as u64 % 2;
                blocks.entry(slot).or_insert_with(Vec::new).push(v);
            }
        }
    }
    let blocks: BTreeMap<u64, AnyBlock> = blocks.into_iter().map(|(s, v): (u64, Vec<Vote>)| (s, block(s, &v))).collect();
    let mut open: Vec<Vec<State>> = vec![vec![]];
    for _ in 0..depth {
        let next = Mutex::new(vec![]);
        parallel(ctx, open.len(), |i| {
            for s in alphabet {
                let mut states = open[i].clone();
                states.push(*s);
                let mut h = History::new(trusted.0 + 1, states);
                h.blocks = blocks.clone();
                let got = find(&h, trusted);
                judge(ctx, space, &h, trusted, &votes, &got);
                ctx.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                match course(&h, trusted) {
                    Err("the history ends") => next.lock().unwrap().push(h.states),
                    Ok(_) => {
                        // what comes later does not matter
                        for s in [alphabet[0], *alphabet.last().unwrap()] {
                            h.states.push(s);
                            let again = find(&h, trusted);
                            judge(ctx, space, &h, trusted, &votes, &again);
                        }
                    }
                    _ => {}
                }
            }
        });
        open = next.into_inner().unwrap();
        if ctx.stopped() {
            return;
        }
    }
}
fn states(cps: &[Cp]) -> Vec<State> {
    let mut out = vec![];
    for j in cps {
        for f in cps {
            if f.0 < j.0 || (*j == (0, [0; 32]) && f == j) {
                out.push((*j, *f));
            }
        }
    }
    out
}
fn link_histories() -> Vec<(Cp, Vec<State>)> {
    let (a1, a2, a3, a4, a5, a6) = (c(1, 0), c(2, 0), c(3, 0), c(4, 0), c(5, 0), c(6, 0));
    vec![
        // the next epoch finalizes
        (a2, vec![(a2, a1), (a3, a2), (a4, a3)]),
        // one epoch is not justified, the next two are
        (a2, vec![(a2, a1), (a3, a2), (a3, a2), (a5, a2), (a6, a5)]),
        // late votes justify an epoch when it is over
        (a2, vec![(a2, a1), (a3, a2), (a3, a2), (a4, a3)]),
        // from the beginning
        (c(0, 0), vec![(c(0, 0), c(0, 0)), (a1, c(0, 0)), (a2, a1)]),
    ]
}

pub fn run(ctx: &'static Ctx) -> ! {
    ctx.space("histories", || {
        let cps = [c(1, 0), c(2, 0), c(2, 1), c(3, 0), c(3, 1), c(4, 0), c(5, 0), c(6, 0)];
        histories(ctx, "histories", c(2, 0), &states(&cps), ctx.pick(6, 8));
    });
    ctx.space("early histories", || {
        let cps = [c(0, 0), c(1, 0), c(1, 1), c(2, 0), c(3, 0), c(4, 0)];
        histories(ctx, "early histories", c(0, 0), &states(&cps), ctx.pick(7, 9));
        histories(ctx, "early histories", c(1, 0), &states(&cps), ctx.pick(7, 9));
    });
    ctx.space("placement", || {
        // every placement of up to three votes, for the links and for others, in every slot in which they may be included
        for (trusted, states) in link_histories() {
            let h = History::new(trusted.0 + 1, states.clone());
            let (_, links) = course(&h, trusted).unwrap();
            let mut kinds = links.clone();
            let (s, t) = links[0];
            kinds.push((s, (t.0, val(1, "other target", 0))));
            kinds.push(((s.0, val(1, "other source", 0)), t));
            if s.0 > 0 {
                kinds.push((c(s.0 - 1, 0), t));
            }
            kinds.push((t, c(t.0 + 1, 2)));
            let mut spots = vec![];
            for (k, (s, t)) in kinds.iter().enumerate() {
                for slot in t.0 * SPE + 1..(t.0 + 2) * SPE {
                    spots.push((k, *s, *t, slot));
                }
            }
            let n = spots.len() + 1;
            let depth = if n > 60 { 3 } else { ctx.pick(3, 4) };
            parallel(ctx, n.pow(depth), |i| {
                let mut i = i;
                let mut votes = vec![];
                let mut by_slot = BTreeMap::<u64, Vec<Vote>>::new();
                for d in 0..depth as u64 {
                    let x = i % n;
                    i /= n;
                    if x > 0 {
                        let (_, source, target, slot) = spots[x - 1];
                        let v = Vote { source, target, id: d + 1 };
                        votes.push(v);
                        by_slot.entry(slot).or_default().push(v);
                    }
                }
                for full in [false, true] {
                    let mut h = History::new(trusted.0 + 1, states.clone());
                    if full {
                        h.blocks = (trusted.0 * SPE..(trusted.0 + 8) * SPE).map(|s| (s, block(s, &[]))).collect();
                    }
                    h.blocks.extend(by_slot.iter().map(|(s, v)| (*s, block(*s, v))));
                    let got = find(&h, trusted);
                    judge(ctx, "placement", &h, trusted, &votes, &got);
                }
            });
        }
    });
    ctx.space("like votes", || {
        // two and three votes for a link that share any of their parts, in one block and in several
        for (trusted, states) in link_histories() {
            let h = History::new(trusted.0 + 1, states.clone());
            let (_, links) = course(&h, trusted).unwrap();
            let id = |x: usize| PARTS | (0..6).map(|i| (x as u64 >> i & 1) << (2 * i)).sum::<u64>();
            parallel(ctx, 64 * 64, |i| {
                for (source, target) in &links {
                    let votes: Vec<Vote> = [0, i / 64, i % 64].iter().map(|x| Vote { source: *source, target: *target, id: id(*x) }).collect();
                    // a vote that comes twice may be taken once
                    if votes[0] == votes[1] || votes[1] == votes[2] || votes[0] == votes[2] {
                        continue;
                    }
                    for slots in [[1, 1, 1], [1, 1, 2], [1, 4, 7], [7, 5, 1]] {
                        let mut by_slot = BTreeMap::<u64, Vec<Vote>>::new();
                        for (v, s) in votes.iter().zip(slots) {
                            by_slot.entry(target.0 * SPE + s).or_default().push(*v);
                        }
                        let mut h = History::new(trusted.0 + 1, states.clone());
                        h.blocks = by_slot.iter().map(|(s, v)| (*s, block(*s, v))).collect();
                        let got = find(&h, trusted);
                        judge(ctx, "like votes", &h, trusted, &votes, &got);
                    }
                }
            });
        }
    });
    let filled = |trusted: Cp, states: &[State]| {
        // a block with one vote of its link in every slot
        let mut h = History::new(trusted.0 + 1, states.to_vec());
        let (_, links) = course(&h, trusted).unwrap();
        let mut votes = vec![];
        for slot in trusted.0 * SPE..(trusted.0 + 7) * SPE {
            let mut here = vec![];
            for (s, t) in &links {
                if t.0 * SPE < slot && slot < (t.0 + 2) * SPE {
                    let v = Vote { source: *s, target: *t, id: votes.len() as u64 };
                    votes.push(v);
                    here.push(v);
                }
            }
            h.blocks.insert(slot, block(slot, &here));
        }
        (h, votes)
    };
    ctx.space("unsupported blocks", || {
        for (trusted, states) in link_histories() {
            let (h0, votes) = filled(trusted, &states);
            let (_, links) = course(&h0, trusted).unwrap();
            let first = links.iter().map(|l| l.1 .0).min().unwrap() * SPE;
            let end = (links.iter().map(|l| l.1 .0).max().unwrap() + 2) * SPE;
            for slot in h0.blocks.keys() {
                let (mut h, _) = filled(trusted, &states);
                h.blocks.insert(*slot, old_block(*slot));
                let got = find(&h, trusted);
                ctx.eval(true);
                // beyond the slots that can have the votes, the block need not be looked at
                let needed = first < *slot && *slot < end;
                if needed {
                    ctx.check(got.is_err(), "unsupported blocks", "skipped", || format!("an old block in slot {slot} is skipped: {states:?}"));
                } else if got.is_ok() {
                    judge(ctx, "unsupported blocks", &h, trusted, &votes, &got);
                }
            }
        }
    });
    ctx.space("failures", || {
        // every single request fails, early or late
        for (trusted, states) in link_histories() {
            let (mut h, votes) = filled(trusted, &states);
            let got = find(&h, trusted);
            judge(ctx, "failures", &h, trusted, &votes, &got);
            let n = h.requests.get();
            for i in 0..n {
                for late in 0..3 {
                    h.fail = Some(i);
                    h.polls = h.blocks.keys().map(|s| (*s, if late == 2 { (*s % 3) as usize } else { late })).collect();
                    let got = find(&h, trusted);
                    ctx.eval(true);
                    ctx.check(got.is_err(), "failures", "failure ignored", || format!("request {i} of {n} fails, but {states:?} gives {got:?}"));
                }
            }
        }
    });
    ctx.space("completion orders", || {
        // the blocks arrive in every order (up to which of them arrive together)
        let range: Vec<(Cp, Vec<State>, usize)> = link_histories().into_iter().take(ctx.pick(1, 2)).map(|(t, s)| (t, s, 3)).collect();
        for (trusted, states, waits) in range {
            let (h0, votes) = filled(trusted, &states);
            let (_, links) = course(&h0, trusted).unwrap();
            let first = links[0].1 .0 * SPE;
            let slots: Vec<u64> = (first..first + 9).collect();
            parallel(ctx, waits.pow(slots.len() as u32), |i| {
                let (mut h, _) = filled(trusted, &states);
                let mut i = i;
                for s in &slots {
                    h.polls.insert(*s, i % waits);
                    i /= waits;
                }
                let got = find(&h, trusted);
                judge(ctx, "completion orders", &h, trusted, &votes, &got);
            });
        }
    });
    ctx.space("node", || node(ctx, filled));
    ctx.finish(
        "model_checking",
        "every sequence of states over the alphabets, extended while the model of the search is undecided, with a vote for every conceivable link in the blocks; every placement of up to three votes in every slot that may include them; every failing request, every order of arrival, every old block, every bad answer of a node: the real reader must find exactly the model's starting state and its links' votes, or report an error where the model has none; non-trivial = the model finds a chain of links",
        &["the node's states at epoch starts are those of the chain", "votes are included no later than the end of the epoch after their target (EIP-7045)"],
        json!({}),
    )
}

/// A beacon node's answers over HTTP.
fn node(ctx: &Ctx, filled: impl Fn(Cp, &[State]) -> (History, Vec<Vote>) + Sync) {
    use reqwest::Reply;
    let body = |v: Value| json!({"data": v, "execution_optimistic": false, "finalized": true, "version": "electra"}).to_string();
    let point = |c: Cp| json!({"epoch": c.0.to_string(), "root": format!("0x{}", hex(&c.1))});
    let answer = move |h: &History, path: &str| -> Reply {
        let p: Vec<&str> = path.trim_start_matches('/').split('/').collect();
        match p[..] {
            ["eth", "v2", "beacon", "blocks", slot] => match h.blocks.get(&slot.parse().unwrap()) {
                Some(b) => Reply::Body(200, body(json!({"message": b, "signature": "0x00"}))),
                None => Reply::Body(404, json!({"code": 404, "message": "not found"}).to_string()),
            },
            ["eth", "v1", "beacon", "states", slot, "finality_checkpoints"] => {
                let slot: u64 = slot.parse().unwrap();
                match h.state(slot / SPE).filter(|_| slot % SPE == 0) {
                    Some(s) => Reply::Body(200, body(json!({"previous_justified": point(s.1), "current_justified": point(s.0), "finalized": point(s.1)}))),
                    None => Reply::Body(404, json!({"code": 404, "message": "not found"}).to_string()),
                }
            }
            _ => Reply::Body(500, format!("unexpected request {path}")),
        }
    };
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Bad {
        Status(u16),
        Broken,
        Empty,
        Cut,
        Null,
    }
    let bads = [Bad::Status(400), Bad::Status(404), Bad::Status(429), Bad::Status(500), Bad::Status(503), Bad::Broken, Bad::Empty, Bad::Cut, Bad::Null];
    let ask = |h: &Rc<History>, trusted: Cp, bad: Option<(usize, Bad)>, polls: usize| -> (Result<Found, String>, Vec<String>) {
        let log = Rc::new(std::cell::RefCell::new(vec![]));
        let (h, l) = (h.clone(), log.clone());
        reqwest::set_handler(Some(Rc::new(move |url| {
            let n = l.borrow().len();
            l.borrow_mut().push(url.path().to_string());
            let good = answer(&h, url.path());
            let reply = match bad.filter(|b| b.0 == n) {
                None => good,
                Some((_, Bad::Status(s))) => Reply::Body(s, "{}".into()),
                Some((_, Bad::Broken)) => Reply::Broken,
                Some((_, Bad::Empty)) => Reply::Body(200, "".into()),
                Some((_, Bad::Null)) => Reply::Body(200, "{\"data\":null}".into()),
                Some((_, Bad::Cut)) => match good {
                    Reply::Body(200, b) => Reply::Body(200, b[..b.len() / 2].into()),
                    _ => Reply::Body(200, "{".into()),
                },
            };
            (n * polls % 3, reply)
        })));
        let got = guard(|| {
            let client = BeaconClient::builder("http://node.test/".parse().unwrap()).build();
            let r = futures::executor::block_on(HostInputReader::<Four, _, _>::new(tiny_spec(), Nothing, client, cp(trusted)));
            result(r.map_err(|e| format!("{e:#}"))?)
        })
        .unwrap_or_else(|p| Err(format!("panic: {p}")));
        reqwest::set_handler(None);
        let requests = log.borrow().clone();
        (got, requests)
    };
    for (trusted, states) in link_histories() {
        let (h, votes) = filled(trusted, &states);
        let h = Rc::new(h);
        let (got, log) = ask(&h, trusted, None, 0);
        judge(ctx, "node", &h, trusted, &votes, &got);
        for polls in [1, 2] {
            judge(ctx, "node", &h, trusted, &votes, &ask(&h, trusted, None, polls).0);
        }
        for (i, path) in log.iter().enumerate() {
            for bad in bads {
                let slot = path.strip_prefix("/eth/v2/beacon/blocks/").map(|s| s.parse::<u64>().unwrap());
                let (got, _) = ask(&h, trusted, Some((i, bad)), i);
                match slot {
                    // an empty slot
                    Some(slot) if bad == Bad::Status(404) => {
                        let mut without = filled(trusted, &states).0;
                        let gone: Vec<Vote> = match without.blocks.remove(&slot) {
                            Some(AnyBlock::Electra(b)) => votes.iter().filter(|v| b.body.attestations.iter().any(|a| *a == v.block())).copied().collect(),
                            _ => vec![],
                        };
                        let rest: Vec<Vote> = votes.iter().filter(|v| !gone.contains(v)).copied().collect();
                        judge(ctx, "node", &without, trusted, &rest, &got);
                    }
                    _ => {
                        ctx.eval(true);
                        ctx.check(got.is_err(), "node", "bad answer ignored", || format!("{bad:?} to request {i} ({path}) is ignored"));
                    }
                }
            }
        }
    }
}
