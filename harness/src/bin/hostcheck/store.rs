//! C22: stored states survive crashes and failures.
use crate::e2e::parallel;
use crate::vfs::*;
use host::mainnet::BeaconState;
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError, StateRef};
use reqwest::{set_handler, Reply};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::MetadataExt;
use std::rc::Rc;
use std::sync::Arc;
use verif_harness::spec::Four;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::Slot;

type Files = FileProvider<Four>;

pub const FORKS: usize = 7;
/// A state of every fork.
pub fn state(fork: usize, slot: u64, seed: u64) -> BeaconState {
    macro_rules! make {
        ($($n:literal $v:ident),*) => {
            match fork {
                $($n => {
                    let mut s = BeaconState::$v(Default::default());
                    if let BeaconState::$v(x) = &mut s {
                        x.slot = slot;
                        x.genesis_time = seed;
                        x.genesis_validators_root = val(seed, "gvr", 0).into();
                        x.latest_block_header.slot = slot;
                        x.latest_block_header.body_root = val(seed, "body", slot).into();
                        for i in 0..3 {
                            x.validators.push(crate::sim::validator(i));
                            x.balances.push(32_000_000_000 + i as u64);
                        }
                        x.eth1_data_votes.push(Default::default());
                    }
                    s
                })*
                _ => unreachable!(),
            }
        };
    }
    let mut s = make!(0 Phase0, 1 Altair, 2 Bellatrix, 3 Capella, 4 Deneb, 5 Electra, 6 Fulu);
    macro_rules! tail {
        ($($v:ident)*) => {
            match &mut s {
                $(BeaconState::$v(x) => for _ in 0..2 {
                    x.pending_partial_withdrawals.push(Default::default());
                    x.pending_consolidations.push(Default::default());
                    x.inactivity_scores.push(seed);
                },)*
                _ => {}
            }
        };
    }
    tail!(Electra Fulu);
    s
}
/// A directory of one worker, emptied before every execution.
struct Dir {
    path: String,
}
impl Dir {
    fn new(ctx: &Ctx, name: &str) -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let path = format!("{}/store-{name}-{n}", ctx.scratch);
        std::fs::create_dir_all(&path).unwrap();
        Dir { path }
    }
    fn names(&self) -> BTreeSet<String> {
        std::fs::read_dir(&self.path).unwrap().map(|e| e.unwrap()).filter(|e| e.path().is_file()).map(|e| e.file_name().into_string().unwrap()).collect()
    }
    fn empty(&self) -> &Self {
        for e in std::fs::read_dir(&self.path).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { std::fs::remove_dir_all(p).unwrap() } else { std::fs::remove_file(p).unwrap() }
        }
        self
    }
    fn files(&self) -> Files {
        Files::new(&self.path).unwrap()
    }
    /// The contents, to be put back.
    fn contents(&self) -> BTreeMap<String, Vec<u8>> {
        self.names().into_iter().map(|n| (n.clone(), std::fs::read(format!("{}/{n}", self.path)).unwrap())).collect()
    }
    fn restore(&self, c: &BTreeMap<String, Vec<u8>>) {
        self.empty();
        for (n, b) in c {
            std::fs::write(format!("{}/{n}", self.path), b).unwrap();
        }
    }
    /// Runs on the disk with crashes and faults; a panic is a failure.
    fn with<T>(&self, disk: &mut Disk, f: impl FnOnce(&Files) -> anyhow::Result<T>) -> Result<T, String> {
        let files = self.files();
        mounted(&self.path, disk, || match guard(|| f(&files)) {
            Ok(r) => r.map_err(|e| format!("{e:#}")),
            Err(p) => Err(format!("panic: {p}")),
        })
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        self.empty();
        std::fs::remove_dir(&self.path).unwrap();
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Got {
    State,
    Other(String),
    Absent,
    Failed(String),
}
/// What a read gives, compared with what it should give if anything.
fn read(p: &impl StateProvider, want: &BeaconState) -> Got {
    match guard(|| p.state_at_slot(Slot::from(want.slot()))) {
        Ok(Ok(s)) if *s == *want => Got::State,
        Ok(Ok(s)) => Got::Other(format!("a {:?} state of slot {}", s.version(), s.slot())),
        Ok(Err(StateProviderError::NotFound(_))) => Got::Absent,
        Ok(Err(e)) => Got::Failed(format!("{e:#}")),
        Err(p) => Got::Failed(format!("panic: {p}")),
    }
}
thread_local! { static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap(); }
/// Reads through the provider that asks the node's API for what it has not stored.
fn api<T>(dir: &str, answer: impl Fn(u64) -> Reply + 'static, f: impl FnOnce(&PersistentApiStateProvider<Four>) -> T) -> T {
    set_handler(Some(Rc::new(move |url| {
        let slot = url.path().strip_prefix("/eth/v2/debug/beacon/states/").expect("a request for a state").parse().unwrap();
        (0, answer(slot))
    })));
    let client = BeaconClient::builder("http://node.test/".parse().unwrap()).build();
    let p = PersistentApiStateProvider::<Four>::new(dir, client).unwrap();
    let r = RT.with(|rt| rt.block_on(async { f(&p) }));
    set_handler(None);
    r
}
fn body(s: &BeaconState) -> Reply {
    Reply::Body(200, json!({"version": s.version().to_string(), "execution_optimistic": false, "finalized": true, "data": s}).to_string())
}

/// After a crash or failure: the state is there or absent, all others are unchanged, and it can be stored again.
fn recovered(ctx: &Ctx, space: &str, dir: &Dir, s: &BeaconState, others: &[BeaconState], refetch: bool, must: bool, what: &dyn Fn() -> String) {
    let files = dir.files();
    let got = read(&files, s);
    ctx.eval(got == Got::State);
    if !ctx.check(got == Got::State || got == Got::Absent && !must, space, "read", || format!("{}: the stored state reads as {got:?}", what())) {
        return;
    }
    for o in others {
        let g = read(&files, o);
        ctx.check(g == Got::State, space, "neighbour", || format!("{}: the state stored before at slot {} reads as {g:?}", what(), o.slot()));
    }
    if refetch && got == Got::Absent {
        let right = body(s);
        let (first, second) = api(&dir.path, move |_| right.clone(), |p| (read(p, s), read(p, s)));
        ctx.check(first == Got::State && second == Got::State, space, "not fetched again", || format!("{}: fetching it again gives {first:?}, {second:?}", what()));
    } else {
        let again = guard(|| files.save_state(s)).map_err(|p| format!("panic: {p}")).and_then(|r| r.map_err(|e| format!("{e:#}")));
        ctx.check(again.is_ok() == (got == Got::Absent), space, "not stored again", || format!("{}: the state reads as {got:?}, but storing it again gives {again:?}", what()));
    }
    let g = read(&dir.files(), s);
    ctx.check(g == Got::State, space, "read again", || format!("{}: after storing it again the state reads as {g:?}", what()));
    for o in others {
        let g = read(&files, o);
        ctx.check(g == Got::State, space, "neighbour", || format!("{}: the state stored before at slot {} reads as {g:?}", what(), o.slot()));
    }
}
fn save(dir: &Dir, disk: &mut Disk, s: &BeaconState) -> Result<(), String> {
    dir.with(disk, |f| f.save_state(s))
}
/// What a save does to the disk.
fn calls(ctx: &Ctx, dir: &Dir, s: &BeaconState) -> Vec<Op> {
    let mut d = Disk::default();
    let r = save(dir, &mut d, s);
    ctx.check(r.is_ok(), "faults", "save", || format!("storing a {:?} state without any fault: {r:?}", s.version()));
    assert!(r.is_err() || d.ops.iter().any(|o| o.changes()), "the calls to the file system are not seen");
    d.ops
}
fn stored(ctx: &Ctx, dir: &Dir, others: &[BeaconState]) {
    for o in others {
        let r = save(dir, &mut Disk::default(), o);
        ctx.check(r.is_ok(), "faults", "save", || format!("storing a {:?} state without any fault: {r:?}", o.version()));
    }
}
fn lengths(n: usize, all: bool) -> Vec<usize> {
    if all {
        (0..=n).collect()
    } else {
        let mut v: Vec<usize> = [0, 1, 8, n / 3, n / 2, n.saturating_sub(9), n.saturating_sub(1), n].into_iter().filter(|k| *k <= n).collect();
        v.sort();
        v.dedup();
        v
    }
}
/// Every point at which a sequence of calls can be cut.
fn cuts(ops: &[Op], all: bool) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for (k, o) in ops.iter().enumerate() {
        match o {
            Op::Write(n) => out.extend(lengths(*n, all).into_iter().filter(|l| *l < *n || *n == 0).map(|l| (k, l))),
            o if o.changes() => out.push((k, 0)),
            _ => {}
        }
    }
    out
}
/// Files with contents that a loss of power may take away.
fn unsafe_files(dir: &Dir, disk: &Disk) -> Vec<(String, u64, u64)> {
    dir.names()
        .into_iter()
        .filter_map(|n| {
            let p = format!("{}/{n}", dir.path);
            let m = std::fs::metadata(&p).unwrap();
            let d = disk.durable(m.ino())?;
            (d < m.len()).then_some((p, d, m.len()))
        })
        .collect()
}

pub fn run(ctx: &'static Ctx) -> ! {
    let seed = ctx.seed;
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    let neighbours = |fork: usize| vec![state(fork, 39, seed), state((fork + 1) % FORKS, 41, seed)];
    ctx.space("crashes", || {
        // every length of every write, every call in between
        parallel(ctx, FORKS * 2, |i| {
            let (fork, full) = (i % FORKS, i / FORKS == 1);
            let s = state(fork, 40, seed);
            let others = if full { neighbours(fork) } else { vec![] };
            let dir = Dir::new(ctx, "crash");
            stored(ctx, &dir, &others);
            let before = dir.contents();
            let ops = calls(ctx, &dir, &s);
            ctx.sample(|| json!({"fork": fork, "calls": format!("{ops:?}")}));
            for (k, cut) in cuts(&ops, true) {
                dir.restore(&before);
                let mut d = Disk::new([(k, Act::Crash(cut))]);
                let r = save(&dir, &mut d, &s);
                let refetch = cut % 97 == 1 || cut == 0;
                recovered(ctx, "crashes", &dir, &s, &others, refetch, false, &|| format!("fork {fork}: crash in call {k} ({:?}) after {cut} bytes ({r:?})", ops[k]));
                if ctx.stopped() {
                    return;
                }
            }
        });
    });
    ctx.space("power", || {
        // the power fails after every call: of what was not synchronized, any part may be missing or zero
        parallel(ctx, FORKS, |fork| {
            let s = state(fork, 40, seed);
            let others = neighbours(fork);
            let dir = Dir::new(ctx, "power");
            stored(ctx, &dir, &others);
            let before = dir.contents();
            let ops = calls(ctx, &dir, &s);
            // with no failure before, and with every failure of every call before
            let mut plans: Vec<BTreeMap<usize, Act>> = (0..=ops.len()).filter(|k| *k == ops.len() || ops[*k].changes()).map(|k| BTreeMap::from([(k, Act::Crash(0))])).collect();
            for k in 0..ops.len() {
                let mut acts: Vec<Act> = [EIO, EINTR, ENOSPC].map(Act::Fail).to_vec();
                if let Op::Write(n) = ops[k] {
                    acts.push(Act::Short(n / 2));
                }
                for a in acts {
                    plans.extend((k + 1..ops.len() + 4).map(|k2| BTreeMap::from([(k, a), (k2, Act::Crash(0))])));
                }
            }
            for plan in plans {
                dir.restore(&before);
                let mut d = Disk::new(plan.clone());
                let r = save(&dir, &mut d, &s);
                let at_risk = unsafe_files(&dir, &d);
                let whole = dir.contents();
                let mut outcomes = vec![None];
                for (f, (_, durable, len)) in at_risk.iter().enumerate() {
                    for l in *durable..*len {
                        if plan.len() > 1 && !ctx.thorough && l - durable > 9 && len - l > 9 && l % 61 != 0 {
                            continue;
                        }
                        outcomes.push(Some((f, l, false)));
                        outcomes.push(Some((f, l, true)));
                    }
                }
                for o in outcomes {
                    dir.restore(&whole);
                    if let Some((f, l, zeros)) = o {
                        let file = std::fs::OpenOptions::new().write(true).open(&at_risk[f].0).unwrap();
                        file.set_len(l).unwrap();
                        if zeros {
                            file.set_len(at_risk[f].2).unwrap();
                        }
                    }
                    recovered(ctx, "power", &dir, &s, &others, false, false, &|| format!("fork {fork}: {plan:?} and loss of power there, in {ops:?} ({r:?}), leaving (file, length, zeros after it) {o:?} of {at_risk:?}"));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
    });
    ctx.space("two crashes", || {
        // a second crash while storing again
        parallel(ctx, FORKS, |fork| {
            let s = state(fork, 40, seed);
            let dir = Dir::new(ctx, "two");
            let ops = calls(ctx, &dir, &s);
            for (k, cut) in cuts(&ops, false) {
                dir.empty();
                let _ = save(&dir, &mut Disk::new([(k, Act::Crash(cut))]), &s);
                let once = dir.contents();
                let mut d = Disk::default();
                let _ = save(&dir, &mut d, &s);
                for (k2, cut2) in cuts(&d.ops, fork >= 5 || ctx.thorough) {
                    dir.restore(&once);
                    let _ = save(&dir, &mut Disk::new([(k2, Act::Crash(cut2))]), &s);
                    recovered(ctx, "two crashes", &dir, &s, &[], cut2 == 0, false, &|| format!("fork {fork}: crash in call {k} of {ops:?} after {cut} bytes, then in call {k2} after {cut2}"));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
    });
    ctx.space("faults", || {
        // every call fails in every way, and every two
        let errors = [EINTR, EIO, EACCES, EMFILE, ENOSPC, EROFS];
        parallel(ctx, FORKS, |fork| {
            let s = state(fork, 40, seed);
            let others = neighbours(fork);
            let dir = Dir::new(ctx, "fault");
            stored(ctx, &dir, &others);
            let before = dir.contents();
            let ops = calls(ctx, &dir, &s);
            let acts = |k: usize, deep: bool| -> Vec<Act> {
                let mut a: Vec<Act> = errors.iter().map(|e| Act::Fail(*e)).collect();
                if let Some(Op::Write(n)) = ops.get(k).copied() {
                    a.extend(lengths(n, deep).into_iter().map(Act::Short));
                }
                a
            };
            for k in 0..ops.len() {
                for a in acts(k, true) {
                    let mut plans = vec![vec![(k, a)]];
                    if !matches!(a, Act::Short(n) if !lengths(match ops[k] { Op::Write(n) => n, _ => 0 }, false).contains(&n)) {
                        for k2 in k + 1..ops.len() + 3 {
                            for a2 in acts(k2, false).into_iter().chain([Act::Crash(0), Act::Crash(7)]) {
                                plans.push(vec![(k, a), (k2, a2)]);
                            }
                        }
                    }
                    for plan in plans {
                        dir.restore(&before);
                        let r = save(&dir, &mut Disk::new(plan.clone()), &s);
                        let crashed = plan.iter().any(|(_, a)| matches!(a, Act::Crash(_)));
                        recovered(ctx, "faults", &dir, &s, &others, plan.len() == 1, r.is_ok() && !crashed, &|| format!("fork {fork}: {plan:?} in {ops:?}: {r:?}"));
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        });
    });
    ctx.space("reads", || {
        // every call of a read fails: the state or an error, but not another state, and nothing changes
        parallel(ctx, FORKS, |fork| {
            let s = state(fork, 40, seed);
            let dir = Dir::new(ctx, "read");
            stored(ctx, &dir, std::slice::from_ref(&s));
            let before = dir.contents();
            let mut d = Disk::default();
            let _ = dir.with(&mut d, |f| Ok(read(f, &s)));
            let n = d.ops.len();
            for k in 0..n {
                for a in [EINTR, EIO, EACCES, EMFILE].map(Act::Fail).into_iter().chain((0..before.values().next().map_or(0, |b| b.len())).step_by(ctx.pick(7, 1)).map(Act::Short)) {
                    if matches!(a, Act::Short(_)) && d.ops[k] != Op::Read {
                        continue;
                    }
                    // a read of nothing is the end of the file, and files do not end early
                    if a == Act::Short(0) {
                        continue;
                    }
                    let got = dir.with(&mut Disk::new([(k, a)]), |f| Ok(read(f, &s))).unwrap();
                    ctx.eval(got == Got::State);
                    ctx.check(!matches!(got, Got::Other(_)), "reads", "read", || format!("fork {fork}: {a:?} in call {k} of {:?}: {got:?}", d.ops));
                    ctx.check(dir.contents() == before, "reads", "changed", || format!("fork {fork}: {a:?} in call {k}: a read changes the stored states"));
                    ctx.check(read(&dir.files(), &s) == Got::State, "reads", "later", || format!("fork {fork}: after {a:?} in call {k} of a read the state is lost"));
                }
            }
        });
    });
    ctx.space("histories", || histories(ctx));
    ctx.space("clearing", || clearing(ctx));
    ctx.space("sources", || sources(ctx));
    ctx.space("caching", || caching(ctx));
    ctx.space("formats", || formats(ctx));
    ctx.space("concurrent", || concurrent(ctx));
    std::fs::remove_dir(&ctx.scratch).ok();
    ctx.finish(
        "fault_enumeration",
        "the real providers on a real directory: every crash before every call that changes the directory and after every byte of every write, every part of unsynchronized data that a loss of power can take, two crashes, every failure of every call and every two failures; every history of saves, reads, clears and restarts up to the bound against a map; every pattern of failing requests to the node; every schedule of two processes with the preemption bound; non-trivial = the state was readable afterwards",
        &["file system calls other than data writes are atomic and reach the disk in order", "synchronized data survives a loss of power"],
        json!({}),
    )
}

/// Every history against a map.
fn histories(ctx: &Ctx) {
    let seed = ctx.seed;
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Do {
        Save(usize),
        Clear(u64),
        Restart,
    }
    // two states of one slot, one of each slot around the start of an epoch, and of numbers with fewer and more digits
    let states: Vec<BeaconState> = vec![state(5, 40, seed), state(6, 40, seed + 1), state(5, 39, seed), state(6, 8, seed), state(5, 100, seed)];
    let mut letters: Vec<Do> = (0..states.len()).map(Do::Save).collect();
    letters.extend([0u64, 2, 10, 11, 25, 26].map(Do::Clear));
    letters.push(Do::Restart);
    let n = ctx.pick(4, 5);
    let l = letters.len();
    parallel(ctx, l * l, |first| {
        let dir = Dir::new(ctx, "history");
        product(&vec![l; n - 2], |rest| {
            if ctx.stopped() {
                return;
            }
            dir.empty();
            let mut files = dir.files();
            let mut model: BTreeMap<u64, usize> = BTreeMap::new();
            let h: Vec<Do> = [first % l, first / l].iter().chain(rest).map(|i| letters[*i]).collect();
            for (step, d) in h.iter().enumerate() {
                match *d {
                    Do::Save(i) => {
                        let r = guard(|| files.save_state(&states[i]));
                        let fits = !model.contains_key(&states[i].slot());
                        ctx.check(matches!(&r, Ok(x) if x.is_ok() == fits), "histories", "save", || format!("{:?}: storing gives {r:?}", &h[..=step]));
                        model.entry(states[i].slot()).or_insert(i);
                    }
                    Do::Clear(e) => {
                        let r = guard(|| files.clear_states_before(e.into()));
                        ctx.check(matches!(r, Ok(Ok(()))), "histories", "clear", || format!("{:?}: clearing gives {r:?}", &h[..=step]));
                        model.retain(|s, _| *s >= e * 4);
                    }
                    Do::Restart => files = dir.files(),
                }
            }
            for s in [8, 39, 40, 100, 4, 400] {
                let got = guard(|| files.state_at_slot(Slot::from(s)));
                let ok = match (model.get(&s), &got) {
                    (Some(i), Ok(Ok(x))) => **x == states[*i],
                    (None, Ok(Err(StateProviderError::NotFound(n)))) => n.as_u64() == s,
                    _ => false,
                };
                ctx.check(ok, "histories", "read", || format!("{h:?}: the state at {s} should be {:?}, reading gives {:?}", model.get(&s), got.as_ref().map(|r| r.as_ref().map(|s| (s.slot(), s.version())).map_err(|e| e.to_string()))));
            }
            ctx.eval(!model.is_empty());
        });
    });
}
/// Clearing removes the states before the epoch and nothing else, also when it is interrupted.
fn clearing(ctx: &Ctx) {
    let seed = ctx.seed;
    let slots = [0u64, 3, 4, 9, 10, 39, 40, 41, 99, 100, 1000];
    let foreign = ["notes.txt", "x_beacon_state.ssz", "beacon_state.ssz", "-1_beacon_state.ssz", ".2_beacon_state.ssz", ""];
    let epochs = [0u64, 1, 2, 3, 9, 10, 11, 24, 25, 26, 250, 251, 1 << 20];
    let dir = Dir::new(ctx, "clear");
    for s in slots {
        stored(ctx, &dir, &[state(5, s, seed)]);
    }
    for f in foreign.iter().filter(|f| !f.is_empty()) {
        std::fs::write(format!("{}/{f}", dir.path), b"not a state").unwrap();
    }
    let before = dir.contents();
    let check = |epoch: u64, r: &Result<(), String>, what: &dyn Fn() -> String| {
        let files = dir.files();
        for s in slots {
            let g = read(&files, &state(5, s, seed));
            ctx.eval(g == Got::State);
            let gone = s < epoch * 4;
            let ok = match &g {
                Got::State => !gone || r.is_err(),
                Got::Absent => gone,
                _ => false,
            };
            ctx.check(ok, "clearing", "state", || format!("{}: clearing before epoch {epoch} gives {r:?}, the state at {s} reads as {g:?}", what()));
        }
        for f in foreign.iter().filter(|f| !f.is_empty()) {
            ctx.check(std::fs::read(format!("{}/{f}", dir.path)).ok().as_deref() == Some(b"not a state"), "clearing", "foreign", || format!("{}: clearing removes {f}", what()));
        }
    };
    for epoch in epochs {
        dir.restore(&before);
        let mut d = Disk::default();
        let r = dir.with(&mut d, |f| f.clear_states_before(epoch.into()));
        ctx.check(r.is_ok(), "clearing", "fails", || format!("clearing before {epoch}: {r:?}"));
        check(epoch, &r, &|| "no fault".into());
        for k in 0..d.ops.len() {
            for a in [Act::Fail(EIO), Act::Fail(EACCES), Act::Fail(EINTR), Act::Crash(0)] {
                dir.restore(&before);
                let r = dir.with(&mut Disk::new([(k, a)]), |f| f.clear_states_before(epoch.into()));
                check(epoch, &r, &|| format!("{a:?} in call {k} of {:?}", d.ops));
                // and then again
                let r = dir.with(&mut Disk::default(), |f| f.clear_states_before(epoch.into()));
                ctx.check(r.is_ok(), "clearing", "fails", || format!("clearing before {epoch} after {a:?} in call {k}: {r:?}"));
                check(epoch, &r, &|| format!("{a:?} in call {k}, then again"));
                ctx.tick();
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    Right,
    Broken,
    Missing,
    Garbage,
    /// the state, said to be of another fork
    Mislabelled,
    /// the node has meanwhile another state for this slot
    Changed,
}
/// What the node answers and when it crashes: reads give what was stored, or what the node says.
fn sources(ctx: &Ctx) {
    use Answer::*;
    let seed = ctx.seed;
    let answers = [Right, Broken, Missing, Garbage, Mislabelled, Changed];
    let n = ctx.pick(3, 4);
    // each step: a read with an answer; with or without a fault in storing; with or without a restart
    let steps: Vec<(Answer, Option<(usize, Act)>)> = answers
        .iter()
        .flat_map(|a| {
            let mut v = vec![(*a, None)];
            if matches!(a, Right | Changed) {
                v.extend((0..12).flat_map(|k| [(*a, Some((k, Act::Crash(100)))), (*a, Some((k, Act::Fail(ENOSPC))))]));
            }
            v
        })
        .collect();
    let radix = steps.len();
    parallel(ctx, radix * 2, |first| {
        let fork = 5 + first / radix;
        let one = Arc::new(state(fork, 40, seed));
        let two = Arc::new(state(fork, 40, seed + 9));
        let (one_body, two_body) = (body(&one), body(&two));
        let dir = Dir::new(ctx, "source");
        product(&vec![radix; n - 1], |rest| {
            if ctx.stopped() {
                return;
            }
            dir.empty();
            let h: Vec<_> = std::iter::once(&(first % radix)).chain(rest).map(|i| steps[*i]).collect();
            // what is stored, as far as that is known: none, or one of the two
            let mut stored: Option<usize> = None;
            for (step, (a, fault)) in h.iter().enumerate() {
                let asked = Rc::new(Cell::new(0));
                let (asked2, ob, tb, a2) = (asked.clone(), one_body.clone(), two_body.clone(), *a);
                let got = api(
                    &dir.path,
                    move |slot| {
                        assert_eq!(slot, 40);
                        asked2.set(asked2.get() + 1);
                        match a2 {
                            Right => ob.clone(),
                            Changed => tb.clone(),
                            Broken => Reply::Broken,
                            Missing => Reply::Body(404, "{}".into()),
                            Garbage => Reply::Body(200, "{\"version\":\"electra\",\"data\":{}}".into()),
                            Mislabelled => match &ob {
                                Reply::Body(s, b) => Reply::Body(*s, if b.contains("\"version\":\"electra\"") { b.replace("\"version\":\"electra\"", "\"version\":\"deneb\"") } else { b.replace("\"version\":\"fulu\"", "\"version\":\"electra\"") }),
                                x => x.clone(),
                            },
                        }
                    },
                    |p| {
                        let mut d = Disk::new(*fault);
                        mounted(&dir.path, &mut d, || guard(|| p.state_at_slot(40u64.into())))
                    },
                );
                let which = match &got {
                    Ok(Ok(s)) if **s == *one => Some(0),
                    Ok(Ok(s)) if **s == *two => Some(1),
                    Ok(Ok(_)) => Some(9),
                    _ => None,
                };
                ctx.eval(which.is_some());
                let what = || format!("fork {fork}: {:?}: read {which:?} ({:?}) after {} requests, stored was {stored:?}", &h[..=step], got.as_ref().map(|r| r.as_ref().map(|_| ()).map_err(|e| format!("{e:#}"))), asked.get());
                let said = match a {
                    Right => Some(0),
                    Changed => Some(1),
                    _ => None,
                };
                match stored {
                    Some(s) => {
                        ctx.check(which == Some(s) || which.is_none() && fault.is_some(), "sources", "stored", what);
                    }
                    None => {
                        ctx.check(which.is_none() || which == said, "sources", "read", what);
                        ctx.check(which.is_some() || said.is_none() || fault.is_some(), "sources", "refused", what);
                    }
                }
                // what is there afterwards
                let there = match guard(|| dir.files().state_at_slot(40u64.into())) {
                    Ok(Ok(s)) if *s == *one => Some(0),
                    Ok(Ok(s)) if *s == *two => Some(1),
                    Ok(Err(StateProviderError::NotFound(_))) => None,
                    other => {
                        ctx.violation("sources", "left behind", || format!("{}: the stored state then reads as {:?}", what(), other.map(|r| r.map(|s| s.slot()).map_err(|e| format!("{e:#}")))));
                        return;
                    }
                };
                match stored {
                    Some(s) => ctx.check(there == Some(s), "sources", "overwritten", || format!("{}, then {there:?}", what())),
                    None => ctx.check(there.is_none() || there == said, "sources", "stored another", || format!("{}, then {there:?}", what())),
                };
                stored = there;
            }
        });
    });
}
/// A cached read is what the source returned first.
fn caching(ctx: &Ctx) {
    let seed = ctx.seed;
    struct Source {
        states: Vec<BTreeMap<u64, StateRef>>,
        plan: RefCell<Vec<u8>>,
        log: RefCell<Vec<u64>>,
    }
    impl StateProvider for &Source {
        type Spec = Four;
        fn state_at_slot(&self, slot: Slot) -> Result<StateRef, StateProviderError> {
            self.log.borrow_mut().push(slot.as_u64());
            match self.plan.borrow_mut().pop().unwrap_or(0) {
                2 => Err(anyhow::anyhow!("broken").into()),
                3 => Err(StateProviderError::NotFound(slot)),
                v => self.states[v as usize].get(&slot.as_u64()).cloned().ok_or(StateProviderError::NotFound(slot)),
            }
        }
    }
    let states: Vec<BTreeMap<u64, StateRef>> = (0..2u64).map(|v| [0u64, 3, 4, 8].into_iter().map(|s| (s, Arc::new(state(5, s, seed + v)))).collect()).collect();
    let n = ctx.pick(5, 6);
    // each read: of a slot, or of the genesis validators root; the source answers in one of four ways
    parallel(ctx, 5 * 4, |first| {
        product(&vec![5 * 4; n - 1], |rest| {
            if ctx.stopped() {
                return;
            }
            let src = Source { states: states.clone(), plan: Default::default(), log: Default::default() };
            let cache = CacheStateProvider::new(&src);
            let mut model: BTreeMap<u64, StateRef> = BTreeMap::new();
            let h: Vec<usize> = std::iter::once(first).chain(rest.iter().copied()).collect();
            for (i, x) in h.iter().enumerate() {
                let (what, answer) = (x % 5, (x / 5) as u8);
                *src.plan.borrow_mut() = vec![answer];
                src.log.borrow_mut().clear();
                let slot = [0u64, 4, 8, 5, 0][what];
                if what == 4 {
                    let got = guard(|| cache.genesis_validators_root());
                    // every state of a chain names it; two chains do not occur together
                    if let Ok(Ok(r)) = got {
                        let known = model.values().any(|s| s.genesis_validators_root() == r);
                        let fresh = (answer < 2).then(|| states[answer as usize][&0].genesis_validators_root());
                        ctx.check(known || model.is_empty() && fresh == Some(r), "caching", "root", || format!("{:?}: got {r}", &h[..=i]));
                        if src.log.borrow().as_slice() == [0] {
                            model.entry(0).or_insert_with(|| states[answer as usize][&0].clone());
                        }
                    } else {
                        ctx.check(model.is_empty() && answer >= 2, "caching", "root", || format!("{:?}: fails", &h[..=i]));
                    }
                    continue;
                }
                let got = guard(|| cache.state_at_slot(slot.into()));
                let expected = model.get(&slot).cloned().or_else(|| (answer < 2).then(|| states[answer as usize].get(&slot).cloned()).flatten());
                let ok = match (&expected, &got) {
                    (Some(e), Ok(Ok(s))) => **e == **s,
                    (None, Ok(Err(e))) => matches!(e, StateProviderError::NotFound(_)) != (answer == 2),
                    _ => false,
                };
                ctx.check(ok, "caching", "read", || format!("{:?} (slot {slot}): got {:?}", &h[..=i], got.as_ref().map(|r| r.as_ref().map(|s| (s.slot(), s.genesis_validators_root())).map_err(|e| e.to_string()))));
                if let Some(e) = expected {
                    model.entry(slot).or_insert(e);
                }
            }
            ctx.eval(!model.is_empty());
        });
    });
}
/// States of every fork, from the node and from the disk.
fn formats(ctx: &Ctx) {
    let seed = ctx.seed;
    let dir = Dir::new(ctx, "format");
    let names = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu", "gloas", ""];
    for fork in 0..FORKS {
        for slot in [0u64, 1, 40, 12_345_678, u64::MAX] {
            let s = state(fork, slot, seed);
            for (i, name) in names.iter().enumerate() {
                dir.empty();
                let answer = Reply::Body(200, json!({"version": name, "data": s}).to_string());
                let (first, second) = api(&dir.path, move |_| answer.clone(), |p| (read(p, &s), read(p, &s)));
                ctx.eval(i == fork);
                let stored = read(&dir.files(), &s);
                let ok = if i == fork { first == Got::State && second == Got::State && stored == Got::State } else { matches!(first, Got::Failed(_)) && matches!(second, Got::Failed(_)) && stored == Got::Absent };
                ctx.check(ok, "formats", "version", || format!("a {} state at {slot} served as {name}: {first:?}, then {second:?}, stored {stored:?}", names[fork]));
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Job {
    Save,
    Read,
    Fetch,
    Clear,
}
fn work(path: &str, s: &BeaconState, j: Job, d: &mut Disk) -> (Got, Result<(), String>) {
    let provider = Files::new(path).unwrap();
    match j {
        Job::Fetch => {
            let answer = body(s);
            api(path, move |_| answer.clone(), |p| (mounted(path, d, || read(p, s)), Ok(())))
        }
        _ => mounted(path, d, || match j {
            Job::Save => (Got::Absent, guard(|| provider.save_state(s)).map_err(|p| format!("panic: {p}")).and_then(|r| r.map_err(|e| format!("{e:#}")))),
            Job::Read => (read(&provider, s), Ok(())),
            _ => (Got::Absent, guard(|| provider.clear_states_before(3u64.into())).map_err(|p| format!("panic: {p}")).and_then(|r| r.map_err(|e| format!("{e:#}")))),
        }),
    }
}
/// One of several processes: asks on its output before every call to the file system, in the end says what came of it.
pub fn child(args: &str) -> ! {
    let a: Vec<&str> = args.splitn(3, ' ').collect();
    let j = [Job::Save, Job::Read, Job::Fetch, Job::Clear][a[0].parse::<usize>().unwrap()];
    let s = state(5, 40, a[1].parse().unwrap());
    let (got, r) = work(a[2], &s, j, &mut Disk::asking());
    let (kind, text) = match got {
        Got::State => (0, String::new()),
        Got::Absent => (1, String::new()),
        Got::Other(x) => (2, x),
        Got::Failed(x) => (3, x),
    };
    print!("d{}", json!([kind, text, r]));
    let _ = std::io::Write::flush(&mut std::io::stdout());
    std::process::exit(0)
}
/// Runs a job in a process of its own.
fn process(path: &str, seed: u64, j: Job, me: usize, sched: &Sched) -> (Got, Result<(), String>) {
    use std::io::{Read, Write};
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .env("VERIF_STORE_CHILD", format!("{} {seed} {path}", j as usize))
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("a process");
    let (mut to, mut from) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
    let mut b = [0u8];
    loop {
        match from.read(&mut b) {
            Ok(1) if b[0] == b't' => {
                sched.turn(me);
                let _ = to.write_all(b"g");
            }
            Ok(1) if b[0] == b'd' => break,
            _ => {
                let e = format!("the process ends with {:?}", c.wait());
                return (Got::Failed(e.clone()), Err(e));
            }
        }
    }
    let mut text = String::new();
    from.read_to_string(&mut text).unwrap();
    c.wait().unwrap();
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let t = v[1].as_str().unwrap().to_string();
    let got = match v[0].as_u64().unwrap() {
        0 => Got::State,
        1 => Got::Absent,
        2 => Got::Other(t),
        _ => Got::Failed(t),
    };
    (got, v[2].get("Err").map_or(Ok(()), |e| Err(e.as_str().unwrap().to_string())))
}
/// Two or three processes or threads on one directory.
fn concurrent(ctx: &Ctx) {
    let seed = ctx.seed;
    let s = state(5, 40, seed);
    let old = state(5, 8, seed);
    let jobs = [Job::Save, Job::Read, Job::Fetch, Job::Clear];
    let mut groups = vec![];
    for a in 0..4 {
        for b in a..4 {
            groups.push(vec![jobs[a], jobs[b]]);
            for c in b..4 {
                groups.push(vec![jobs[a], jobs[b], jobs[c]]);
            }
        }
    }
    // in processes of their own, and in threads of one process
    parallel(ctx, groups.len() * 2, |i| {
        let (all, apart) = (&groups[i / 2], i % 2 == 0);
        let savers = all.iter().filter(|j| matches!(j, Job::Save | Job::Fetch)).count();
        let dir = Dir::new(ctx, "both");
        let job = |me: usize, j: Job, sched: Arc<Sched>| {
            if apart {
                process(&dir.path, seed, j, me, &sched)
            } else {
                work(&dir.path, &s, j, &mut Disk::scheduled(&sched, me, 1000))
            }
        };
        let count = schedules(if all.len() == 2 { ctx.pick(3, 5) } else { ctx.pick(2, 3) }, |choose| {
            if ctx.stopped() {
                return;
            }
            dir.empty();
            stored(ctx, &dir, std::slice::from_ref(&old));
            let out = std::sync::Mutex::new(BTreeMap::new());
            let sched = Arc::new(Sched::default());
            let mut trace = vec![];
            let threads: Vec<Box<dyn FnOnce() + Send + '_>> = all
                .iter()
                .copied()
                .enumerate()
                .map(|(me, j)| {
                    let (sched, out, job) = (sched.clone(), &out, &job);
                    Box::new(move || {
                        let r = job(me, j, sched);
                        out.lock().unwrap().insert(me, r);
                    }) as Box<dyn FnOnce() + Send + '_>
                })
                .collect();
            sched.run(threads, |w| {
                let c = choose(w);
                trace.push(c);
                c
            });
            let out = out.into_inner().unwrap();
            let what = || format!("{all:?} in {} scheduled as {trace:?}: {out:?}", if apart { "several processes" } else { "one process" });
            for (me, j) in all.iter().enumerate() {
                let (got, r) = &out[&me];
                match j {
                    Job::Save => ctx.check(r.is_ok() || savers >= 2, "concurrent", "save", what),
                    Job::Read => ctx.check(matches!(got, Got::State | Got::Absent), "concurrent", "read", what),
                    // the other may have stored it in the meantime
                    Job::Fetch => ctx.check(!matches!(got, Got::Other(_) | Got::Absent), "concurrent", "fetch", what),
                    // the file may be gone already
                    Job::Clear => true,
                };
            }
            let later = read(&dir.files(), &s);
            let stored = savers > 0;
            ctx.eval(stored);
            ctx.check(if stored { later == Got::State } else { later == Got::Absent }, "concurrent", "later", || format!("{}; then the state reads as {later:?}", what()));
        });
        ctx.transitions.fetch_add(count, std::sync::atomic::Ordering::Relaxed);
    });
}
