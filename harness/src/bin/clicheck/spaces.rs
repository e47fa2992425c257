//! C26: the files, the verdict and the sync log of the program, for every scenario of the stated families.
use crate::child::*;
use crate::e2e::{attempt, course, parallel, Outcome};
use crate::sim::{Sim, SPE};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use verif_harness::Ctx;
use z_core::ConsensusState;

pub struct Done {
    pub code: i32,
    pub requests: usize,
    pub err: String,
}
/// A directory of its own.
struct Dir(PathBuf);
impl Dir {
    fn new(ctx: &Ctx) -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = PathBuf::from(format!("{}/cli-{}", ctx.scratch, N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn input(&self, net: Net, epoch: u64) -> PathBuf {
        self.0.join(net.name()).join("inputs").join(format!("{epoch}_stdin.bin"))
    }
    fn journal(&self, net: Net, epoch: u64) -> PathBuf {
        self.0.join(net.name()).join("journals").join(format!("{epoch}_journal.bin"))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
fn program(ctx: &Ctx, s: &Scenario, dir: &Path, args: &[String]) -> Done {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["--beacon-api", "http://node.test/", "--network", s.net.name(), "--data-dir"]).arg(dir).args(args);
    c.env("VERIF_CLI", serde_json::to_string(s).unwrap()).env("RUST_LOG", "off").env("RAYON_NUM_THREADS", "2").env("TOKIO_WORKER_THREADS", "2");
    c.env_remove("BEACON_RPC_URL").env_remove("LOG_LEVEL").current_dir(&ctx.scratch);
    let out = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().unwrap();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    let requests = err.lines().find_map(|l| l.strip_prefix("REQUESTS ")).and_then(|n| n.parse().ok()).unwrap_or(0);
    use std::os::unix::process::ExitStatusExt;
    let code = out.status.code().unwrap_or(-out.status.signal().unwrap_or(0));
    Done { code, requests, err }
}
fn build_input(epoch: u64, continuous: bool) -> Vec<String> {
    let mut a = vec!["build-input".into(), "--finalized-epoch".into(), epoch.to_string(), "--retry-interval".into(), "0".into()];
    if continuous {
        a.push("--continuous".into());
    }
    a
}
/// The chain up to a slot, as a node with that head shows it.
fn upto(sim: &Sim, head: u64) -> Sim {
    Sim {
        spec: sim.spec.clone(),
        states: sim.states.range(..=head).map(|(k, v)| (*k, v.clone())).collect(),
        blocks: sim.blocks.range(..=head).map(|(k, v)| (*k, v.clone())).collect(),
        roots: sim.roots.range(..=head).map(|(k, v)| (*k, *v)).collect(),
        headers: sim.headers.iter().filter(|(_, h)| h.message.slot <= head).map(|(k, v)| (*k, v.clone())).collect(),
    }
}
fn word(x: u64) -> Vec<u8> {
    [[0u8; 24].as_slice(), &x.to_be_bytes()].concat()
}
fn state_words(s: &ConsensusState) -> Vec<u8> {
    let cp = |c: z_core::Checkpoint| [word(c.epoch().as_u64()), c.root().to_vec()].concat();
    // finalized first or justified first: as the guest has it
    [cp(s.current_justified_checkpoint()), cp(s.finalized_checkpoint())].concat()
}
/// What the library makes of the chain: the state before, the state after and the slot; nothing if it refuses.
fn library(s: &Scenario, sim: &Sim, epoch: u64) -> Option<(ConsensusState, ConsensusState, u64)> {
    match attempt(s.net.config(), sim, epoch) {
        Outcome::HostRefuses(_) => None,
        Outcome::Accepted { host, .. } => {
            let c = course(sim, epoch)?;
            Some((c[0].clone(), host.0, host.1))
        }
    }
}
/// The two files for an epoch, if they are what a prover and a client need: the input the guest accepts, in its frame,
/// and the journal it then commits, from the trusted state to the next finalization.
fn right_files(s: &Scenario, dir: &Dir, epoch: u64, want: &(ConsensusState, ConsensusState, u64)) -> Result<(), String> {
    let input = std::fs::read(dir.input(s.net, epoch)).map_err(|e| format!("input of epoch {epoch}: {e}"))?;
    let journal = std::fs::read(dir.journal(s.net, epoch)).map_err(|e| format!("journal of epoch {epoch}: {e}"))?;
    if input.len() < 4 || u32::from_le_bytes(input[..4].try_into().unwrap()) as usize != input.len() - 4 {
        return Err(format!("the input of epoch {epoch} is not one frame: {} bytes", input.len()));
    }
    let committed = guest(s.net, vec![input[4..].to_vec()]).map_err(|e| format!("the guest refuses the input of epoch {epoch}: {e}"))?;
    if committed != journal {
        return Err(format!("the journal of epoch {epoch} is not what the guest commits: {} bytes of {}, first difference at {:?}", journal.len(), committed.len(), journal.iter().zip(&committed).position(|(a, b)| a != b)));
    }
    let words = [state_words(&want.0), state_words(&want.1), word(want.2)].concat();
    if journal != words {
        return Err(format!("the journal of epoch {epoch} is not that of {want:?}"));
    }
    Ok(())
}
fn listed(dir: &Dir, net: Net) -> Vec<String> {
    let mut out = vec![];
    for d in ["inputs", "journals"] {
        if let Ok(r) = std::fs::read_dir(dir.0.join(net.name()).join(d)) {
            out.extend(r.map(|e| e.unwrap().file_name().to_string_lossy().to_string()));
        }
    }
    out.sort();
    out
}
fn names(epochs: &[u64]) -> Vec<String> {
    let mut v: Vec<String> = epochs.iter().flat_map(|e| [format!("{e}_stdin.bin"), format!("{e}_journal.bin")]).collect();
    v.sort();
    v
}
type Files = BTreeMap<u64, (ConsensusState, ConsensusState, u64)>;
/// What a run has to do: the files it leaves, and whether it ends well.
fn expected(s: &Scenario, sim: &Sim, epoch: u64, continuous: bool) -> (Files, bool) {
    let mut f = epoch;
    let mut files = Files::new();
    for h in &s.heads {
        let head = s.base * SPE + h;
        if sim.states[&head].finalized_checkpoint().epoch <= f {
            continue;
        }
        let Some(r) = library(s, &upto(sim, head), f) else { return (files, false) };
        let next = r.1.finalized_checkpoint().epoch().as_u64();
        files.insert(f, r);
        if !continuous {
            return (files, true);
        }
        f = next;
    }
    (files, false)
}

struct Stats(Mutex<BTreeMap<String, u64>>);
impl Stats {
    fn note(&self, s: &str) {
        *self.0.lock().unwrap().entry(s.into()).or_default() += 1;
    }
}
fn describe(s: &Scenario) -> String {
    serde_json::to_string(s).unwrap()
}
fn judge_build(ctx: &Ctx, st: &Stats, space: &str, s: &Scenario, sim: &Sim, epoch: u64, continuous: bool) {
    let dir = Dir::new(ctx);
    let (files, well) = expected(s, sim, epoch, continuous);
    let done = program(ctx, s, &dir.0, &build_input(epoch, continuous));
    ctx.eval(!files.is_empty());
    st.note(&format!("{space}: {} inputs, {}", files.len(), if well { "ends well" } else { "fails" }));
    let what = || format!("build-input from epoch {epoch}{}, scenario {}", if continuous { ", continuously" } else { "" }, describe(s));
    ctx.check((done.code == 0) == well, space, "exit code", || format!("{}: exit code {}, {}", what(), done.code, done.err));
    ctx.check(done.code != 77, space, "no end", || format!("{}: does not end", what()));
    let epochs: Vec<u64> = files.keys().copied().collect();
    ctx.check(listed(&dir, s.net) == names(&epochs), space, "files", || format!("{}: there are {:?}, expected those for {epochs:?}; {}", what(), listed(&dir, s.net), done.err));
    for (e, want) in &files {
        if let Err(x) = right_files(s, &dir, *e, want) {
            ctx.violation(space, "contents", || format!("{}: {x}", what()));
        }
    }
    // a client that follows the journals gets from one to the next
    for (a, b) in files.iter().zip(files.iter().skip(1)) {
        ctx.check(a.1.1.finalized_checkpoint().epoch().as_u64() == *b.0, space, "gap", || format!("{}: after {} comes {}", what(), a.0, b.0));
        let (x, y) = (std::fs::read(dir.journal(s.net, *a.0)).unwrap_or_default(), std::fs::read(dir.journal(s.net, *b.0)).unwrap_or_default());
        ctx.check(x.len() == 288 && y.len() == 288 && x[128..256] == y[..128], space, "gap", || format!("{}: the journals of {} and {} do not join", what(), a.0, b.0));
    }
}

const NETS: [Net; 2] = [Net::Mainnet, Net::Sepolia];
/// Where chains begin: well after Electra, and shortly before Fulu.
fn bases(net: Net) -> [u64; 2] {
    let f = |e: Option<z_core::Epoch>| e.unwrap().as_u64();
    let spec = net.spec();
    [f(spec.electra_fork_epoch) + 100, f(spec.fulu_fork_epoch) - 4]
}
const T: u64 = 2;
const LAST: u64 = T + 6;
fn shapes() -> Vec<Vec<(u64, Vote)>> {
    let mut v = vec![vec![]];
    for vote in [Vote::Most, Vote::Few, Vote::Late, Vote::Elsewhere] {
        for e in T..T + 4 {
            v.push(vec![(e, vote)]);
        }
        v.push((T..T + 5).map(|e| (e, vote)).collect());
    }
    v.push((0..=LAST).map(|e| (e, Vote::Most)).collect());
    v
}
fn empties() -> Vec<Vec<u64>> {
    let at = |e: u64| e * SPE;
    vec![vec![], vec![at(T)], vec![at(T), at(T) - 1], vec![at(T), at(T) + 1], vec![at(T + 1), at(T + 2)], vec![at(T) - 1, at(T + 4)]]
}
fn pick<'a, T>(i: &mut usize, v: &'a [T]) -> &'a T {
    let x = &v[*i % v.len()];
    *i /= v.len();
    x
}

pub fn run(ctx: &'static Ctx) -> ! {
    let st = Stats(Default::default());
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    let (shapes, empties) = (shapes(), empties());
    let bases: Vec<(Net, u64)> = NETS.iter().flat_map(|n| bases(*n).map(|b| (*n, b))).collect();
    let few_shapes: Vec<usize> = (0..shapes.len()).filter(|i| ctx.thorough || i % 3 == 0).collect();
    let sims: Mutex<BTreeMap<String, Arc<Sim>>> = Mutex::default();
    let sim_of = |s: &Scenario| -> Arc<Sim> {
        let mut k = s.clone();
        (k.heads, k.fail, k.other, k.tamper) = (vec![], None, None, Tamper::No);
        let k = describe(&k);
        if let Some(x) = sims.lock().unwrap().get(&k) {
            return x.clone();
        }
        let x = Arc::new(s.plan(s.seed).build());
        sims.lock().unwrap().insert(k, x.clone());
        x
    };
    ctx.space("heads", || {
        // every head a node can have, for every shape of chain
        let heads: Vec<u64> = (T * SPE..(LAST + 1) * SPE).step_by(ctx.pick(2, 1)).collect();
        let extra: [u8; 3] = [0, 1, 2];
        let n = bases.len() * few_shapes.len() * empties.len();
        parallel(ctx, n, |mut i| {
            let k = i;
            let (net, base) = *pick(&mut i, &bases);
            let shape = &shapes[*pick(&mut i, &few_shapes)];
            let mut s = Scenario::new(net, base, LAST);
            (s.votes, s.empty) = (shape.clone(), pick(&mut i, &empties).clone());
            match extra[k % 3] {
                1 => s.overlapping = true,
                2 => s.exits = vec![(T * SPE + 1, 3), ((T + 1) * SPE, 5)],
                _ => {}
            }
            let sim = s.plan(s.seed).build();
            // (heads at which the node does not know of any progress make the program ask again)
            let ready: Vec<u64> = heads.iter().copied().filter(|h| sim.states[&(base * SPE + h)].finalized_checkpoint().epoch > base + T).collect();
            let idle = heads.iter().rev().copied().find(|h| !ready.contains(h));
            for h in ready.iter().copied().step_by(ctx.pick(3, 1)).chain(ready.last().copied()) {
                s.heads = vec![h];
                judge_build(ctx, &st, "heads", &s, &sim, base + T, false);
            }
            if let Some(h) = idle {
                s.heads = vec![h];
                judge_build(ctx, &st, "heads", &s, &sim, base + T, false);
            }
            ctx.sample(|| json!(describe(&s)));
        });
    });
    ctx.space("continuous", || {
        // how the head moves between the requests: every three steps
        let steps = [0u64, 1, 3, 4, 9];
        let n = bases.len() * few_shapes.len() * 2 * steps.len().pow(2) * ctx.pick(1, steps.len());
        parallel(ctx, n, |mut i| {
            let (net, base) = *pick(&mut i, &bases);
            let mut s = Scenario::new(net, base, LAST + 2);
            let (a, b) = (*pick(&mut i, &steps), *pick(&mut i, &steps));
            s.votes = shapes[*pick(&mut i, &few_shapes)].clone();
            s.empty = [empties[0].clone(), empties[4].clone()][*pick(&mut i, &[0, 1])].clone();
            let c = *pick(&mut i, &steps);
            let sim = sim_of(&s);
            let mut h = (T + 2) * SPE + 1;
            let mut k = 0;
            while h < (LAST + 3) * SPE && k < 8 {
                s.heads.push(h);
                h += [a, b, c][k % 3];
                k += 1;
            }
            s.heads.push((LAST + 3) * SPE - 1);
            judge_build(ctx, &st, "continuous", &s, &sim, base + T, true);
        });
    });
    ctx.space("failing requests", || {
        // each request fails in each way
        let plans: Vec<(usize, usize)> = (0..ctx.pick(2, few_shapes.len())).flat_map(|s| [(s, 0), (s, 2)]).collect();
        parallel(ctx, bases.len() * plans.len() * FAULTS.len(), |mut i| {
            let (net, base) = *pick(&mut i, &bases);
            let (shape, empty) = *pick(&mut i, &plans);
            let fault = *pick(&mut i, &FAULTS);
            let mut s = Scenario::new(net, base, LAST);
            (s.votes, s.empty, s.heads) = (shapes[few_shapes[shape]].clone(), empties[empty].clone(), vec![(LAST + 1) * SPE - 1]);
            let sim = sim_of(&s);
            let want = library(&s, &sim, base + T);
            for k in 0..400 {
                s.fail = Some((k, fault));
                let dir = Dir::new(ctx);
                let done = program(ctx, &s, &dir.0, &build_input(base + T, false));
                ctx.eval(true);
                let what = || format!("build-input from epoch {}, scenario {}", base + T, describe(&s));
                if done.code == 0 {
                    // no harm done: a block that seems to be missing may not be needed
                    st.note("failing requests: ends well");
                    let r = want.as_ref().ok_or("the library refuses this chain".to_string()).and_then(|w| right_files(&s, &dir, base + T, w));
                    if let Err(x) = r {
                        ctx.violation("failing requests", "contents", || format!("{}: {x}", what()));
                    }
                    ctx.check(fault == Fault::Missing || done.requests <= k, "failing requests", "ignored", || format!("{}: request {k} of {} fails in vain", what(), done.requests));
                } else {
                    st.note("failing requests: fails");
                    ctx.check(listed(&dir, net).is_empty(), "failing requests", "files", || format!("{}: exit code {}, but there are {:?}", what(), done.code, listed(&dir, net)));
                    ctx.check(done.requests > k || want.is_none(), "failing requests", "exit code", || format!("{}: exit code {} though no request fails: {}", what(), done.code, done.err));
                    // the next run makes up for it
                    let again = Scenario { fail: None, ..s.clone() };
                    let done = program(ctx, &again, &dir.0, &build_input(base + T, false));
                    if let Some(w) = &want {
                        let r = if done.code == 0 { right_files(&s, &dir, base + T, w) } else { Err(done.err.clone()) };
                        if let Err(x) = r {
                            ctx.violation("failing requests", "again", || format!("{}: the run after it: {x}", what()));
                        }
                    }
                }
                if done.requests <= k || ctx.stopped() {
                    break;
                }
            }
        });
    });
    ctx.space("changing chains", || {
        // from a request on the node shows another chain
        parallel(ctx, bases.len() * 3, |mut i| {
            let (net, base) = *pick(&mut i, &bases);
            let mut s = Scenario::new(net, base, LAST);
            s.votes = shapes[*pick(&mut i, &[0usize, 3, 6])].clone();
            s.heads = vec![(LAST + 1) * SPE - 1];
            let one = sim_of(&s);
            let two = sim_of(&Scenario { seed: 2, ..s.clone() });
            for k in 1..400 {
                s.other = Some((k, 2));
                let dir = Dir::new(ctx);
                let done = program(ctx, &s, &dir.0, &build_input(base + T, false));
                ctx.eval(true);
                let what = || format!("build-input from epoch {}, scenario {}", base + T, describe(&s));
                if done.code == 0 {
                    st.note("changing chains: ends well");
                    let ok = [&one, &two].iter().any(|sim| library(&s, sim, base + T).is_some_and(|w| right_files(&s, &dir, base + T, &w).is_ok()));
                    ctx.check(ok, "changing chains", "contents", || format!("{}: the files are of neither chain", what()));
                } else {
                    st.note("changing chains: fails");
                    ctx.check(listed(&dir, net).is_empty(), "changing chains", "files", || format!("{}: exit code {}, but there are {:?}", what(), done.code, listed(&dir, net)));
                }
                if done.requests <= k || ctx.stopped() {
                    break;
                }
            }
        });
    });
    ctx.space("obstacles", || {
        // what may be in the way of the files
        let files = ["inputs/E_stdin.bin", "journals/E_journal.bin", "inputs", "journals", "states"];
        let ways = ["longer", "same length", "directory", "full", "file", "nothing there"];
        parallel(ctx, bases.len() * files.len() * ways.len() * 2, |mut i| {
            let (net, base) = *pick(&mut i, &bases);
            let (file, way) = (*pick(&mut i, &files), *pick(&mut i, &ways));
            let continuous = *pick(&mut i, &[false, true]);
            let leaf = file.contains("E_");
            if !leaf && way != "file" || leaf && way == "file" {
                return;
            }
            let mut s = Scenario::new(net, base, LAST);
            s.heads = vec![(LAST + 1) * SPE - 1];
            let sim = sim_of(&s);
            let e = base + T;
            let dir = Dir::new(ctx);
            let path = dir.0.join(net.name()).join(file.replace('E', &e.to_string()));
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            match way {
                "longer" => std::fs::write(&path, vec![7; 200_000]).unwrap(),
                "same length" => std::fs::write(&path, vec![7; 288]).unwrap(),
                "directory" => std::fs::create_dir(&path).unwrap(),
                "full" => std::os::unix::fs::symlink("/dev/full", &path).unwrap(),
                "file" => std::fs::write(&path, b"x").unwrap(),
                _ => {}
            }
            let done = program(ctx, &s, &dir.0, &build_input(e, continuous));
            ctx.eval(true);
            let what = || format!("{way} at {file}, build-input from epoch {e}, continuously {continuous}, on {}", net.name());
            let possible = !matches!(way, "directory" | "full" | "file");
            ctx.check(done.code != 0 || possible && !continuous, "obstacles", "exit code", || format!("{}: ends well", what()));
            if possible {
                let w = library(&s, &sim, e).expect("an ordinary chain");
                let r = if done.code == 0 || continuous { right_files(&s, &dir, e, &w) } else { Err(done.err.clone()) };
                if let Err(x) = r {
                    ctx.violation("obstacles", "contents", || format!("{}: {x}", what()));
                }
            }
        });
    });
    ctx.space("verify", || {
        let mut tampers = vec![Tamper::No, Tamper::Fails, Tamper::Cut(0), Tamper::Cut(127), Tamper::Cut(128), Tamper::Cut(255)];
        for w in 0..4 {
            // each number's low bytes, and each root's bytes
            for b in (24..64).step_by(ctx.pick(3, 1)).filter(|b| *b < 32 || *b >= 32) {
                tampers.push(Tamper::Flip(w * 64 + b));
            }
        }
        let modes = ["native", "ssz", "r0vm"];
        let jobs: Vec<(usize, usize, usize, usize)> = (0..bases.len())
            .flat_map(|b| few_shapes.iter().map(move |s| (b, *s)))
            .flat_map(|(b, s)| (0..3).map(move |m| (b, s, m)))
            .flat_map(|(b, s, m)| [0, 2].map(move |e| (b, s, m, e)))
            .collect();
        parallel(ctx, jobs.len() + bases.len() * tampers.len() * 2, |i| {
            let mut s;
            let mode;
            if let Some((b, shape, m, e)) = jobs.get(i).copied() {
                s = Scenario::new(bases[b].0, bases[b].1, LAST);
                (s.votes, s.empty) = (shapes[shape].clone(), empties[e].clone());
                mode = modes[m];
            } else {
                let mut k = i - jobs.len();
                let (net, base) = *pick(&mut k, &bases);
                s = Scenario::new(net, base, LAST);
                s.tamper = *pick(&mut k, &tampers);
                mode = ["r0vm", "native"][k];
            }
            let e = s.base + T;
            s.heads = vec![(LAST + 1) * SPE - 1];
            let sim = sim_of(&s);
            let dir = Dir::new(ctx);
            let done = program(ctx, &s, &dir.0, &["verify".into(), "--mode".into(), mode.into(), "--trusted-epoch".into(), e.to_string()]);
            let accepted = library(&s, &sim, e).is_some();
            let good = accepted && (mode != "r0vm" || s.tamper == Tamper::No);
            ctx.eval(accepted);
            st.note(&format!("verify: {}", if good { "ends well" } else { "fails" }));
            ctx.check((done.code == 0) == good, "verify", "exit code", || format!("verify --mode {mode} from epoch {e}, scenario {}: exit code {}, {}", describe(&s), done.code, done.err));
        });
    });
    ctx.space("sync", || {
        let starts: Vec<u64> = (T * SPE..(T + 4) * SPE).step_by(ctx.pick(3, 1)).collect();
        let modes = [("native", Tamper::No), ("r0vm", Tamper::No), ("r0vm", Tamper::Flip(31)), ("r0vm", Tamper::Fails)];
        parallel(ctx, bases.len() * few_shapes.len() * starts.len() * modes.len(), |mut i| {
            let (net, base) = *pick(&mut i, &bases);
            let mut s = Scenario::new(net, base, LAST + 2);
            s.votes = shapes[*pick(&mut i, &few_shapes)].clone();
            let start = base * SPE + pick(&mut i, &starts);
            let (mode, tamper) = *pick(&mut i, &modes);
            s.tamper = tamper;
            s.heads = vec![(LAST + 3) * SPE - 1];
            let sim = sim_of(&s);
            let dir = Dir::new(ctx);
            let log = dir.0.join("some/where/sync.log");
            let args = ["sync", "--mode", mode, "--start-slot", &start.to_string(), "--log-path", log.to_str().unwrap()].map(String::from);
            let done = program(ctx, &s, &dir.0, &args);
            let mut want = vec![];
            let mut from = sim.consensus(start).unwrap();
            while let Some((_, to, _)) = library(&s, &sim, from.finalized_checkpoint().epoch().as_u64()) {
                want.push((format!("{from:?}"), format!("{to:?}")));
                from = to;
            }
            ctx.eval(!want.is_empty());
            st.note(&format!("sync: {} steps", want.len()));
            let text = std::fs::read_to_string(&log).unwrap_or_default();
            let lines: Vec<&str> = text.lines().collect();
            let what = || format!("sync --mode {mode} from slot {start}, scenario {}", describe(&s));
            // (a program that follows the chain ends only when something fails, and then says so)
            ctx.check(done.code != 0 && done.code != 77, "sync", "exit code", || format!("{}: exit code {}", what(), done.code));
            ctx.check(lines.len() == want.len(), "sync", "steps", || format!("{}: {} steps are logged, not {}: {text} {}", what(), lines.len(), want.len(), done.err));
            for (l, (a, b)) in lines.iter().zip(&want) {
                let order = l.find(a.as_str()).is_some_and(|i| l[i + a.len()..].contains(b.as_str()));
                ctx.check(order, "sync", "step", || format!("{}: '{l}' is not the step from {a} to {b}", what()));
                ctx.check(l.ends_with("Ok") == (tamper == Tamper::No), "sync", "verdict", || format!("{}: '{l}'", what()));
            }
        });
    });
    let outcomes = st.0.lock().unwrap().clone();
    ctx.finish(
        "exploration",
        "the shipped program runs as a process of its own against a simulated beacon node, for every network, fork position, shape of chain, head, movement of the head, failing request, obstacle and journal of the stated families; inputs and journals are read back: the guest must accept the one and commit the other, from the trusted state to the next finalization the chain shows; nothing is left where the program fails, and it says that it fails",
        &[
            "the chain simulator follows the consensus specification for committees, votes, justification and finalization",
            "the zkVM's executor runs the guest's code, compiled for the host",
            "lighthouse, ethereum-consensus, reqwest and risc0 types are the stand-ins in shims/; the small preset stands for mainnet's",
        ],
        json!({"outcomes": outcomes}),
    );
}
