//! What a process of the program sees: a scenario, and the node that plays it.
use crate::sim::{Event, Part, Plan, Sim, SPE};
use reqwest::{set_shared_handler, Reply};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use verif_harness::guard;
use verif_harness::spec::Four;
use z_core::{ChainSpec, Config, DEFAULT_CONFIG, SEPOLIA_CONFIG};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Net {
    Mainnet,
    Sepolia,
}
impl Net {
    pub fn name(self) -> &'static str {
        match self {
            Net::Mainnet => "mainnet",
            Net::Sepolia => "sepolia",
        }
    }
    pub fn spec(self) -> ChainSpec {
        match self {
            Net::Mainnet => chainspec::mainnet_spec(),
            Net::Sepolia => chainspec::sepolia_spec(),
        }
    }
    pub fn config(self) -> &'static Config {
        match self {
            Net::Mainnet => &DEFAULT_CONFIG,
            Net::Sepolia => &SEPOLIA_CONFIG,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Vote {
    Most,
    Few,
    Late,
    Elsewhere,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Missing,
    Error,
    Broken,
    Garbage,
}
pub const FAULTS: [Fault; 4] = [Fault::Missing, Fault::Error, Fault::Broken, Fault::Garbage];
/// What becomes of the guest's journal on its way to the program.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tamper {
    No,
    Fails,
    Cut(usize),
    Flip(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub net: Net,
    pub seed: u64,
    /// epochs are counted from here on
    pub base: u64,
    pub last: u64,
    pub n: usize,
    pub votes: Vec<(u64, Vote)>,
    /// slots after the base's first one
    pub empty: Vec<u64>,
    pub exits: Vec<(u64, usize)>,
    pub overlapping: bool,
    /// the head's slot at every request for the head's finality; then that fails
    pub heads: Vec<u64>,
    pub fail: Option<(usize, Fault)>,
    /// another chain, from a request on
    pub other: Option<(usize, u64)>,
    pub tamper: Tamper,
}
impl Scenario {
    pub fn new(net: Net, base: u64, last: u64) -> Self {
        Scenario { net, seed: 1, base, last, n: 16, votes: vec![], empty: vec![], exits: vec![], overlapping: false, heads: vec![], fail: None, other: None, tamper: Tamper::No }
    }
    pub fn plan(&self, seed: u64) -> Plan {
        let mut p = Plan::new(seed, self.base, self.base + self.last, self.n);
        p.spec = self.net.spec();
        p.part = self
            .votes
            .iter()
            .map(|(e, v)| {
                let v = match v {
                    Vote::Most => Part::Most,
                    Vote::Few => Part::Few,
                    Vote::Late => Part::Late(1),
                    Vote::Elsewhere => Part::Elsewhere,
                };
                (self.base + e, v)
            })
            .collect();
        p.empty = self.empty.iter().map(|s| self.base * SPE + s).collect();
        p.events = self.exits.iter().map(|(s, i)| (self.base * SPE + s, Event::Exit(*i))).collect();
        p.overlapping = self.overlapping;
        p
    }
}
/// The network's guest program, as it is built for it.
pub fn guest(net: Net, frames: Vec<Vec<u8>>) -> Result<Vec<u8>, String> {
    let mut ok = Ok(());
    let io = risc0_zkvm::guest::env::with_io(frames, || {
        ok = guard(|| beacon_guest::entry::<Four>(net.spec(), net.config()));
    });
    ok?;
    if io.commits.len() != 1 || !io.frames.is_empty() {
        return Err("not one commit, or frames left".into());
    }
    Ok(io.commits.concat())
}

struct Node {
    sims: Vec<Sim>,
    heads: Vec<u64>,
    polls: usize,
    head: u64,
    n: usize,
    answers: HashMap<(usize, String), String>,
}
impl Node {
    /// The body for a path, if there is such a thing up to the head.
    fn answer(&mut self, path: &str, which: usize) -> Option<String> {
        let sim = &self.sims[which];
        let head = self.head;
        let of = |slot: u64| -> Option<Value> {
            let s = sim.states.get(&slot).filter(|_| slot <= head)?;
            let cp = |c: &ethereum_consensus::phase0::Checkpoint| json!({"epoch": c.epoch.to_string(), "root": c.root});
            Some(json!({"execution_optimistic": false, "finalized": false, "data": {
                "previous_justified": cp(s.previous_justified_checkpoint()),
                "current_justified": cp(s.current_justified_checkpoint()),
                "finalized": cp(s.finalized_checkpoint()),
            }}))
        };
        if let Some(id) = path.strip_prefix("/eth/v2/debug/beacon/states/") {
            let slot = id.parse::<u64>().ok()?;
            if slot > head {
                return None;
            }
            let key = (which, path.to_string());
            if !self.answers.contains_key(&key) {
                let s = sim.states.get(&slot)?;
                let body = json!({"version": s.version().to_string(), "execution_optimistic": false, "finalized": true, "data": &**s});
                self.answers.insert(key.clone(), body.to_string());
            }
            return self.answers.get(&key).cloned();
        }
        if let Some(id) = path.strip_prefix("/eth/v2/beacon/blocks/") {
            let slot = sim.block_by_id(id).filter(|s| *s <= head)?;
            let b = sim.blocks.get(&slot)?;
            return Some(json!({"version": "electra", "execution_optimistic": false, "finalized": true, "data": {"message": b, "signature": "0x00"}}).to_string());
        }
        if let Some(id) = path.strip_prefix("/eth/v1/beacon/headers/") {
            let slot = sim.block_by_id(id).filter(|s| *s <= head)?;
            let h = &sim.headers[&sim.roots[&slot]];
            return Some(json!({"execution_optimistic": false, "finalized": true, "data": {"root": sim.roots[&slot], "canonical": true, "header": h}}).to_string());
        }
        let id = path.strip_prefix("/eth/v1/beacon/states/")?.strip_suffix("/finality_checkpoints")?;
        Some(of(id.parse::<u64>().ok()?)?.to_string())
    }
}
/// Runs the program; never returns.
pub fn become_program(s: Scenario) -> ! {
    let mut sims = vec![s.plan(s.seed).build()];
    if let Some((_, seed)) = s.other {
        sims.push(s.plan(seed).build());
    }
    let at = |x: &u64| s.base * SPE + x;
    let node = Mutex::new(Node { sims, heads: s.heads.iter().map(at).collect(), polls: 0, head: at(&s.heads[0]), n: 0, answers: HashMap::new() });
    let count = Arc::new(AtomicUsize::new(0));
    let seen = count.clone();
    let (fail, other) = (s.fail, s.other);
    set_shared_handler(Some(Arc::new(move |url| {
        let mut node = node.lock().unwrap();
        let n = node.n;
        node.n += 1;
        seen.store(node.n, Relaxed);
        if n > 5000 {
            eprintln!("no end of requests");
            std::process::exit(77);
        }
        if let Some((k, f)) = fail {
            if k == n {
                return (0, match f {
                    Fault::Missing => Reply::Body(404, json!({"code": 404, "message": "not found"}).to_string()),
                    Fault::Error => Reply::Body(503, json!({"code": 503, "message": "syncing"}).to_string()),
                    Fault::Broken => Reply::Broken,
                    Fault::Garbage => Reply::Body(200, "{\"data\":".into()),
                });
            }
        }
        let mut path = url.path().to_string();
        if path == "/eth/v1/beacon/states/head/finality_checkpoints" {
            let k = node.polls;
            node.polls += 1;
            let Some(head) = node.heads.get(k).copied() else {
                return (0, Reply::Broken);
            };
            node.head = head;
            path = format!("/eth/v1/beacon/states/{head}/finality_checkpoints");
        }
        let which = other.is_some_and(|(k, _)| n >= k) as usize;
        match node.answer(&path, which) {
            Some(body) => (0, Reply::Body(200, body)),
            None => (0, Reply::Body(404, json!({"code": 404, "message": "not found"}).to_string())),
        }
    })));
    static TAMPER: Mutex<Tamper> = Mutex::new(Tamper::No);
    *TAMPER.lock().unwrap() = s.tamper;
    risc0_zkvm::set_program(|elf, frames| {
        let net = match elf {
            x if x == methods::MAINNET_ELF => Net::Mainnet,
            x if x == methods::SEPOLIA_ELF => Net::Sepolia,
            _ => return Err("not a program".into()),
        };
        let mut j = guest(net, frames)?;
        match *TAMPER.lock().unwrap() {
            Tamper::No => {}
            Tamper::Fails => return Err("the guest fails".into()),
            Tamper::Cut(n) => j.truncate(n),
            Tamper::Flip(i) => j[i] ^= 0x10,
        }
        Ok(j)
    });
    let r = crate::cli::run();
    eprintln!("REQUESTS {}", count.load(Relaxed));
    match r {
        Ok(()) => std::process::exit(0),
        Err(e) => {
            eprintln!("Error: {e}");
            std::process::exit(1)
        }
    }
}
