//! Shared parts of the explorations: counters, evidence, violations, panic capture, watchdog, enumeration helpers.
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod util;
#[cfg(feature = "core")]
pub mod spec;
pub mod tree;
#[cfg(feature = "core")]
pub mod chain;

thread_local! { static QUIET: Cell<u32> = const { Cell::new(0) }; }

/// Runs code under test; a panic is an outcome, not a failure of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub dir: String,
    pub scratch: String,
    space_filter: String,
    start: Instant,
    pub evals: AtomicU64,
    pub nontrivial: AtomicU64,
    pub transitions: AtomicU64,
    pub ticks: AtomicU64,
    spaces: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<(String, String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
}

static CTX: std::sync::OnceLock<Ctx> = std::sync::OnceLock::new();

/// Sets up the check named on the command line.
pub fn start() -> &'static Ctx {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) == 0 {
            prev(i)
        }
    }));
    let id = std::env::args().nth(1).expect("property id");
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let known = std::fs::read_to_string(format!("{dir}/known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["known"].as_array().cloned())
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k["property"] == id.as_str())
        .map(|k| (k["key"].as_str().unwrap().to_string(), k["what"].as_str().unwrap().to_string()))
        .collect();
    let ctx = Ctx {
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        scratch: std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| format!("/tmp/verif-scratch-{}", std::process::id())),
        space_filter: std::env::var("VERIF_SPACE").unwrap_or_default(),
        id,
        dir,
        start: Instant::now(),
        evals: Default::default(),
        nontrivial: Default::default(),
        transitions: Default::default(),
        ticks: Default::default(),
        spaces: Default::default(),
        samples: Default::default(),
        violations: Default::default(),
        known,
        known_hit: Default::default(),
        stop: AtomicBool::new(false),
    };
    let ctx = CTX.get_or_init(|| ctx);
    // an execution that never ends is reported, not waited for
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let n = ctx.evals.load(Relaxed) + ctx.ticks.load(Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(150) {
                ctx.violation("watchdog", "hang", || "an execution of the code under test does not end".into());
                std::process::exit(ctx.report());
            }
        }
    });
    ctx
}

impl Ctx {
    /// Picks the bound for the tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Enters a named part of the explored space; false if it is filtered out (replay) or exploration has stopped.
    pub fn space(&self, name: &str, f: impl FnOnce()) {
        if !self.space_filter.is_empty() && self.space_filter != name {
            return;
        }
        if self.stopped() {
            return;
        }
        let before = self.evals.load(Relaxed);
        let t = Instant::now();
        f();
        let n = self.evals.load(Relaxed) - before;
        *self.spaces.lock().unwrap().entry(name.into()).or_default() += n;
        println!("  {name}: {n} executions, {:.1} s", t.elapsed().as_secs_f64());
    }
    pub fn eval(&self, nontrivial: bool) {
        self.evals.fetch_add(1, Relaxed);
        if nontrivial {
            self.nontrivial.fetch_add(1, Relaxed);
        }
    }
    pub fn evals(&self, n: u64, nontrivial: u64) {
        self.evals.fetch_add(n, Relaxed);
        self.nontrivial.fetch_add(nontrivial, Relaxed);
    }
    pub fn tick(&self) {
        self.ticks.fetch_add(1, Relaxed);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        if let Ok(mut s) = self.samples.try_lock() {
            if s.len() < 12 {
                s.push(v());
            }
        }
    }
    /// Records a violation. `key` identifies the failing input or history (see known_findings.json).
    pub fn violation(&self, space: &str, key: &str, detail: impl FnOnce() -> String) {
        if self.known.iter().any(|(k, _)| k == key) {
            *self.known_hit.lock().unwrap().entry(key.into()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 3 {
            v.push((space.into(), key.into(), detail()));
        } else {
            self.stop.store(true, Relaxed);
        }
    }
    /// `violation` unless the condition holds.
    pub fn check(&self, ok: bool, space: &str, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(space, key, detail);
        }
        ok
    }
    fn report(&self) -> i32 {
        for (k, what) in &self.known {
            let n = self.known_hit.lock().unwrap().get(k).copied().unwrap_or(0);
            if n > 0 {
                println!("KNOWN-FINDING: property={} {what} ({n} executions)", self.id);
            }
        }
        let v = self.violations.lock().unwrap();
        let dir = format!("{}/replay", self.dir);
        std::fs::create_dir_all(&dir).ok();
        for (i, (space, key, detail)) in v.iter().enumerate() {
            let path = format!("{dir}/{}-{i}.json", self.id);
            let rec = json!({"property": self.id, "space": space, "key": key, "what": detail,
                "tier": self.pick("quick", "thorough"), "seed": self.seed});
            std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap()).ok();
            let short: String = detail.chars().take(1500).collect();
            println!("violation in space '{space}' [{key}]: {short}");
            println!("VIOLATION property={} replay={path}", self.id);
        }
        if v.is_empty() {
            0
        } else {
            1
        }
    }
    /// Writes the evidence file and ends the process.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str], extra: Value) -> ! {
        let mut cov = serde_json::Map::new();
        let (e, n, t) = (self.evals.load(Relaxed), self.nontrivial.load(Relaxed), self.transitions.load(Relaxed));
        match level {
            "model_checking" => {
                cov.insert("states".into(), json!(n));
                cov.insert("transitions".into(), json!(t));
                cov.insert("traces_validated_against_impl".into(), json!(e));
            }
            _ => {
                cov.insert("evaluations".into(), json!(e));
                cov.insert("distinct_nontrivial".into(), json!(n));
            }
        }
        cov.insert("rule".into(), json!(rule));
        cov.insert("executions_by_space".into(), json!(*self.spaces.lock().unwrap()));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("exhaustive".into(), json!(self.space_filter.is_empty() && !self.stopped()));
        if let Value::Object(o) = extra {
            cov.extend(o);
        }
        let code = self.report();
        let ev = json!({
            "property": self.id, "tier": self.pick("quick", "thorough"), "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.lock().unwrap().len(),
        });
        std::fs::create_dir_all(format!("{}/evidence", self.dir)).ok();
        std::fs::write(format!("{}/evidence/{}.json", self.dir, self.id), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence");
        println!("{}: {e} executions, {n} distinct non-trivial, {:.1} s", self.id, self.start.elapsed().as_secs_f64());
        std::process::exit(code)
    }
}
