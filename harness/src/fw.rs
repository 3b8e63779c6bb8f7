//! Framework: deterministic sharded proptest runs, panic capture, evidence, replay.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Marks an error of the harness itself (never reported as a violation).
pub const HARNESS: &str = "HARNESS-ERROR: ";

#[derive(Default)]
pub struct Ctx {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn class(&mut self, name: &str) {
        *self.classes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    /// Declares the case non-trivial (or-ed).
    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let verbose = std::env::var("PV_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if verbose {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic of the code under test into an error. A panic raised in the harness's
/// own source is an error of the harness.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if loc.starts_with("src/") {
                Err(format!("{HARNESS}panic in the harness at {loc}: {msg}"))
            } else {
                Err(format!("{what} panicked at {loc}: {msg}"))
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    /// (message, case as json)
    pub failure: Option<(String, String)>,
}

impl Report {
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 2 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        if self.failure.is_none() {
            self.failure = o.failure;
        }
    }
}

type RunFn = Box<dyn Fn(&str, u64, Tier) -> Report + Send + Sync>;
type ReplayFn = Box<dyn Fn(&str) -> R + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, id: &str, name: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = fnv(format!("{seed}/{id}/{name}/{shard}/{i}").as_bytes());
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn run_case<C>(f: &(dyn Fn(&C, &mut Ctx) -> R + Send + Sync), case: &C, ctx: &mut Ctx) -> R {
    match guard("the code under test", || f(case, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

/// Factor on the number of cases, so that the quick tier takes some 10 to 20 seconds on 8 cores.
fn scale(id: &str) -> u32 {
    if let Some(k) = std::env::var("PV_SCALE").ok().and_then(|s| s.parse().ok()) {
        return k;
    }
    match id {
        "C02" | "C12" | "C16" | "C25" | "C26" => 40,
        "C06" | "C07" => 30,
        "C01" | "C03" | "C04" | "C08" => 20,
        "C05" | "C10" | "C11" => 15,
        "C09" | "C15" | "C17" | "C21" => 10,
        "C13" | "C14" | "C19" | "C20" | "C23" | "C24" | "C28" => 8,
        "C29" => 20,
        "C31" => 4,
        "C30" => 60,
        "C32" => 5,
        "C27" => 4,
        "C18" | "C22" => 2,
        _ => 1,
    }
}

/// A sub-check: `cases` generated cases (total over all shards; times `mult` in the thorough tier).
pub fn sub<C, S, G, F>(
    name: &'static str,
    cases: u32,
    mult: u32,
    shards: u32,
    strat: G,
    f: F,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C>,
    G: Fn() -> S + Send + Sync + 'static,
    F: Fn(&C, &mut Ctx) -> R + Send + Sync + 'static,
{
    scaled(name, cases, mult, shards, true, strat, f)
}
/// Like `sub`, of cases that take seconds: their number is not scaled.
pub fn few<C, S, G, F>(
    name: &'static str,
    cases: u32,
    mult: u32,
    shards: u32,
    strat: G,
    f: F,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C>,
    G: Fn() -> S + Send + Sync + 'static,
    F: Fn(&C, &mut Ctx) -> R + Send + Sync + 'static,
{
    scaled(name, cases, mult, shards, false, strat, f)
}
fn scaled<C, S, G, F>(
    name: &'static str,
    cases: u32,
    mult: u32,
    shards: u32,
    scaling: bool,
    strat: G,
    f: F,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C>,
    G: Fn() -> S + Send + Sync + 'static,
    F: Fn(&C, &mut Ctx) -> R + Send + Sync + 'static,
{
    let f: std::sync::Arc<dyn Fn(&C, &mut Ctx) -> R + Send + Sync> = std::sync::Arc::new(f);
    let f2 = f.clone();
    let strat = std::sync::Arc::new(strat);
    Sub {
        name,
        run: Box::new(move |id, seed, tier| {
            let cases = if scaling { cases.saturating_mul(scale(id)) } else { cases };
            let total = match tier {
                Tier::Quick => cases,
                Tier::Thorough => cases.saturating_mul(mult),
            };
            let per = total.div_ceil(shards).max(1);
            let mut reports: Vec<Report> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..shards)
                    .map(|shard| {
                        let f = f.clone();
                        let strat = strat.clone();
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || {
                                run_shard(id, name, seed, shard, per, &*strat, &*f)
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(_) => Report {
                            failure: Some((format!("{HARNESS}shard thread died"), "null".into())),
                            ..Default::default()
                        },
                    })
                    .collect()
            });
            let mut total = Report::default();
            for r in reports.drain(..) {
                total.merge(r);
            }
            total
        }),
        replay: Box::new(move |json| {
            let case: C = serde_json::from_str(json)
                .map_err(|e| format!("{HARNESS}cannot read the replay case: {e}"))?;
            run_case(&*f2, &case, &mut Ctx::default())
        }),
    }
}

/// Seconds after which a single case (normally milliseconds) counts as not returning.
pub const CASE_LIMIT_S: u64 = 60;
/// Exit code of a run in which a case did not return.
pub const HANG: i32 = 77;

static STARTED: Mutex<Vec<Arc<AtomicU64>>> = Mutex::new(Vec::new());

fn now_s() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_secs() + 1
}

/// Whether some case has been running for longer than the limit.
pub fn some_case_hangs() -> bool {
    let now = now_s();
    let started = STARTED.lock().unwrap_or_else(|e| e.into_inner());
    started.iter().any(|s| {
        let s = s.load(Ordering::Relaxed);
        s != 0 && s + CASE_LIMIT_S < now
    })
}

/// The case a shard is running: when it started and, in a careful run, its content in a file.
struct InFlight {
    started: Arc<AtomicU64>,
    file: Option<std::path::PathBuf>,
    name: String,
}

impl InFlight {
    fn new(name: &str, shard: u32) -> Self {
        let started = Arc::new(AtomicU64::new(0));
        STARTED.lock().unwrap_or_else(|e| e.into_inner()).push(started.clone());
        let file = std::env::var("PV_CAREFUL")
            .ok()
            .map(|d| std::path::Path::new(&d).join(format!("{name}-{shard}.json")));
        InFlight { started, file, name: name.to_string() }
    }
    fn begin<C: Serialize>(&self, case: &C) {
        if let Some(f) = &self.file {
            let v = serde_json::json!({"sub": self.name, "message": "did not return, or ended the process", "case": case});
            let _ = std::fs::write(f, v.to_string());
        }
        self.started.store(now_s(), Ordering::Relaxed);
    }
    fn end(&self) {
        self.started.store(0, Ordering::Relaxed);
        if let Some(f) = &self.file {
            let _ = std::fs::remove_file(f);
        }
    }
}

fn run_shard<C, S>(
    id: &str,
    name: &str,
    seed: u64,
    shard: u32,
    cases: u32,
    strat: &dyn Fn() -> S,
    f: &(dyn Fn(&C, &mut Ctx) -> R + Send + Sync),
) -> Report
where
    C: Serialize + Debug + Clone,
    S: Strategy<Value = C>,
{
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_global_rejects: cases.saturating_mul(4).max(1000),
        max_local_rejects: 1_000_000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let flight = InFlight::new(name, shard);
    let rep = RefCell::new(Report::default());
    let failing = RefCell::new(false);
    let harness_err: RefCell<Option<String>> = RefCell::new(None);
    let res = runner.run(&strat(), |case| {
        let mut ctx = Ctx::default();
        flight.begin(&case);
        let r = run_case(f, &case, &mut ctx);
        flight.end();
        if !*failing.borrow() {
            let mut rep = rep.borrow_mut();
            rep.evaluations += 1;
            for (k, v) in ctx.classes {
                *rep.classes.entry(k).or_insert(0) += v;
            }
            // beyond some millions (thorough tier) the count is a lower bound
            if ctx.nontrivial && rep.nontrivial.len() < 4_000_000 {
                if let Ok(js) = serde_json::to_string(&case) {
                    let fresh = rep.nontrivial.insert(fnv(js.as_bytes()));
                    if fresh && rep.samples.is_empty() {
                        let v = if js.len() > 3000 {
                            serde_json::Value::String(format!("{}...", safe_prefix(&js, 3000)))
                        } else {
                            serde_json::from_str(&js).unwrap_or(serde_json::Value::Null)
                        };
                        rep.samples.push(v);
                    }
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(e) => {
                *failing.borrow_mut() = true;
                if e.contains(HARNESS) && harness_err.borrow().is_none() {
                    *harness_err.borrow_mut() = Some(e.clone());
                }
                Err(TestCaseError::fail(e))
            }
        }
    });
    let mut rep = rep.into_inner();
    match res {
        Ok(()) => {}
        Err(TestError::Fail(reason, value)) => {
            let js = serde_json::to_string_pretty(&value).unwrap_or_else(|_| "null".into());
            // The message of the shrunk case, as re-executed.
            let msg = match run_case(f, &value, &mut Ctx::default()) {
                Err(e) => e,
                Ok(()) => format!("{} (not reproduced when re-executed)", reason.message()),
            };
            rep.failure = Some((msg, js));
        }
        Err(TestError::Abort(reason)) => {
            rep.failure = Some((
                format!("{HARNESS}generation aborted: {}", reason.message()),
                "null".into(),
            ));
        }
    }
    if let Some(e) = harness_err.into_inner() {
        rep.failure = Some((e, "null".into()));
    }
    rep
}

pub fn safe_prefix(s: &str, n: usize) -> &str {
    let mut i = n.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    &s[..i]
}
