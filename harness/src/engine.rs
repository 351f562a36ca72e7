//! Runs properties: generates cases, evaluates them against the code under test, shrinks failures
//! to a replay file and records what was covered.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluation reports about itself.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
}

impl Cx {
    pub fn hit(&mut self, label: &'static str) {
        *self.labels.entry(label).or_default() += 1;
    }
    pub fn add(&mut self, label: &'static str, n: u64) {
        if n > 0 {
            *self.labels.entry(label).or_default() += n;
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub trait Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync + 'static> Case for T {}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
    pub exhaustive: bool,
}

pub struct RunCfg {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
}

pub trait Family: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, cfg: &RunCfg) -> Outcome;
    fn replay(&self, case: Value) -> Result<Verdict, String>;
}

// ---------------------------------------------------------------- hang detection

/// How long a single case may run. Counted in the watchdog's own ticks, so that time in which
/// the whole process does not run does not count.
const TICK: Duration = Duration::from_millis(500);
const CASE_TICKS: u32 = 180;
const HANG: &str = "did not terminate within 90 s";

struct Slot {
    /// Of the cases begun in this process.
    number: u64,
    family: &'static str,
    /// Changes whenever the slot goes on to another case by itself.
    progress: Arc<AtomicU64>,
    to_json: Box<dyn Fn() -> Value + Send>,
}

static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());
static STARTED: AtomicU64 = AtomicU64::new(0);

/// After a crash the run is repeated with `VERIF_TRACE` naming a file that always holds the case
/// being evaluated, in the form of a replay.
fn trace(prop: &str, family: &str, seed: u64, case: &Value) {
    if let Some(p) = std::env::var_os("VERIF_TRACE") {
        let message = "crashed the process";
        let v = json!({"property": prop, "family": family, "seed": seed, "message": message, "case": case});
        let _ = std::fs::write(p, v.to_string());
    }
}

fn tracing() -> bool {
    std::env::var_os("VERIF_TRACE").is_some()
}

fn with_slot<R>(
    i: usize,
    family: &'static str,
    progress: Arc<AtomicU64>,
    to_json: Box<dyn Fn() -> Value + Send>,
    f: impl FnOnce() -> R,
) -> R {
    {
        let mut s = SLOTS.lock().unwrap();
        while s.len() <= i {
            s.push(None);
        }
        let number = STARTED.fetch_add(1, Ordering::Relaxed);
        s[i] = Some(Slot { number, family, progress, to_json });
    }
    let t = Instant::now();
    let r = f();
    SLOWEST.fetch_max(t.elapsed().as_millis() as u64, Ordering::Relaxed);
    SLOTS.lock().unwrap()[i] = None;
    r
}

/// The longest case (or block of enumerated cases) of the family, in milliseconds.
static SLOWEST: AtomicU64 = AtomicU64::new(0);

/// Look for a case that does not come back; called once per tick.
fn find_hang(seen: &mut Vec<(u64, u64, u32)>) -> Option<(&'static str, Value)> {
    let s = SLOTS.lock().unwrap();
    seen.resize(s.len(), (u64::MAX, 0, 0));
    for (slot, seen) in s.iter().zip(seen) {
        let Some(slot) = slot else { continue };
        let now = (slot.number, slot.progress.load(Ordering::Relaxed));
        if (seen.0, seen.1) == now {
            seen.2 += 1;
        } else {
            *seen = (now.0, now.1, 0);
        }
        if seen.2 > CASE_TICKS {
            return Some((slot.family, (slot.to_json)()));
        }
    }
    None
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run `f`, turning a panic into a failed verdict.
pub fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
            Err(format!("panicked: {}", if m.is_empty() { payload(&*p) } else { m }))
        }
    }
}

/// Run `f`, returning `Err(message)` if it panics.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
        format!("{what} panicked: {}", if m.is_empty() { payload(&*p) } else { m })
    })
}

fn hash_case(v: &impl Serialize) -> u64 {
    // FNV-1a over the JSON form
    struct H(u64);
    impl std::io::Write for H {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100000001b3);
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut h = H(0xcbf29ce484222325);
    let _ = serde_json::to_writer(&mut h, v);
    h.0
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

// ---------------------------------------------------------------- generated families

pub struct Gen<C: Case> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn(Tier) -> BoxedStrategy<C>,
    pub test: fn(&C, &mut Cx) -> Verdict,
}

fn mix(seed: u64, prop: &str, fam: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    if second_pass() {
        h = !h;
    }
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        for b in prop.bytes().chain(fam.bytes()).chain(shard.to_le_bytes()).chain([i as u8]) {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

impl<C: Case> Family for Gen<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn run(&self, cfg: &RunCfg) -> Outcome {
        let total = if cfg.tier == Tier::Quick { self.quick } else { self.thorough };
        let total = if second_pass() { total.div_ceil(4) } else { total };
        let shards = cfg.threads.min(total.max(1) as usize);
        let stop = AtomicBool::new(false);
        let results: Vec<(Stats, Option<(usize, Value, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..shards)
                .map(|shard| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || self.shard(cfg, shard, shards, total, stop))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut o = Outcome {
            evaluations: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            failure: None,
            exhaustive: false,
        };
        let mut distinct = HashSet::new();
        for (s, f) in results {
            o.evaluations += s.evaluations;
            distinct.extend(s.distinct);
            for (k, v) in s.labels {
                *o.labels.entry(k).or_default() += v;
            }
            if o.samples.len() < 2 {
                o.samples.extend(s.samples.into_iter().take(1));
            }
            if o.failure.is_none() {
                if let Some((_, c, m)) = f {
                    o.failure = Some((c, m));
                }
            }
        }
        o.distinct = distinct.len() as u64;
        o
    }

    fn replay(&self, case: Value) -> Result<Verdict, String> {
        let c: C = serde_json::from_value(case).map_err(|e| e.to_string())?;
        let mut cx = Cx::default();
        let c2 = c.clone();
        Ok(with_slot(
            0,
            self.name,
            Arc::default(),
            Box::new(move || serde_json::to_value(&c2).unwrap_or(Value::Null)),
            || guarded(|| (self.test)(&c, &mut cx)),
        ))
    }
}

impl<C: Case> Gen<C> {
    fn shard(
        &self,
        cfg: &RunCfg,
        shard: usize,
        shards: usize,
        total: u32,
        stop: &AtomicBool,
    ) -> (Stats, Option<(usize, Value, String)>) {
        let n = total / shards as u32 + u32::from((total as usize % shards) > shard);
        let stats = RefCell::new(Stats::default());
        let failed = RefCell::new(false);
        let config = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 30_000,
            max_shrink_time: 25_000,
            max_global_rejects: 1 << 20,
            max_local_rejects: 1 << 20,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(cfg.seed, cfg.prop, self.name, shard as u64));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strat = (self.strat)(cfg.tier);
        let traced = tracing();
        let r = runner.run(&strat, |case| {
            if stop.load(Ordering::Relaxed) && !*failed.borrow() {
                // Another shard has a counterexample; finish quickly.
                return Ok(());
            }
            let mut cx = Cx::default();
            let shared = case.clone();
            if traced {
                trace(cfg.prop, self.name, cfg.seed, &serde_json::to_value(&case).unwrap_or(Value::Null));
            }
            let v = with_slot(
                shard,
                self.name,
                Arc::default(),
                Box::new(move || serde_json::to_value(&shared).unwrap_or(Value::Null)),
                || guarded(|| (self.test)(&case, &mut cx)),
            );
            if !*failed.borrow() {
                let mut s = stats.borrow_mut();
                s.evaluations += 1;
                for (k, v) in cx.labels {
                    *s.labels.entry(k).or_default() += v;
                }
                if cx.nontrivial {
                    s.distinct.insert(hash_case(&case));
                    if s.samples.is_empty() {
                        s.samples.push(trim(serde_json::to_value(&case).unwrap_or(Value::Null)));
                    }
                }
            }
            match v {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed.borrow_mut() = true;
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let failure = match r {
            Ok(()) => None,
            Err(TestError::Fail(reason, case)) => Some((
                shard,
                serde_json::to_value(&case).unwrap_or(Value::Null),
                reason.message().to_string(),
            )),
            Err(TestError::Abort(reason)) => {
                eprintln!("internal: generation aborted in {}: {}", self.name, reason.message());
                std::process::exit(3);
            }
        };
        (stats.into_inner(), failure)
    }
}

/// Keep evidence samples readable.
fn trim(v: Value) -> Value {
    match v {
        Value::Array(a) if a.len() > 24 => {
            let n = a.len();
            let mut t: Vec<Value> = a.into_iter().take(16).map(trim).collect();
            t.push(json!(format!("... {} more", n - 16)));
            Value::Array(t)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(trim).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, trim(v))).collect()),
        v => v,
    }
}

// ---------------------------------------------------------------- exhaustive families

/// Every index below `total(tier)` is evaluated; the case is the index.
pub struct All {
    pub name: &'static str,
    pub rule: &'static str,
    pub total: fn(Tier) -> u64,
    pub complete: fn(Tier) -> bool,
    pub test: fn(u64, &mut Cx) -> Verdict,
}

impl Family for All {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn run(&self, cfg: &RunCfg) -> Outcome {
        let total = (self.total)(cfg.tier);
        let traced = tracing();
        let next = AtomicU64::new(0);
        let best = Mutex::new(None::<(u64, String)>);
        let chunk = (total / (cfg.threads as u64 * 16)).clamp(1, 1 << 16);
        let parts: Vec<(u64, u64, BTreeMap<&'static str, u64>, Vec<Value>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..cfg.threads)
                .map(|shard| {
                    let (next, best) = (&next, &best);
                    sc.spawn(move || {
                        let (mut n, mut nt) = (0u64, 0u64);
                        let mut labels = BTreeMap::new();
                        let mut samples = vec![];
                        loop {
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= total {
                                break;
                            }
                            // stop once a smaller counterexample is known
                            if best.lock().unwrap().as_ref().is_some_and(|b| b.0 < lo) {
                                break;
                            }
                            let at = Arc::new(AtomicU64::new(lo));
                            let shown = at.clone();
                            let case = Box::new(move || json!(shown.load(Ordering::Relaxed)));
                            let r = with_slot(shard, self.name, at.clone(), case, || {
                                for i in lo..(lo + chunk).min(total) {
                                    at.store(i, Ordering::Relaxed);
                                    let mut cx = Cx::default();
                                    if traced {
                                        trace(cfg.prop, self.name, cfg.seed, &json!(i));
                                    }
                                    let v = guarded(|| (self.test)(i, &mut cx));
                                    n += 1;
                                    nt += u64::from(cx.nontrivial);
                                    if cx.nontrivial && samples.is_empty() {
                                        samples.push(json!(i));
                                    }
                                    for (k, v) in cx.labels {
                                        *labels.entry(k).or_default() += v;
                                    }
                                    if let Err(m) = v {
                                        return Some((i, m));
                                    }
                                }
                                None
                            });
                            if let Some((i, m)) = r {
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |b| i < b.0) {
                                    *b = Some((i, m));
                                }
                                break;
                            }
                        }
                        (n, nt, labels, samples)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut o = Outcome {
            evaluations: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            failure: best.into_inner().unwrap().map(|(i, m)| (json!(i), m)),
            exhaustive: (self.complete)(cfg.tier),
        };
        for (n, nt, l, s) in parts {
            o.evaluations += n;
            o.distinct += nt;
            for (k, v) in l {
                *o.labels.entry(k).or_default() += v;
            }
            if o.samples.len() < 2 {
                o.samples.extend(s);
            }
        }
        o
    }
    fn replay(&self, case: Value) -> Result<Verdict, String> {
        let i = case.as_u64().ok_or("case is not an index")?;
        let mut cx = Cx::default();
        Ok(with_slot(0, self.name, Arc::default(), Box::new(move || json!(i)), || {
            guarded(|| (self.test)(i, &mut cx))
        }))
    }
}

// ---------------------------------------------------------------- properties

pub struct Property {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Box<dyn Family>>,
}

/// The second pass over a property, with the library built as it is shipped: other cases, fewer.
fn second_pass() -> bool {
    std::env::var_os("MLX_SECOND").is_some()
}

pub const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "plain" };

fn root() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay(prop: &str, family: &str, cfg: &RunCfg, case: &Value, message: &str) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{family}-{BUILD}-seed{}.json", cfg.seed));
    let v = json!({"property": prop, "family": family, "build": BUILD, "seed": cfg.seed, "message": message, "case": case});
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()) {
        eprintln!("internal: cannot write replay {}: {e}", p.display());
    }
    p
}

fn watchdog(prop: &'static str, seed: u64, tier: Tier) {
    std::thread::spawn(move || {
        let mut seen = vec![];
        loop {
            std::thread::sleep(TICK);
            if let Some((family, case)) = find_hang(&mut seen) {
                let cfg = RunCfg { prop, tier, seed, threads: 1 };
                let p = write_replay(prop, family, &cfg, &case, HANG);
                println!("{prop}/{family}: {HANG}");
                println!("VIOLATION property={prop} replay={}", p.display());
                std::process::exit(1);
            }
        }
    });
}

pub fn check(prop: &Property, tier: Tier, seed: u64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    watchdog(prop.id, seed, tier);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let threads = if tracing() { 1 } else { cores };
    let cfg = RunCfg { prop: prop.id, tier, seed, threads };
    let mut violations = 0;
    let (mut ev, mut distinct) = (0u64, 0u64);
    let mut fams = serde_json::Map::new();
    let mut samples = vec![];
    let mut rules = vec![];
    let mut exhaustive = true;
    for f in &prop.families {
        if only.is_some_and(|o| o != f.name()) {
            continue;
        }
        let tf = Instant::now();
        let o = f.run(&cfg);
        ev += o.evaluations;
        distinct += o.distinct;
        exhaustive &= o.exhaustive;
        rules.push(format!("{}: {}", f.name(), f.rule()));
        for s in &o.samples {
            samples.push(json!({"family": f.name(), "case": s}));
        }
        fams.insert(
            f.name().to_string(),
            json!({
                "evaluations": o.evaluations,
                "distinct_nontrivial": o.distinct,
                "exhaustive": o.exhaustive,
                "labels": o.labels,
                "wall_s": tf.elapsed().as_secs_f64(),
                "slowest_case_ms": SLOWEST.swap(0, Ordering::Relaxed),
            }),
        );
        println!(
            "{}/{}{}: {} cases, {} distinct non-trivial, {:.2} s {}",
            prop.id,
            f.name(),
            if second_pass() { " (shipped build)" } else { "" },
            o.evaluations,
            o.distinct,
            tf.elapsed().as_secs_f64(),
            o.labels.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        if let Some((case, message)) = o.failure {
            violations += 1;
            let p = write_replay(prop.id, f.name(), &cfg, &case, &message);
            println!("{}/{}: {}", prop.id, f.name(), message);
            println!("VIOLATION property={} replay={}", prop.id, p.display());
        }
    }
    let mut coverage = serde_json::Map::new();
    coverage.insert("evaluations".into(), json!(ev));
    coverage.insert("distinct_nontrivial".into(), json!(distinct));
    coverage.insert("rule".into(), json!(rules.join(" | ")));
    coverage.insert("samples".into(), json!(samples));
    coverage.insert("families".into(), Value::Object(fams));
    if exhaustive {
        coverage.insert("exhaustive".into(), json!(true));
    }
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}.json", prop.id));
    let mut wall = t0.elapsed().as_secs_f64();
    if second_pass() {
        // Recorded beside what the first pass found.
        let first = std::fs::read_to_string(&file).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        wall += first.as_ref().and_then(|v| v["wall_s"].as_f64()).unwrap_or(0.0);
        if let Some(Value::Object(first)) = first.as_ref().and_then(|v| v.get("coverage")) {
            let second = std::mem::replace(&mut coverage, first.clone());
            coverage.insert("shipped_build".into(), Value::Object(second));
        }
    }
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    if let Err(e) = std::fs::write(
        file,
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("internal: cannot write evidence: {e}");
        return 3;
    }
    if violations > 0 {
        1
    } else {
        0
    }
}

pub fn replay(prop: &Property, v: &Value, path: &str) -> i32 {
    watchdog(prop.id, v["seed"].as_u64().unwrap_or(0), Tier::Quick);
    let fam = v["family"].as_str().unwrap_or_default();
    let Some(f) = prop.families.iter().find(|f| f.name() == fam) else {
        eprintln!("no family {fam} in {}", prop.id);
        return 3;
    };
    match f.replay(v["case"].clone()) {
        Err(e) => {
            eprintln!("cannot read case: {e}");
            3
        }
        Ok(Ok(())) => {
            println!("{}/{}: the recorded case passes", prop.id, fam);
            0
        }
        Ok(Err(m)) => {
            println!("{}/{}: {}", prop.id, fam, m);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}
