//! The generated-input engine: runs a property over proptest strategies (sharded over threads) or
//! over enumerated finite domains, shrinks failures, writes replay files and the evidence file.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

/// Run `f`, reporting a panic as `Err(message)`.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }),
    }
}

/// Like `quiet` but names the operation in the error.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    quiet(f).map_err(|e| format!("{what} panicked: {e}"))
}

/// What a test tells the engine about the case it ran.
#[derive(Default)]
pub struct Cx {
    nontrivial: Cell<bool>,
    labels: std::cell::RefCell<Vec<&'static str>>,
    inner: Cell<u64>,
}

impl Cx {
    pub fn nontrivial(&self) {
        self.nontrivial.set(true);
    }
    pub fn nontrivial_if(&self, c: bool) {
        if c {
            self.nontrivial.set(true)
        }
    }
    pub fn label(&self, l: &'static str) {
        let mut v = self.labels.borrow_mut();
        if !v.contains(&l) {
            v.push(l);
        }
    }
    pub fn label_if(&self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// number of individual comparisons made inside this case
    pub fn inner(&self, n: u64) {
        self.inner.set(self.inner.get() + n);
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    inner: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Stats {
    fn record(&mut self, check: &str, text: &str, cx: &Cx) {
        self.evaluations += 1;
        self.inner += cx.inner.get();
        if cx.nontrivial.get() {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            check.hash(&mut h);
            text.hash(&mut h);
            let fresh = self.nontrivial.insert(h.finish());
            if fresh && self.samples.len() < 2 {
                if let Ok(v) = serde_json::from_str::<Value>(text) {
                    self.samples.push(json!({"check": check, "case": v}));
                }
            }
        }
        for l in cx.labels.borrow().iter() {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.inner += o.inner;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

// --------------------------------------------------------------------------------------------
// watchdog: a case that never ends, or that eats the memory, is a violation too

struct Slot {
    busy: bool,
    since: u64,
    check: String,
    text: String,
}
static SLOTS: OnceLock<Vec<Mutex<Slot>>> = OnceLock::new();
static NEXT: AtomicU32 = AtomicU32::new(0);
/// ticks of the watchdog: unlike a clock they stand still while the process is not running
static TICKS: AtomicU64 = AtomicU64::new(0);
const TICKS_PER_S: u64 = 10;
static PROP: OnceLock<(String, PathBuf)> = OnceLock::new();
const NSLOTS: usize = 64;
/// seconds a single case may take (a normal one takes micro- to milliseconds)
const CASE_LIMIT: u64 = 60;
const RSS_LIMIT_KB: u64 = 10_000_000;

fn slots() -> &'static Vec<Mutex<Slot>> {
    SLOTS.get_or_init(|| {
        (0..NSLOTS)
            .map(|_| Mutex::new(Slot { busy: false, since: 0, check: String::new(), text: String::new() }))
            .collect()
    })
}

thread_local! { static MY: usize = NEXT.fetch_add(1, Ordering::Relaxed) as usize % NSLOTS; }

fn enter(check: &str, text: &str) {
    MY.with(|i| {
        let mut s = slots()[*i].lock().unwrap();
        s.busy = true;
        s.since = TICKS.load(Ordering::Relaxed);
        s.check.clear();
        s.check.push_str(check);
        s.text.clear();
        s.text.push_str(text);
    })
}
fn leave() {
    MY.with(|i| slots()[*i].lock().unwrap().busy = false)
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4)
        .unwrap_or(0)
}

fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(1000 / TICKS_PER_S));
        let now = TICKS.fetch_add(1, Ordering::Relaxed) + 1;
        let over = rss_kb() > RSS_LIMIT_KB;
        let mut worst: Option<(u64, String, String)> = None;
        for s in slots() {
            let s = s.lock().unwrap();
            if s.busy {
                let t = now.saturating_sub(s.since) / TICKS_PER_S;
                if worst.as_ref().map_or(true, |w| t > w.0) {
                    worst = Some((t, s.check.clone(), s.text.clone()));
                }
            }
        }
        if let Some((t, check, text)) = worst {
            if over || t > CASE_LIMIT {
                let why = if over { "a case exhausted the memory limit" } else { "a case did not terminate" };
                let (prop, dir) = PROP.get().unwrap();
                let path = write_replay(dir, prop, &check, &text, why);
                println!("[{prop}/{check}] {why}: {text}");
                println!("VIOLATION property={prop} replay={}", path.display());
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
        }
    });
}

fn write_replay(dir: &PathBuf, prop: &str, check: &str, case: &str, msg: &str) -> PathBuf {
    let d = dir.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{prop}-{check}.json"));
    let case: Value = serde_json::from_str(case).unwrap_or(Value::Null);
    let v = json!({"property": prop, "check": check, "case": case, "message": msg,
        "how": format!("bash /verif/check.sh {prop} --replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

// --------------------------------------------------------------------------------------------

pub struct Session {
    pub prop: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    replay: Option<(String, Value)>,
    start: Instant,
    stats: Stats,
    per_check: BTreeMap<String, Value>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    violations: u64,
    exhaustive: bool,
    sampled: bool,
    rng_salt: u64,
    known: Vec<String>,
    known_hit: HashSet<String>,
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn rng_for(seed: u64, salt: u64, shard: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&salt.to_le_bytes());
    bytes[16..24].copy_from_slice(&shard.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn one<T: Serialize>(check: &str, v: &T, f: &(dyn Fn(&T, &Cx) -> Res + Sync), cx: &Cx) -> (String, Res) {
    let text = serde_json::to_string(v).unwrap_or_else(|_| "null".into());
    enter(check, &text);
    let r = match quiet(|| f(v, cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    leave();
    (text, r)
}

impl Session {
    pub fn new(prop: &'static str, thorough: bool, seed: u64, root: PathBuf, replay: Option<(String, Value)>) -> Self {
        let _ = PROP.set((prop.to_string(), root.clone()));
        slots();
        start_watchdog();
        std::panic::set_hook(Box::new(|_| {}));
        let known = std::fs::read_to_string(root.join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter(|l| l.starts_with("KNOWN ") && l.contains(&format!("property={prop} ")))
            .map(|l| l.to_string())
            .collect();
        Session {
            prop,
            thorough,
            seed,
            root,
            replay,
            start: Instant::now(),
            stats: Stats::default(),
            per_check: BTreeMap::new(),
            rules: vec![],
            assumptions: vec![],
            violations: 0,
            exhaustive: false,
            sampled: false,
            rng_salt: 0,
            known,
            known_hit: HashSet::new(),
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }
    pub fn assume(&mut self, r: &str) {
        self.assumptions.push(r.to_string());
    }

    fn wanted(&self, name: &str) -> bool {
        self.replay.as_ref().map_or(true, |(c, _)| c == name)
    }

    fn fail(&mut self, name: &str, text: &str, msg: &str) {
        // a listed finding is identified by the check and the exact minimal case
        for k in &self.known {
            if k.contains(&format!(" check={name} ")) && k.ends_with(&format!("case={text}")) {
                if self.known_hit.insert(k.clone()) {
                    println!("KNOWN-FINDING: property={} check={name} case={text}: {msg}", self.prop);
                }
                return;
            }
        }
        self.violations += 1;
        let path = write_replay(&self.root, self.prop, name, text, msg);
        println!("[{}/{}] {}\n    minimal case: {}", self.prop, name, msg, text);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        let _ = std::io::stdout().flush();
    }

    fn replay_one<T: DeserializeOwned + Serialize>(&mut self, name: &str, f: &(dyn Fn(&T, &Cx) -> Res + Sync)) {
        let (_, v) = self.replay.clone().unwrap();
        let case: T = match serde_json::from_value(v) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("replay file does not fit check {name}: {e}");
                std::process::exit(2);
            }
        };
        let cx = Cx::default();
        let (text, r) = one(name, &case, f, &cx);
        self.stats.record(name, &text, &cx);
        match r {
            Ok(()) => println!("[{}/{name}] replayed case passes", self.prop),
            Err(m) => self.fail(name, &text, &m),
        }
    }

    fn finish_check(&mut self, name: &str, st: Stats, kind: &str) {
        let nt = st.nontrivial.len();
        self.per_check.insert(
            name.to_string(),
            json!({"kind": kind, "evaluations": st.evaluations, "distinct_nontrivial": nt,
                   "comparisons": st.inner, "labels": st.labels}),
        );
        let mut st = st;
        let keep: Vec<Value> = st.samples.drain(..).take(2).collect();
        let labels = std::mem::take(&mut st.labels);
        self.stats.merge(st);
        self.stats.samples.extend(keep);
        for (k, v) in labels {
            *self.stats.labels.entry(k).or_insert(0) += v;
        }
    }

    /// Random generation with shrinking. `mk` builds the strategy (once per shard).
    pub fn check<S, T>(
        &mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        mk: impl Fn() -> S + Sync,
        f: impl Fn(&T, &Cx) -> Res + Sync,
    ) where
        S: Strategy<Value = T>,
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send,
    {
        if !self.wanted(name) {
            return;
        }
        if self.replay.is_some() {
            return self.replay_one(name, &f);
        }
        self.sampled = true;
        // counts are stated in units of a sixteenth of a quick run and a tenth of a thorough one
        let total = if self.thorough { thorough * 10 } else { quick * 16 };
        let shards: u32 = 8.min(total.max(1));
        self.rng_salt = fnv(name) ^ fnv(self.prop);
        let (seed, salt) = (self.seed, self.rng_salt);
        let stop = AtomicU64::new(u64::MAX);
        let fr: &(dyn Fn(&T, &Cx) -> Res + Sync) = &f;
        let mkr = &mk;
        let stopr = &stop;
        let results: Vec<(Stats, Option<(T, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..shards)
                .map(|sh| {
                    let n = total / shards + u32::from(sh < total % shards);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let strat = mkr();
                            let mut runner = TestRunner::new_with_rng(
                                Config { failure_persistence: None, ..Config::default() },
                                rng_for(seed, salt, sh as u64),
                            );
                            let mut st = Stats::default();
                            for _ in 0..n {
                                if stopr.load(Ordering::Relaxed) < sh as u64 {
                                    break;
                                }
                                let mut tree = match strat.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(_) => continue,
                                };
                                let v = tree.current();
                                let cx = Cx::default();
                                let (text, r) = one(name, &v, fr, &cx);
                                st.record(name, &text, &cx);
                                if let Err(m) = r {
                                    stopr.fetch_min(sh as u64, Ordering::Relaxed);
                                    // shrink
                                    let mut best = (v, m);
                                    let t0 = Instant::now();
                                    let mut it = 0;
                                    if tree.simplify() {
                                        loop {
                                            it += 1;
                                            if it > 20_000 || t0.elapsed().as_secs() > 20 {
                                                break;
                                            }
                                            let c = tree.current();
                                            let (_, r) = one(name, &c, fr, &Cx::default());
                                            match r {
                                                Err(m) => {
                                                    best = (c, m);
                                                    if !tree.simplify() {
                                                        break;
                                                    }
                                                }
                                                Ok(()) => {
                                                    if !tree.complicate() {
                                                        break;
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    return (st, Some(best));
                                }
                            }
                            (st, None)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("engine thread")).collect()
        });
        let mut all = Stats::default();
        let mut bad = None;
        for (st, b) in results {
            all.merge(st);
            if bad.is_none() {
                bad = b;
            }
        }
        self.finish_check(name, all, "generated");
        if let Some((v, m)) = bad {
            let text = serde_json::to_string(&v).unwrap();
            self.fail(name, &text, &m);
        }
    }

    /// Every element of a finite domain. The first failing element (in order) is reported.
    pub fn exhaust<T>(&mut self, name: &str, items: Vec<T>, f: impl Fn(&T, &Cx) -> Res + Sync)
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Send + Sync,
    {
        if !self.wanted(name) {
            return;
        }
        if self.replay.is_some() {
            return self.replay_one(name, &f);
        }
        self.exhaustive = true;
        let next = AtomicU64::new(0);
        let bound = AtomicU64::new(u64::MAX);
        let fr: &(dyn Fn(&T, &Cx) -> Res + Sync) = &f;
        let (nr, br, ir) = (&next, &bound, &items);
        let results: Vec<(Stats, Option<(u64, String)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut st = Stats::default();
                            let mut bad = None;
                            loop {
                                let i = nr.fetch_add(1, Ordering::Relaxed);
                                if i as usize >= ir.len() || i > br.load(Ordering::Relaxed) {
                                    return (st, bad);
                                }
                                let cx = Cx::default();
                                let (text, r) = one(name, &ir[i as usize], fr, &cx);
                                st.record(name, &text, &cx);
                                if let Err(m) = r {
                                    br.fetch_min(i, Ordering::Relaxed);
                                    if bad.is_none() {
                                        bad = Some((i, m));
                                    }
                                }
                            }
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("engine thread")).collect()
        });
        let mut all = Stats::default();
        let mut bad: Option<(u64, String)> = None;
        for (st, b) in results {
            all.merge(st);
            if let Some(b) = b {
                if bad.as_ref().map_or(true, |x| b.0 < x.0) {
                    bad = Some(b);
                }
            }
        }
        self.finish_check(name, all, "enumerated");
        if let Some((i, m)) = bad {
            let text = serde_json::to_string(&items[i as usize]).unwrap();
            self.fail(name, &text, &m);
        }
    }

    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            return i32::from(self.violations > 0);
        }
        let mut samples = self.stats.samples.clone();
        samples.truncate(12);
        let tier = if self.thorough { "thorough" } else { "quick" };
        let ev = json!({
            "property": self.prop,
            "tier": tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.stats.evaluations,
                "distinct_nontrivial": self.stats.nontrivial.len(),
                "comparisons": self.stats.inner,
                "rule": self.rules.join(" "),
                "samples": samples,
                "labels": self.stats.labels,
                "checks": self.per_check,
                "exhaustive": self.exhaustive && !self.sampled,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let d = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write {}: {e}", p.display());
            return 2;
        }
        println!(
            "[{}] {} tier, seed {}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            tier,
            self.seed,
            self.stats.evaluations,
            self.stats.nontrivial.len(),
            self.violations,
            self.start.elapsed().as_secs_f64()
        );
        i32::from(self.violations > 0)
    }
}
