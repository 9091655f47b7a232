//! The search engine: sharded proptest runs, exhaustive sweeps, replay,
//! evidence. Everything is a pure function of the code under test and
//! VERIF_SEED; work is bounded by case counts, never by time.

use crate::codec::{mix, Codec};
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

/// How one case was decided: `Ok(label)` held ("" = trivial by the stated
/// rule, anything else = a class of non-trivial cases), `Err` = violated.
pub type Outcome = Result<&'static str, String>;

pub const SHARDS: usize = 8;

pub enum Mode {
    Search,
    Replay { sub: String, value: String, hit: AtomicBool },
}

#[derive(Clone)]
pub struct Failure {
    pub sub: String,
    pub value: String,
    pub debug: String,
    pub message: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub mode: Mode,
    pub evals: AtomicU64,
    pub sweep_distinct: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub classes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub failure: Mutex<Option<Failure>>,
    pub known: Mutex<Vec<String>>,
    pub subs: Mutex<Vec<String>>,
    pub exhaustive: Mutex<Vec<String>>,
    pub started: Instant,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

// ------------------------------------------------------------ stuck cases

/// The case a thread is working on, so that a case that never ends can be
/// reported with its input.
struct Slot {
    since: AtomicU64,
    value: AtomicUsize,
    encode: AtomicUsize,
    sub: Mutex<String>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot { since: AtomicU64::new(0), value: AtomicUsize::new(0), encode: AtomicUsize::new(0), sub: Mutex::new(String::new()) });
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
fn now_ms() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
fn enc<V: Codec>(p: usize) -> String {
    // Only called while the owning thread is inside the case: the value is
    // borrowed there and does not change.
    unsafe { &*(p as *const V) }.encode()
}
fn run_case<V: Codec>(v: &V, test: &impl Fn(&V) -> Outcome) -> Outcome {
    SLOT.with(|s| {
        s.value.store(v as *const V as usize, Ordering::Relaxed);
        s.encode.store(enc::<V> as fn(usize) -> String as usize, Ordering::Relaxed);
        s.since.store(now_ms(), Ordering::Release);
        let r = guarded(|| test(v)).and_then(|r| r);
        s.since.store(0, Ordering::Release);
        r
    })
}
fn enter(sub: &str) {
    SLOT.with(|s| *s.sub.lock().unwrap() = sub.to_string());
}
/// Calls `report(sub, value)` when one case has been running for `limit_s`.
pub fn watch(limit_s: u64, report: impl Fn(String, String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
        for s in slots {
            let since = s.since.load(Ordering::Acquire);
            if since != 0 && now_ms() > since + limit_s * 1000 {
                let f: fn(usize) -> String = unsafe { std::mem::transmute(s.encode.load(Ordering::Relaxed)) };
                let value = f(s.value.load(Ordering::Relaxed));
                let sub = s.sub.lock().unwrap().clone();
                report(sub, value);
            }
        }
    });
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for w in 0..4 {
        let mut h = 0xcbf29ce484222325u64 ^ (w as u64).wrapping_mul(0x9e3779b97f4a7c15);
        for p in parts {
            h = mix(h, *p);
            h ^= h >> 29;
        }
        out[w * 8..w * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn str_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h, b as u64))
}

#[derive(Default)]
struct Local {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

/// Factor on the quick case counts: about half a minute of search each.
fn weight(id: &str) -> f64 {
    match id {
        "C06" | "C09" | "C11" | "C12" | "C13" | "C14" | "C19" => 15.0,
        "C03" | "C07" | "C31" => 10.0,
        "C02" | "C29" => 8.0,
        "C04" | "C24" | "C27" => 6.0,
        "C05" | "C08" | "C10" | "C28" => 5.0,
        "C25" | "C33" => 4.0,
        "C01" | "C15" | "C16" | "C20" | "C21" | "C26" => 3.0,
        "C17" | "C22" | "C23" | "C30" => 2.5,
        _ => 1.5,
    }
}

impl Ctx {
    pub fn new(id: &'static str, seed: u64, thorough: bool, mode: Mode) -> Self {
        Ctx {
            id,
            seed,
            thorough,
            mode,
            evals: AtomicU64::new(0),
            sweep_distinct: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            classes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            failure: Mutex::new(None),
            known: Mutex::new(Vec::new()),
            subs: Mutex::new(Vec::new()),
            exhaustive: Mutex::new(Vec::new()),
            started: Instant::now(),
        }
    }

    pub fn failed(&self) -> bool {
        self.failure.lock().unwrap().is_some()
    }

    /// Case count for the current tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let quick = (quick as f64 * weight(self.id)) as u64;
        if self.thorough {
            thorough.max(4 * quick)
        } else {
            quick
        }
    }

    fn replaying(&self, sub: &str) -> Option<Option<String>> {
        match &self.mode {
            Mode::Search => None,
            Mode::Replay { sub: s, value, hit } => {
                if s == sub {
                    hit.store(true, Ordering::SeqCst);
                    Some(Some(value.clone()))
                } else {
                    Some(None)
                }
            }
        }
    }

    fn replay_one<V: Codec + std::fmt::Debug>(&self, sub: &str, text: &str, test: &impl Fn(&V) -> Outcome) {
        let v = match V::decode(text) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("cannot decode replay value: {e}");
                std::process::exit(2);
            }
        };
        self.evals.fetch_add(1, Ordering::Relaxed);
        enter(sub);
        if let Err(message) = run_case(&v, &test) {
            *self.failure.lock().unwrap() = Some(Failure {
                sub: sub.into(),
                value: v.encode(),
                debug: format!("{:?}", v),
                message,
            });
        }
    }

    fn merge(&self, sub: &str, l: Local) {
        self.evals.fetch_add(l.evals, Ordering::Relaxed);
        self.distinct.lock().unwrap().extend(l.distinct);
        let mut c = self.classes.lock().unwrap();
        for (k, v) in l.classes {
            let k = if k.is_empty() { "trivial" } else { k };
            *c.entry(format!("{sub}/{k}")).or_default() += v;
        }
        let mut s = self.samples.lock().unwrap();
        let have = s.iter().filter(|x| x.starts_with(&format!("{sub}: "))).count();
        for x in l.samples.into_iter().take(2usize.saturating_sub(have)) {
            s.push(format!("{sub}: {x}"));
        }
    }

    fn note<V: Codec>(l: &mut Local, sub_hash: u64, v: &V, label: &'static str) {
        l.evals += 1;
        *l.classes.entry(label).or_default() += 1;
        if !label.is_empty() {
            if l.distinct.len() < 4_000_000 {
                l.distinct.insert(v.dig(sub_hash));
            }
            if l.samples.len() < 2 {
                let e = v.encode();
                let e = if e.len() > 300 {
                    format!("{}... ({} chars)", e.chars().take(300).collect::<String>(), e.len())
                } else {
                    e
                };
                l.samples.push(format!("{e} [{label}]"));
            }
        }
    }

    /// Fixed cases (boundary and regression inputs), run before the search.
    pub fn pinned<V: Codec + std::fmt::Debug>(&self, sub: &str, cases: Vec<V>, test: impl Fn(&V) -> Outcome) {
        if self.failed() {
            return;
        }
        match self.replaying(sub) {
            Some(None) => return,
            Some(Some(t)) => return self.replay_one(sub, &t, &test),
            None => {}
        }
        self.subs.lock().unwrap().push(format!("{sub} ({} pinned)", cases.len()));
        let mut l = Local::default();
        enter(sub);
        let h = str_hash(sub);
        for v in cases {
            match run_case(&v, &test) {
                Ok(label) => Self::note(&mut l, h, &v, label),
                Err(message) => {
                    *self.failure.lock().unwrap() = Some(Failure {
                        sub: sub.into(),
                        value: v.encode(),
                        debug: format!("{:?}", v),
                        message,
                    });
                    break;
                }
            }
        }
        self.merge(sub, l);
    }

    /// Random search with shrinking: `total` cases split over SHARDS
    /// independent, deterministically seeded proptest runners.
    pub fn search<S, F>(&self, sub: &str, total: u64, strat: impl Fn() -> S + Sync, test: F)
    where
        S: Strategy,
        S::Value: Codec + std::fmt::Debug,
        F: Fn(&S::Value) -> Outcome + Sync,
    {
        if self.failed() {
            return;
        }
        match self.replaying(sub) {
            Some(None) => return,
            Some(Some(t)) => return self.replay_one(sub, &t, &test),
            None => {}
        }
        self.subs.lock().unwrap().push(format!("{sub} ({total} generated)"));
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, Failure)>> = Mutex::new(Vec::new());
        let h = str_hash(sub);
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (stop, found, strat, test) = (&stop, &found, &strat, &test);
                let n = total / SHARDS as u64 + u64::from((total % SHARDS as u64) > shard as u64);
                if n == 0 {
                    continue;
                }
                sc.spawn(move || {
                    enter(sub);
                    let seed = seed_bytes(&[self.seed, str_hash(self.id), h, shard as u64]);
                    let mut runner = TestRunner::new_with_rng(
                        Config {
                            cases: n as u32,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            max_shrink_time: 60_000,
                            max_global_rejects: 1_000_000,
                            ..Config::default()
                        },
                        TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                    );
                    let local = RefCell::new(Local::default());
                    let mine = AtomicBool::new(false);
                    let res = runner.run(&strat(), |v| {
                        if stop.load(Ordering::Relaxed) && !mine.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        match run_case(&v, &test) {
                            Ok(label) => {
                                if !mine.load(Ordering::Relaxed) {
                                    Self::note(&mut local.borrow_mut(), h, &v, label);
                                }
                                Ok(())
                            }
                            Err(m) => {
                                mine.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, v)) => {
                            let message = match run_case(&v, &test) {
                                Err(m) => m,
                                Ok(_) => format!("{} (not reproduced on the second run)", reason.message()),
                            };
                            found.lock().unwrap().push((
                                shard,
                                Failure { sub: sub.into(), value: v.encode(), debug: format!("{:?}", v), message },
                            ));
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("generator aborted in {sub}: {r}");
                            std::process::exit(2);
                        }
                    }
                    self.merge(sub, local.into_inner());
                });
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.0);
        if let Some((_, f)) = found.into_iter().next() {
            *self.failure.lock().unwrap() = Some(f);
        }
    }

    /// Exhaustive enumeration of 0..n.
    pub fn sweep(&self, sub: &str, n: u64, test: impl Fn(&u64) -> Outcome + Sync) {
        if self.failed() {
            return;
        }
        match self.replaying(sub) {
            Some(None) => return,
            Some(Some(t)) => return self.replay_one(sub, &t, &test),
            None => {}
        }
        self.subs.lock().unwrap().push(format!("{sub} ({n} enumerated)"));
        self.exhaustive.lock().unwrap().push(sub.to_string());
        let next = AtomicU64::new(0);
        let lowest = AtomicU64::new(u64::MAX);
        let chunk = (n / 512).clamp(1, 65536);
        std::thread::scope(|sc| {
            for _ in 0..SHARDS {
                let (next, lowest, test) = (&next, &lowest, &test);
                sc.spawn(move || {
                    enter(sub);
                    let mut l = Local::default();
                    let mut nontriv = 0;
                    loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || a > lowest.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            match run_case(&i, &test) {
                                Ok(label) => {
                                    l.evals += 1;
                                    *l.classes.entry(label).or_default() += 1;
                                    if !label.is_empty() {
                                        nontriv += 1;
                                        if l.samples.len() < 2 && i % 97 == 13 {
                                            l.samples.push(format!("{i} [{label}]"));
                                        }
                                    }
                                }
                                Err(_) => {
                                    lowest.fetch_min(i, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                    }
                    self.sweep_distinct.fetch_add(nontriv, Ordering::Relaxed);
                    self.merge(sub, l);
                });
            }
        });
        let i = lowest.load(Ordering::Relaxed);
        if i != u64::MAX {
            enter(sub);
            let message = match run_case(&i, &test) {
                Err(m) => m,
                Ok(_) => "not reproduced on the second run".into(),
            };
            *self.failure.lock().unwrap() =
                Some(Failure { sub: sub.into(), value: i.encode(), debug: i.to_string(), message });
        }
    }

    /// Notes a defect that KNOWN_FINDINGS lists; false if it does not.
    pub fn known_finding(&self, text: &str) -> bool {
        static FILE: OnceLock<String> = OnceLock::new();
        let file = FILE.get_or_init(|| {
            let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
            std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS")).unwrap_or_default()
        });
        let line = format!("known: property={} {}", self.id, text);
        if !file.lines().any(|l| l.starts_with(&line)) {
            return false;
        }
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|x| x == text) {
            k.push(text.to_string());
        }
        true
    }
}

// ---------------------------------------------------------------- reporting

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(ctx: &Ctx, dir: &str, rule: &str, assumptions: &[&str]) {
    let evals = ctx.evals.load(Ordering::Relaxed);
    let distinct = ctx.sweep_distinct.load(Ordering::Relaxed) + ctx.distinct.lock().unwrap().len() as u64;
    let mut samples: Vec<String> = ctx.samples.lock().unwrap().clone();
    samples.sort();
    let classes = ctx.classes.lock().unwrap();
    let classes_text = classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    let subs = ctx.subs.lock().unwrap().clone();
    let exh = ctx.exhaustive.lock().unwrap().clone();
    let violations = u64::from(ctx.failed());
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"exhaustive\": false,\n    \"searches\": [{}],\n    \"enumerated_completely\": [{}],\n    \"classes\": {{{}}}\n  }},\n  \"wall_s\": {:.3},\n  \"violations\": {},\n  \"known_findings\": [{}],\n  \"assumptions\": [{}]\n}}\n",
        json_str(ctx.id),
        json_str(if ctx.thorough { "thorough" } else { "quick" }),
        ctx.seed,
        evals,
        distinct,
        json_str(rule),
        samples.iter().take(24).map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        subs.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        exh.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        classes_text,
        ctx.started.elapsed().as_secs_f64(),
        violations,
        ctx.known.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
    );
    let _ = std::fs::create_dir_all(dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", ctx.id), body) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}
