//! Case runner: drives proptest strategies or enumerations through a test
//! function, counts what was generated, shrinks failures and writes replays.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// What one passing case was: did it exercise the property (by the rule stated
/// for the check), and which classes does it belong to.
#[derive(Default, Clone, Debug)]
pub struct Obs {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

impl Obs {
    pub fn new(nontrivial: bool) -> Obs {
        Obs { nontrivial, tags: vec![] }
    }
    pub fn tag(mut self, t: &'static str) -> Obs {
        self.tags.push(t);
        self
    }
    pub fn tag_if(self, c: bool, t: &'static str) -> Obs {
        if c {
            self.tag(t)
        } else {
            self
        }
    }
}

/// Err(message) means the property is violated by this case.
pub type R = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err(format!($($a)*)); }
    };
}

pub trait CaseT: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static> CaseT for T {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub msg: String,
    pub how: String,
}

/// Distinct cases are counted up to here per worker (memory).
const DISTINCT_MAX: usize = 4_000_000;

#[derive(Default)]
pub struct SubStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub exhaustive: bool,
}

impl SubStats {
    fn absorb(&mut self, o: SubStats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        if self.distinct.is_empty() {
            self.distinct = o.distinct;
        } else {
            self.distinct.extend(o.distinct);
        }
        for (k, v) in o.tags {
            *self.tags.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
    fn note<T: Serialize>(&mut self, case: &T, obs: &Obs) {
        self.evaluations += 1;
        for t in &obs.tags {
            *self.tags.entry(t).or_insert(0) += 1;
        }
        if obs.nontrivial {
            self.nontrivial += 1;
            if let Ok(bytes) = serde_json::to_vec(case) {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                h.write(&bytes);
                if self.distinct.len() < DISTINCT_MAX {
                    self.distinct.insert(h.finish());
                }
                // Early, later and much later ones, short enough to read.
                let n = self.nontrivial;
                if bytes.len() < 600 && (n == 3 || n == 300 || n == 3000) {
                    self.samples.push(serde_json::to_value(case).unwrap_or(Value::Null));
                }
            }
        }
    }
}

pub struct RunCtx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    /// Multiplies the case counts of random subs.
    pub scale: f64,
}

type RunFn = Box<dyn Fn(&RunCtx, &str) -> (SubStats, Option<Failure>)>;
type ReplayFn = Box<dyn Fn(&Value) -> R>;

pub struct Sub {
    pub name: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub static HARNESS_BUG: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// What a thread has unless it asks for more: code under test must do with that.
pub const STACK: usize = 2 << 20;

const HARNESS_PANIC: &str = "the harness panicked";

/// Run code under test, turning a panic into Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                // A panic in the harness itself says nothing about the property.
                if !HARNESS_BUG.swap(true, Ordering::SeqCst) {
                    eprintln!("HARNESS BUG: {} at {}", msg, loc);
                }
                return Err(format!("{}: {} ({})", HARNESS_PANIC, msg, loc));
            }
            Err(format!("panicked: {} ({})", msg, loc))
        }
    }
}

/// The case a worker is busy with, for the watchdog.
struct Current {
    since: std::time::Instant,
    case: usize,
    json: fn(usize) -> Value,
}
type Slot = Arc<std::sync::Mutex<Option<Current>>>;
static SLOTS: std::sync::Mutex<Vec<Slot>> = std::sync::Mutex::new(Vec::new());
static SUB: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static TRACES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

thread_local! {
    static SLOT: Slot = {
        let s: Slot = Default::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
    /// When retracing a crash: the file that holds the current case.
    static TRACE: RefCell<Option<std::fs::File>> = RefCell::new(std::env::var("HARNESS_TRACE").ok().map(|d| {
        let n = TRACES.fetch_add(1, Ordering::SeqCst);
        std::fs::File::create(format!("{}/{}.json", d, n)).expect("trace file")
    }));
}

/// Exit code of a process whose code under test did not return.
pub const HUNG: i32 = 77;
const PATIENCE: std::time::Duration = std::time::Duration::from_secs(30);

/// Report a case that takes too long: write it down and end the process.
pub fn watch(report: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        for s in slots {
            let s = s.lock().unwrap();
            if let Some(c) = &*s {
                if c.since.elapsed() > PATIENCE {
                    // The worker cannot leave the case while we hold its slot.
                    let v = json!({"sub": *SUB.lock().unwrap(), "case": (c.json)(c.case)});
                    let _ = std::fs::write(&report, v.to_string());
                    std::process::exit(HUNG);
                }
            }
        }
    });
}

fn call<T: Serialize>(test: fn(&T) -> R, case: &T) -> R {
    fn to_json<T: Serialize>(p: usize) -> Value {
        // Safety: only called while the worker is inside `call` with this case.
        serde_json::to_value(unsafe { &*(p as *const T) }).unwrap_or(Value::Null)
    }
    TRACE.with(|f| {
        if let Some(f) = &mut *f.borrow_mut() {
            use std::io::{Seek, Write};
            let v = json!({"sub": *SUB.lock().unwrap(), "case": case});
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = f.write_all(v.to_string().as_bytes());
        }
    });
    let set = |c: Option<Current>| SLOT.with(|s| *s.lock().unwrap() = c);
    set(Some(Current {
        since: std::time::Instant::now(),
        case: case as *const T as usize,
        json: to_json::<T>,
    }));
    let r = guarded(|| test(case));
    set(None);
    match r {
        Ok(r) => r,
        // Not a word about the property; another case may still tell.
        Err(e) if e.starts_with(HARNESS_PANIC) => Ok(Obs::new(false).tag("harness panicked")),
        Err(e) => Err(e),
    }
}

fn mix(seed: u64, parts: &[&str], shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf29ce484222325 ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
        let mut eat = |b: u8| {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        };
        for p in parts {
            for b in p.bytes() {
                eat(b);
            }
            eat(0xff);
        }
        for b in seed.to_le_bytes() {
            eat(b);
        }
        for b in shard.to_le_bytes() {
            eat(b);
        }
        h ^= h >> 31;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 29;
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn shards<F>(n: usize, f: F) -> (SubStats, Option<Failure>)
where
    F: Fn(usize, &AtomicBool) -> (SubStats, Option<Failure>) + Sync,
{
    let stop = AtomicBool::new(false);
    let mut results: Vec<Option<(SubStats, Option<Failure>)>> = (0..n).map(|_| None).collect();
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for i in 0..n {
            let (f, stop) = (&f, &stop);
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || f(i, stop))
                .expect("spawn");
            hs.push(h);
        }
        for (i, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(r) => results[i] = Some(r),
                Err(_) => HARNESS_BUG.store(true, Ordering::SeqCst),
            }
        }
    });
    let mut total = SubStats::default();
    let mut fail = None;
    for r in results.into_iter().flatten() {
        total.absorb(r.0);
        if fail.is_none() {
            fail = r.1;
        }
    }
    (total, fail)
}

/// A randomly generated sub-check: `quick`/`thorough` are total case counts.
pub fn random<T: CaseT>(
    name: &'static str,
    quick: u32,
    thorough: u32,
    strategy: fn() -> BoxedStrategy<T>,
    test: fn(&T) -> R,
) -> Sub {
    Sub {
        name,
        run: Box::new(move |ctx, sub| {
            let total = match ctx.tier {
                Tier::Quick => quick,
                Tier::Thorough => thorough,
            };
            let total = ((total as f64) * ctx.scale).max(1.0) as u32;
            let n = ctx.threads.max(1);
            // Fixed number of shards, so that the cases do not depend on the machine.
            const SHARDS: u32 = 16;
            let next = std::sync::atomic::AtomicU32::new(0);
            shards(n, |_, stop| {
                let mut stats = SubStats::default();
                loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS || stop.load(Ordering::SeqCst) {
                        return (stats, None);
                    }
                    let cases = total / SHARDS + u32::from(shard < total % SHARDS);
                    if cases == 0 {
                        continue;
                    }
                    let cfg = Config {
                        cases,
                        failure_persistence: None,
                        max_shrink_iters: 200_000,
                        max_shrink_time: 60_000,
                        max_global_rejects: 100_000,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &mix(ctx.seed, &[ctx.prop, sub], shard as u64),
                    );
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let cell = RefCell::new((&mut stats, false));
                    let res = runner.run(&strategy(), |case| {
                        let mut c = cell.borrow_mut();
                        if !c.1 && stop.load(Ordering::SeqCst) {
                            return Ok(());
                        }
                        match call(test, &case) {
                            Ok(obs) => {
                                if !c.1 {
                                    c.0.note(&case, &obs);
                                }
                                Ok(())
                            }
                            Err(m) => {
                                if !c.1 {
                                    c.0.evaluations += 1;
                                }
                                c.1 = true; // shrinking from here on: do not count
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    drop(cell);
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(_, minimal)) => {
                            stop.store(true, Ordering::SeqCst);
                            let msg = call(test, &minimal).err().unwrap_or_else(|| "failed".into());
                            return (
                                stats,
                                Some(Failure {
                                    sub: sub.to_string(),
                                    case: serde_json::to_value(&minimal).unwrap(),
                                    msg,
                                    how: format!("proptest, seed {}, shard {}, shrunk", ctx.seed, shard),
                                }),
                            );
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("HARNESS BUG: {} aborted: {}", sub, r);
                            HARNESS_BUG.store(true, Ordering::SeqCst);
                            return (stats, None);
                        }
                    }
                }
            })
        }),
        replay: Box::new(move |v| {
            let case: T = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay: {}", e))?;
            call(test, &case)
        }),
    }
}

pub type CaseIter<T> = Box<dyn Iterator<Item = T>>;

/// A systematically generated sub-check: every case of a finite space, smallest first.
pub fn exhaustive<T: CaseT>(
    name: &'static str,
    space: fn(Tier) -> CaseIter<T>,
    test: fn(&T) -> R,
) -> Sub {
    Sub {
        name,
        run: Box::new(move |ctx, sub| {
            let n = ctx.threads.max(1);
            let best: Arc<std::sync::Mutex<Option<(usize, Failure)>>> = Default::default();
            let (mut st, _) = shards(n, |i, stop| {
                let mut stats = SubStats::default();
                for (idx, case) in space(ctx.tier).enumerate().skip(i).step_by(n) {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    match call(test, &case) {
                        Ok(obs) => stats.note(&case, &obs),
                        Err(msg) => {
                            stats.evaluations += 1;
                            stop.store(true, Ordering::SeqCst);
                            let f = Failure {
                                sub: sub.to_string(),
                                case: serde_json::to_value(&case).unwrap(),
                                msg,
                                how: "exhaustive enumeration, first failing case".into(),
                            };
                            let mut b = best.lock().unwrap();
                            if b.as_ref().map_or(true, |(j, _)| idx < *j) {
                                *b = Some((idx, f));
                            }
                            break;
                        }
                    }
                }
                (stats, None)
            });
            st.exhaustive = true;
            let f = best.lock().unwrap().take().map(|x| x.1);
            (st, f)
        }),
        replay: Box::new(move |v| {
            let case: T = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay: {}", e))?;
            call(test, &case)
        }),
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

pub fn run_check(prop: &Prop, ctx: &RunCtx, only: Option<&str>, dir: &str) -> i32 {
    let start = std::time::Instant::now();
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut samples = Vec::new();
    let mut per_sub = serde_json::Map::new();
    let mut failure = None;
    for sub in &prop.subs {
        if only.map_or(false, |o| o != sub.name) {
            continue;
        }
        let t0 = std::time::Instant::now();
        *SUB.lock().unwrap() = sub.name.to_string();
        let (st, fail) = (sub.run)(ctx, sub.name);
        evaluations += st.evaluations;
        distinct += st.distinct.len() as u64;
        for s in st.samples.iter().take(2) {
            samples.push(json!({"sub": sub.name, "case": s}));
        }
        per_sub.insert(
            sub.name.to_string(),
            json!({
                "evaluations": st.evaluations,
                "nontrivial": st.nontrivial,
                "distinct_nontrivial": st.distinct.len(),
                "classes": st.tags,
                "enumerated_completely": st.exhaustive && fail.is_none(),
                "wall_s": t0.elapsed().as_secs_f64(),
            }),
        );
        if fail.is_some() {
            failure = fail;
            break;
        }
    }
    let harness_bug = HARNESS_BUG.load(Ordering::SeqCst);
    let code = write_evidence(prop, ctx, dir, evaluations, distinct, samples, per_sub, failure.is_some(), start);
    if code != 0 {
        return code;
    }
    match failure {
        None if harness_bug => {
            eprintln!("harness error: no verdict");
            2
        }
        None => {
            println!(
                "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s",
                prop.id,
                evaluations,
                distinct,
                start.elapsed().as_secs_f64()
            );
            0
        }
        Some(f) => report(prop, dir, &f),
    }
}

/// Write the replay file and print the violation.
pub fn report(prop: &Prop, dir: &str, f: &Failure) -> i32 {
    let rep_dir = format!("{}/replays", dir);
    let _ = std::fs::create_dir_all(&rep_dir);
    let path = format!("{}/{}-{}.json", rep_dir, prop.id, f.sub);
    // Messages print whole shapes: of long ones, both ends say enough.
    let n = f.msg.chars().count();
    let msg = if n <= 6_000 {
        f.msg.clone()
    } else {
        let head: String = f.msg.chars().take(3_000).collect();
        let tail: String = f.msg.chars().skip(n - 2_000).collect();
        format!("{} ... [{} characters] ... {}", head, n - 5_000, tail)
    };
    let body = json!({"property": prop.id, "sub": f.sub, "case": f.case, "message": msg, "found_by": f.how,
        "replay_cmd": format!("bash {}/check.sh replay {}", dir, path)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n");
    println!("{}: sub-check {}: {}", prop.id, f.sub, msg);
    let case = f.case.to_string();
    if case.len() < 4000 {
        println!("minimal case: {}", case);
    }
    println!("VIOLATION property={} replay={}", prop.id, path);
    1
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    prop: &Prop,
    ctx: &RunCtx,
    dir: &str,
    evaluations: u64,
    distinct: u64,
    mut samples: Vec<Value>,
    per_sub: serde_json::Map<String, Value>,
    failed: bool,
    start: std::time::Instant,
) -> i32 {
    if samples.is_empty() {
        samples.push(json!("no non-trivial case short enough to print was passed in this run"));
    }
    let mut rule = prop.rule.to_string();
    if prop.subs.iter().any(|s| s.name == "vast") {
        rule += " Sub vast: built shapes and collections of tens of thousands of positions or members (to 131,000), damaged in one place or not, so that the answer is known by construction; every case counts as non-trivial.";
    }
    let ev = json!({
        "property": prop.id,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "sub_checks": per_sub,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if failed { 1 } else { 0 },
    });
    let ev_dir = format!("{}/evidence", dir);
    let _ = std::fs::create_dir_all(&ev_dir);
    if let Err(e) = std::fs::write(
        format!("{}/{}.json", ev_dir, prop.id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    0
}
