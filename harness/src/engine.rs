//! The search engine: runs the laws of one property over generated cases (proptest strategies
//! and their value trees), shrinks any failure, writes the replay file and the evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a law says about a case on which it held.
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<String>,
}

pub type Res = Result<Info, String>;

pub fn trivial() -> Res {
    Ok(Info::default())
}

pub fn held(nontrivial: bool, tags: &[String]) -> Res {
    Ok(Info {
        nontrivial,
        tags: tags.to_vec(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !$c {
            return Err(format!($($arg)+));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct RunCfg {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub deadline: Instant,
    pub shrink_for: Duration,
}

pub struct Failure {
    pub law: String,
    pub case: String,
    pub message: String,
    pub shrink_steps: usize,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub truncated: bool,
    pub failure: Option<Failure>,
    pub secs: f64,
}

pub struct Law {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shards: u32,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(&RunCfg, u32, u32, &Flight) -> Report + Send + Sync>,
    #[allow(clippy::type_complexity)]
    pub replay: Box<dyn Fn(&str) -> Res + Send + Sync>,
}

/// The case each worker is busy with, for the hang watchdog.
#[derive(Clone, Default)]
pub struct Flight(pub Arc<Mutex<Option<(Instant, String, String)>>>, Arc<Mutex<String>>);

impl Flight {
    /// Notes which thread serves this flight.
    fn board(&self) {
        let link = std::fs::read_link("/proc/thread-self").unwrap_or_default();
        *self.1.lock().unwrap() = format!("/proc/{}/stat", link.display());
    }

    /// Processor time of that thread, in seconds: a case is only called endless after *using* the
    /// time, however busy the machine is.
    fn cpu(&self) -> f64 {
        let text = std::fs::read_to_string(&*self.1.lock().unwrap()).unwrap_or_default();
        let rest = text.rsplit(')').next().unwrap_or_default();
        let field = |i: usize| rest.split_whitespace().nth(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        (field(11) + field(12)) / 100.0
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut short = msg;
        short.truncate(short.char_indices().nth(400).map_or(short.len(), |c| c.0));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{short}{at}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

fn exec<C>(test: &(dyn Fn(&C) -> Res + Send + Sync), case: &C) -> Res {
    match guard(|| test(case)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = DefaultHasher::new();
        (parts, i as u64).hash(&mut h);
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let cut = (0..=n).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
        format!("{}...[{} bytes]", &s[..cut], s.len())
    }
}

pub struct LawOpts {
    pub quick: u32,
    pub thorough: u32,
    pub shards: u32,
}

pub fn cases(quick: u32, thorough: u32) -> LawOpts {
    LawOpts {
        quick: quick * 8,
        thorough: thorough * 40,
        shards: 8,
    }
}

/// A law whose cases are run on one thread (the Python interpreter serialises them anyway).
pub fn serial(quick: u32, thorough: u32) -> LawOpts {
    LawOpts {
        quick,
        thorough: thorough * 4,
        shards: 1,
    }
}

pub fn law<C, S, T>(
    name: &'static str,
    rule: &'static str,
    opts: LawOpts,
    strat: S,
    test: T,
) -> Law
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
    S: Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    T: Fn(&C) -> Res + Send + Sync + 'static,
{
    let test: Arc<dyn Fn(&C) -> Res + Send + Sync> = Arc::new(test);
    let t2 = test.clone();
    Law {
        name,
        rule,
        quick: opts.quick,
        thorough: opts.thorough,
        shards: opts.shards,
        run: Box::new(move |cfg, shard, n, flight| {
            let started = Instant::now();
            let mut rep = Report::default();
            let config = Config {
                failure_persistence: None,
                ..Config::default()
            };
            let seed = seed_bytes(&[
                cfg.seed,
                hash_str(&cfg.property),
                hash_str(name),
                shard as u64,
            ]);
            let mut runner =
                TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let strategy = strat();
            for i in 0..n {
                if Instant::now() > cfg.deadline {
                    rep.truncated = true;
                    break;
                }
                let mut tree = match strategy.new_tree(&mut runner) {
                    Ok(t) => t,
                    Err(e) => panic!("generator of {name} gave up: {e}"),
                };
                let case = tree.current();
                let json = serde_json::to_string(&case).expect("serialise case");
                let set = |j: &str| {
                    trace(&cfg.property, name, j);
                    *flight.0.lock().unwrap() =
                        Some((Instant::now(), name.to_string(), j.to_string()))
                };
                set(&json);
                let out = exec(&*test, &case);
                rep.evaluations += 1;
                match out {
                    Ok(info) => {
                        if info.nontrivial {
                            rep.nontrivial.insert(hash_str(&json));
                        }
                        for t in info.tags {
                            *rep.tags.entry(t).or_insert(0) += 1;
                        }
                        // The 1st, 2nd, 8th, 64th ... case of the first shard.
                        if shard == 0 && info.nontrivial && rep.samples.len() < 3 && i >= [0, 5, 20][rep.samples.len()] {
                            rep.samples.push(clip(&json, 300));
                        }
                    }
                    Err(first) => {
                        let (mut best, mut msg, mut steps) = (case, first, 0usize);
                        let until = Instant::now() + cfg.shrink_for;
                        'shrink: while tree.simplify() {
                            loop {
                                if Instant::now() > until || steps > 5000 {
                                    break 'shrink;
                                }
                                steps += 1;
                                let c = tree.current();
                                set(&serde_json::to_string(&c).unwrap());
                                match exec(&*test, &c) {
                                    Err(m) => {
                                        best = c;
                                        msg = m;
                                        break;
                                    }
                                    Ok(_) => {
                                        if !tree.complicate() {
                                            break 'shrink;
                                        }
                                    }
                                }
                            }
                        }
                        rep.failure = Some(Failure {
                            law: name.to_string(),
                            case: serde_json::to_string(&best).unwrap(),
                            message: msg,
                            shrink_steps: steps,
                        });
                        break;
                    }
                }
            }
            *flight.0.lock().unwrap() = None;
            rep.secs = started.elapsed().as_secs_f64();
            rep
        }),
        replay: Box::new(move |json| {
            let case: C = serde_json::from_str(json).map_err(|e| format!("bad replay: {e}"))?;
            exec(&*t2, &case)
        }),
    }
}

pub struct Outcome {
    pub reports: Vec<(usize, Report)>,
}

/// Runs every (law, shard) pair on a small thread pool.
pub fn run_all(laws: &[Law], cfg: &RunCfg, only: Option<&str>, scale: f64) -> Outcome {
    let mut jobs: Vec<(usize, u32, u32)> = Vec::new();
    for (li, l) in laws.iter().enumerate() {
        if only.is_some_and(|o| o != l.name) {
            continue;
        }
        let total = match cfg.tier {
            Tier::Quick => l.quick,
            Tier::Thorough => l.thorough,
        };
        let total = ((total as f64 * scale).ceil() as u32).max(1);
        let shards = l.shards.min(total).max(1);
        for s in 0..shards {
            let n = total / shards + u32::from(s < total % shards);
            jobs.push((li, s, n));
        }
    }
    // Interleave laws so that the slow ones start early on every thread.
    jobs.sort_by_key(|j| (j.1, j.0));
    let queue = Mutex::new(jobs.into_iter());
    let out = Mutex::new(Vec::new());
    let workers = if std::env::var_os("KVERIF_TRACE").is_some() {
        1
    } else {
        std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8)
    };
    let flights: Vec<Flight> = (0..workers).map(|_| Flight::default()).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let hang_after = Duration::from_secs(match cfg.tier {
        Tier::Quick => 150,
        Tier::Thorough => 400,
    });
    let property = cfg.property.clone();
    std::thread::scope(|scope| {
        let handles: Vec<_> = flights
            .iter()
            .map(|flight| {
                let (queue, out) = (&queue, &out);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(scope, move || loop {
                        flight.board();
                        let job = queue.lock().unwrap().next();
                        let Some((li, shard, n)) = job else { break };
                        let rep = (laws[li].run)(cfg, shard, n, flight);
                        out.lock().unwrap().push((li, rep));
                    })
                    .unwrap()
            })
            .collect();
        let (flights, done) = (&flights, &done);
        scope.spawn(move || {
            let mut seen: Vec<Option<(Instant, f64)>> = vec![None; flights.len()];
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (f, seen) in flights.iter().zip(&mut seen) {
                    let cur = f.0.lock().unwrap().clone();
                    let Some((since, law, case)) = cur else {
                        *seen = None;
                        continue;
                    };
                    let cpu = f.cpu();
                    let start = match *seen {
                        Some((s, c)) if s == since => c,
                        _ => {
                            *seen = Some((since, cpu));
                            cpu
                        }
                    };
                    let used = cpu - start;
                    if used > hang_after.as_secs_f64() {
                        // A thread cannot be stopped: report and leave the process.
                        let message = format!("did not finish within {} s of processor time", hang_after.as_secs());
                        report_failure(&property, &Failure { law, case, message, shrink_steps: 0 });
                        std::process::exit(1);
                    }
                    if since.elapsed() > 4 * hang_after {
                        eprintln!("no answer: a case of {law} has been waiting for {} s: {}", since.elapsed().as_secs(), clip(&case, 400));
                        std::process::exit(2);
                    }
                }
            }
        });
        for h in handles {
            if h.join().is_err() {
                eprintln!("internal error: {}", last_panic());
                std::process::exit(2);
            }
        }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    Outcome {
        reports: out.into_inner().unwrap(),
    }
}

/// With KVERIF_TRACE set, the case about to run is written there first, as a replay file: what is
/// left when the process is killed by the code under test.
fn trace(property: &str, law: &str, case: &str) {
    static PATH: std::sync::OnceLock<Option<std::ffi::OsString>> = std::sync::OnceLock::new();
    if let Some(p) = PATH.get_or_init(|| std::env::var_os("KVERIF_TRACE")) {
        let text = format!(
            "{{\"property\": \"{property}\", \"law\": \"{law}\", \"case\": {case}, \"message\": \"the process died\"}}\n"
        );
        let _ = std::fs::write(p, text);
    }
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("KVERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn report_failure(property: &str, f: &Failure) -> PathBuf {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", property, f.law));
    let case: serde_json::Value = serde_json::from_str(&f.case).unwrap_or_default();
    let v = serde_json::json!({
        "property": property, "law": f.law, "case": case, "message": f.message,
        "shrink_steps": f.shrink_steps,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    println!("law {} failed: {}", f.law, clip(&f.message, 600));
    println!("minimal case: {}", clip(&f.case, 600));
    println!("VIOLATION property={} replay={}", property, path.display());
    path
}

pub fn write_evidence(
    property: &str,
    cfg: &RunCfg,
    laws: &[Law],
    out: &Outcome,
    violations: usize,
    assumptions: &[String],
    wall: f64,
) {
    let mut total = 0u64;
    let mut distinct = 0u64;
    let mut rows = Vec::new();
    let mut samples = Vec::new();
    let mut rule = String::from(
        "Cases are drawn by proptest strategies from VERIF_SEED (structured generators with boundary, \
         power-of-two and source-literal sizes); distinct = distinct serialised case. Per law, a case is non-trivial when: ",
    );
    for (li, l) in laws.iter().enumerate() {
        let mut ev = 0;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut tags: BTreeMap<String, u64> = BTreeMap::new();
        let mut trunc = false;
        let mut secs = 0.0;
        for (_, r) in out.reports.iter().filter(|(i, _)| *i == li) {
            ev += r.evaluations;
            nt.extend(&r.nontrivial);
            for (k, v) in &r.tags {
                *tags.entry(k.clone()).or_insert(0) += v;
            }
            trunc |= r.truncated;
            secs += r.secs;
            for s in &r.samples {
                samples.push(serde_json::json!({"law": l.name, "case": serde_json::from_str::<serde_json::Value>(s).unwrap_or(serde_json::Value::String(s.clone()))}));
            }
        }
        if ev == 0 {
            continue;
        }
        total += ev;
        distinct += nt.len() as u64;
        rule.push_str(&format!("[{}] {}; ", l.name, l.rule));
        rows.push(serde_json::json!({
            "law": l.name, "evaluations": ev, "distinct_nontrivial": nt.len(),
            "classes": tags, "stopped_by_time": trunc, "cpu_s": (secs * 100.0).round() / 100.0,
        }));
    }
    let v = serde_json::json!({
        "property": property,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "laws": rows,
            "source_dictionary": crate::gen::dict().len(),
        },
        "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{property}.json")),
        serde_json::to_string_pretty(&v).unwrap() + "\n",
    )
    .expect("write evidence");
}
