//! Runs the sub-checks of a property over generated cases.
//!
//! * Case `i` of a sub-check is a pure function of (VERIF_SEED, sub-check name, i): each case has its own
//!   proptest RNG. Work is spread over worker processes, so a crash of the code under test (stack
//!   overflow, abort) is contained, attributed to the case that was running, and confirmed by replay.
//! * A failing case is shrunk through proptest's value tree and written as a JSON replay file, which is
//!   run again without proptest by `replay <file>`.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case did: class counters, and whether it was non-trivial.
#[derive(Default)]
pub struct Cov {
    pub classes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Cov {
    pub fn hit(&mut self, class: &'static str) {
        *self.classes.entry(class).or_insert(0) += 1;
    }
    pub fn add(&mut self, class: &'static str, n: u64) {
        *self.classes.entry(class).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type Outcome = Result<(), String>;

pub trait DynSub: Sync + Send {
    fn name(&self) -> &'static str;
    fn count(&self, tier: Tier) -> u64;
    fn exhaustive(&self) -> bool;
    fn rule(&self) -> &'static str;
    /// The case as JSON.
    fn case(&self, seed: u64, idx: u64) -> Value;
    /// Run case `idx`.
    fn run(&self, seed: u64, idx: u64, cov: &mut Cov) -> (Outcome, Option<u64>);
    /// Run a case from JSON.
    fn run_json(&self, case: &Value, cov: &mut Cov) -> Outcome;
    /// Shrink the (failing) case `idx`; `fails` tells whether a candidate still fails.
    fn shrink(
        &self,
        seed: u64,
        idx: u64,
        steps: u32,
        fails: &mut dyn FnMut(&dyn Fn(&mut Cov) -> Outcome, &dyn Fn() -> Value) -> bool,
    ) -> Value;
}

pub struct Sub<C: 'static> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Cov) -> Outcome,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(msg));
    }));
}

/// Run `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC_MSG
                .with(|m| m.borrow_mut().take())
                .unwrap_or_else(|| "?".into());
            Err(format!("panic: {}", msg.replace('\n', " ")))
        }
    }
}

fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn case_runner(seed: u64, name: &str, idx: u64) -> TestRunner {
    let mut s = fnv(name.as_bytes(), 0xcbf29ce484222325) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let _ = splitmix(&mut s);
    s ^= idx.wrapping_mul(0xD1B54A32D192ED03);
    let mut bytes = [0u8; 32];
    for chunk in bytes.chunks_mut(8) {
        chunk.copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    let config = Config {
        failure_persistence: None,
        max_local_rejects: 100_000,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

impl<C> DynSub for Sub<C>
where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn count(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn exhaustive(&self) -> bool {
        false
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn case(&self, seed: u64, idx: u64) -> Value {
        let tree = (self.strategy)()
            .new_tree(&mut case_runner(seed, self.name, idx))
            .expect("strategy");
        serde_json::to_value(tree.current()).unwrap()
    }
    fn run(&self, seed: u64, idx: u64, cov: &mut Cov) -> (Outcome, Option<u64>) {
        thread_local! {
            static STRATEGIES: RefCell<Vec<(&'static str, Box<dyn std::any::Any>)>> = const { RefCell::new(Vec::new()) };
        }
        let case: C = STRATEGIES.with(|s| {
            let mut s = s.borrow_mut();
            if !s.iter().any(|(n, _)| *n == self.name) {
                s.push((self.name, Box::new((self.strategy)())));
            }
            let strategy = s
                .iter()
                .find(|(n, _)| *n == self.name)
                .unwrap()
                .1
                .downcast_ref::<BoxedStrategy<C>>()
                .unwrap();
            strategy
                .new_tree(&mut case_runner(seed, self.name, idx))
                .expect("strategy")
                .current()
        });
        let r = guarded(|| (self.run)(&case, cov));
        let hash = if cov.nontrivial {
            Some(fnv(
                &serde_json::to_vec(&case).unwrap(),
                fnv(self.name.as_bytes(), 0xcbf29ce484222325),
            ))
        } else {
            None
        };
        (r, hash)
    }
    fn run_json(&self, case: &Value, cov: &mut Cov) -> Outcome {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {e}"))?;
        guarded(|| (self.run)(&case, cov))
    }
    fn shrink(
        &self,
        seed: u64,
        idx: u64,
        steps: u32,
        fails: &mut dyn FnMut(&dyn Fn(&mut Cov) -> Outcome, &dyn Fn() -> Value) -> bool,
    ) -> Value {
        let mut tree = (self.strategy)()
            .new_tree(&mut case_runner(seed, self.name, idx))
            .expect("strategy");
        let mut best = tree.current();
        let started = Instant::now();
        if tree.simplify() {
            for _ in 0..steps {
                if started.elapsed() > Duration::from_secs(60) {
                    break;
                }
                let current = tree.current();
                let failed = fails(
                    &|cov: &mut Cov| guarded(|| (self.run)(&current, cov)),
                    &|| serde_json::to_value(&current).unwrap(),
                );
                let more = if failed {
                    best = current;
                    tree.simplify()
                } else {
                    tree.complicate()
                };
                if !more {
                    break;
                }
            }
        }
        serde_json::to_value(&best).unwrap()
    }
}

/// A sub-check over a finite space, enumerated completely: the case is the index.
pub struct Exhaustive {
    pub name: &'static str,
    pub total: fn(Tier) -> u64,
    pub rule: &'static str,
    pub run: fn(u64, &mut Cov) -> Outcome,
    pub describe: fn(u64) -> Value,
}

impl DynSub for Exhaustive {
    fn name(&self) -> &'static str {
        self.name
    }
    fn count(&self, tier: Tier) -> u64 {
        (self.total)(tier)
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn case(&self, _seed: u64, idx: u64) -> Value {
        json!({"index": idx, "what": (self.describe)(idx)})
    }
    fn run(&self, _seed: u64, idx: u64, cov: &mut Cov) -> (Outcome, Option<u64>) {
        let r = guarded(|| (self.run)(idx, cov));
        let h = cov
            .nontrivial
            .then(|| fnv(&idx.to_le_bytes(), fnv(self.name.as_bytes(), 0xcbf29ce484222325)));
        (r, h)
    }
    fn run_json(&self, case: &Value, cov: &mut Cov) -> Outcome {
        let idx = case["index"].as_u64().ok_or("bad case")?;
        guarded(|| (self.run)(idx, cov))
    }
    fn shrink(
        &self,
        seed: u64,
        idx: u64,
        _steps: u32,
        _fails: &mut dyn FnMut(&dyn Fn(&mut Cov) -> Outcome, &dyn Fn() -> Value) -> bool,
    ) -> Value {
        self.case(seed, idx)
    }
}

/// A known finding: `witness` tells whether the recorded failing input still fails. It runs in a process of
/// its own, as the failure may be a crash; `crash` is set where the failure is one.
pub struct Known {
    pub id: &'static str,
    pub what: &'static str,
    pub crash: bool,
    pub witness: fn() -> bool,
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn DynSub>>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(2))
}

/// Entry point of a check binary.
///
/// `<bin> check <property>`, `<bin> replay <file>`, `<bin> worker ...`, `<bin> known <property> <n>`,
/// `<bin> show <property> <sub> <idx>`
pub fn main(properties: fn() -> Vec<Property>) {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let find = |id: &str| -> Property {
        match properties().into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no such property: {id}");
                std::process::exit(2)
            }
        }
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(find(&args[2]), seed, tier)),
        Some("worker") => {
            let p = find(&args[2]);
            let k: u64 = args[3].parse().unwrap();
            let n: u64 = args[4].parse().unwrap();
            let progress = PathBuf::from(&args[5]);
            let out = PathBuf::from(&args[6]);
            limit_memory();
            on_big_stack(move || worker(p, seed, tier, k, n, &progress, &out));
        }
        Some("replay") => {
            let v: Value = match fs::read_to_string(&args[2])
                .ok()
                .and_then(|s| serde_json::from_str(&s).ok())
            {
                Some(v) => v,
                None => {
                    eprintln!("cannot read {}", args[2]);
                    std::process::exit(2)
                }
            };
            let p = find(v["property"].as_str().unwrap_or("?"));
            let quiet = args.get(3).map(|s| s == "-q").unwrap_or(false);
            let path = args[2].clone();
            let mut seen = Replayed::Other;
            if !quiet {
                // A case that crashes or does not end says nothing itself.
                let patience = if v["worker"].is_object() { 5 * PATIENCE } else { PATIENCE };
                seen = replay_in_child(Path::new(&path), patience);
                if matches!(seen, Replayed::Crashes | Replayed::Hangs) {
                    println!("case: {}", v["case"]);
                    println!("{}", if seen == Replayed::Hangs { "this case does not end" } else { "the process crashed" });
                    println!("VIOLATION property={} replay={}", p.id, path);
                    std::process::exit(1);
                }
            }
            limit_memory();
            let code = on_big_stack(move || {
                quiet_panics();
                let sub = match p.subs.iter().find(|s| Some(s.name()) == v["sub"].as_str()) {
                    Some(s) => s,
                    None => {
                        eprintln!("no such sub-check");
                        return 2;
                    }
                };
                let mut result = Ok(());
                if let Some(worker) = v["worker"].as_object() {
                    // Everything that ran in the process before the case that failed.
                    let n = worker["of"].as_u64().unwrap_or(1);
                    let tier = if worker["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
                    let seed = v["seed"].as_u64().unwrap_or(1);
                    'subs: for s in &p.subs {
                        let last = s.name() == sub.name();
                        let mut idx = worker["k"].as_u64().unwrap_or(0);
                        while idx < s.count(tier) {
                            result = s.run(seed, idx, &mut Cov::default()).0;
                            if result.is_err() || (last && Some(idx) == v["idx"].as_u64()) {
                                break 'subs;
                            }
                            idx += n;
                        }
                        if last {
                            break;
                        }
                    }
                } else {
                    // Where a result is not the same every time, try again.
                    for _ in 0..v["attempts"].as_u64().unwrap_or(1) {
                        for before in v["before"].as_array().into_iter().flatten() {
                            let _ = sub.run_json(before, &mut Cov::default());
                        }
                        result = sub.run_json(&v["case"], &mut Cov::default());
                        if result.is_err() {
                            break;
                        }
                    }
                }
                if result.is_ok() && seen == Replayed::Fails {
                    result = Err("fails, but not every time".into());
                }
                match result {
                    Ok(()) => {
                        if !quiet {
                            println!("replay of {path}: holds");
                        }
                        0
                    }
                    Err(e) => {
                        if !quiet {
                            println!("case: {}", v["case"]);
                            println!("{e}");
                            println!("VIOLATION property={} replay={}", p.id, path);
                        }
                        1
                    }
                }
            });
            std::process::exit(code);
        }
        Some("known") => {
            let p = find(&args[2]);
            let n: usize = args[3].parse().unwrap();
            quiet_panics();
            let w = p.known[n].witness;
            // On an ordinary stack: the finding may be that it overflows.
            let fails = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(w)
                .unwrap()
                .join()
                .unwrap_or(true);
            std::process::exit(if fails { 10 } else { 0 });
        }
        Some("show") => {
            let p = find(&args[2]);
            let sub = p.subs.iter().find(|s| s.name() == args[3]).unwrap();
            println!("{}", sub.case(seed, args[4].parse().unwrap()));
        }
        _ => {
            eprintln!("usage: {} check <property> | replay <file>", args[0]);
            std::process::exit(2);
        }
    }
}

const WORKERS: u64 = 8;
const MEMORY: u64 = 4 << 30;

/// No case needs anything near this: one that does has run away, and is not to take the machine with it.
fn limit_memory() {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    unsafe {
        let _ = setrlimit(RLIMIT_AS, &[MEMORY, MEMORY]);
    }
}

fn worker(p: Property, seed: u64, tier: Tier, k: u64, n: u64, progress: &Path, out: &Path) {
    use std::os::unix::fs::FileExt;
    quiet_panics();
    let file = fs::File::create(progress).unwrap();
    let mut subs_out = vec![];
    let mut hashes: Vec<u64> = vec![];
    let only = std::env::var("VERIF_SUB").ok();
    for (si, sub) in p.subs.iter().enumerate() {
        if only.as_deref().map_or(false, |o| !sub.name().contains(o)) {
            continue;
        }
        let mut total = Cov::default();
        let mut evaluations = 0u64;
        let mut nontrivial = 0u64;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut failure = Value::Null;
        let count = sub.count(tier);
        let mut idx = k;
        while idx < count {
            let mut mark = [0u8; 16];
            mark[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
            mark[8..].copy_from_slice(&idx.to_le_bytes());
            file.write_at(&mark, 0).unwrap();
            let mut cov = Cov::default();
            let (r, hash) = sub.run(seed, idx, &mut cov);
            evaluations += 1;
            for (c, v) in &cov.classes {
                *total.classes.entry(c).or_insert(0) += v;
            }
            if let Some(h) = hash {
                nontrivial += 1;
                if seen.insert(h) && samples.len() < 2 && k == 0 {
                    samples.push(sub.case(seed, idx));
                }
            }
            if let Err(first) = r {
                let mut message = first;
                let case = sub.shrink(seed, idx, 4000, &mut |run, _| {
                    match run(&mut Cov::default()) {
                        Ok(()) => false,
                        Err(e) => {
                            message = e;
                            true
                        }
                    }
                });
                failure = json!({"sub": sub.name(), "sub_index": si, "idx": idx, "case": case, "message": message, "k": k, "n": n});
                break;
            }
            idx += n;
        }
        hashes.extend(seen.iter());
        subs_out.push(json!({
            "sub": sub.name(), "evaluations": evaluations, "nontrivial": nontrivial,
            "classes": total.classes, "samples": samples, "failure": failure,
        }));
        if !failure.is_null() {
            break;
        }
    }
    let v = json!({"subs": subs_out, "hashes": hashes});
    fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
}

fn write_replay(
    p: &str,
    seed: u64,
    idx: u64,
    sub: &str,
    case: &Value,
    message: &str,
    more: Value,
) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let mut v = json!({"property": p, "sub": sub, "seed": seed, "idx": idx, "message": message, "case": case});
    if let Value::Object(more) = more {
        v.as_object_mut().unwrap().extend(more);
    }
    let text = serde_json::to_string_pretty(&v).unwrap();
    let h = fnv(case.to_string().as_bytes(), 0xcbf29ce484222325);
    let path = dir.join(format!("{p}-{sub}-{h:016x}.json"));
    fs::write(&path, text).unwrap();
    path
}

#[derive(Clone, Copy, PartialEq)]
enum Replayed {
    Holds,
    Fails,
    Crashes,
    Hangs,
    Other,
}

impl Replayed {
    fn is_hang(&self) -> bool {
        matches!(self, Replayed::Hangs)
    }

    fn is_failure(self) -> bool {
        matches!(self, Replayed::Fails | Replayed::Crashes | Replayed::Hangs)
    }
}

/// A case that takes this long does not end.
const PATIENCE: Duration = Duration::from_secs(60);

fn replay_in_child(path: &Path, patience: Duration) -> Replayed {
    let exe = std::env::current_exe().unwrap();
    let child = Command::new(exe)
        .arg("replay")
        .arg(path)
        .arg("-q")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut child) = child else {
        return Replayed::Other;
    };
    let started = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => {
                return match status.code() {
                    Some(0) => Replayed::Holds,
                    Some(1) => Replayed::Fails,
                    Some(_) => Replayed::Other,
                    // Including one that runs out of the memory it may use.
                    None => Replayed::Crashes,
                }
            }
            Ok(None) if started.elapsed() > patience => {
                let _ = child.kill();
                let _ = child.wait();
                return Replayed::Hangs;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(_) => return Replayed::Other,
        }
    }
}

/// A failure of case `idx` on its own in a process of its own, or else after what ran before it there.
/// The replay file, if there is one that fails.
#[allow(clippy::too_many_arguments)]
fn reproduce(
    p: &str,
    sub: &dyn DynSub,
    seed: u64,
    tier: Tier,
    idx: u64,
    k: u64,
    n: u64,
    cases: &[Value],
    message: &str,
) -> Result<PathBuf, PathBuf> {
    let mut written: Vec<PathBuf> = vec![];
    let mut tried = |case: &Value, more: Value, patience: Duration| -> Option<PathBuf> {
        let more_is_worker = more.get("worker").is_some();
        let path = write_replay(p, seed, idx, sub.name(), case, message, more);
        let replayed = replay_in_child(&path, patience);
        // All that a worker did may well take longer than there is patience for.
        let failed = replayed.is_failure() && !(replayed.is_hang() && more_is_worker);
        if failed {
            for other in written.iter().filter(|other| **other != path) {
                let _ = fs::remove_file(other);
            }
            return Some(path);
        }
        if !written.contains(&path) {
            written.push(path);
        }
        None
    };
    for case in cases {
        if let Some(path) = tried(case, Value::Null, PATIENCE) {
            return Ok(path);
        }
    }
    for case in cases {
        if let Some(path) = tried(case, json!({"attempts": 100}), PATIENCE) {
            return Ok(path);
        }
    }
    let original = sub.case(seed, idx);
    let mut before: Vec<Value> = vec![];
    for length in [1, 2, 4, 8, 16, 32, 64, 128] {
        while (before.len() as u64) < length && idx >= k + n * (before.len() as u64 + 1) {
            before.push(sub.case(seed, idx - n * (before.len() as u64 + 1)));
        }
        let mut ordered = before.clone();
        ordered.reverse();
        if tried(&original, json!({"before": ordered}), PATIENCE).is_none() {
            continue;
        }
        // Leave out those that do not matter.
        let started = Instant::now();
        let mut at = 0;
        while at < ordered.len() && started.elapsed() < Duration::from_secs(30) {
            let mut fewer = ordered.clone();
            let _ = fewer.remove(at);
            match tried(&original, json!({"before": fewer}), PATIENCE) {
                Some(_) => ordered = fewer,
                None => at += 1,
            }
        }
        let path = write_replay(p, seed, idx, sub.name(), &original, message, json!({"before": ordered}));
        return Ok(path);
    }
    let tier = match tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let worker = json!({"worker": {"k": k, "of": n, "tier": tier}});
    match tried(&original, worker.clone(), Duration::from_secs(200)) {
        Some(path) => Ok(path),
        None => {
            for other in &written {
                let _ = fs::remove_file(other);
            }
            Err(write_replay(p, seed, idx, sub.name(), &original, message, worker))
        }
    }
}

fn check(p: Property, seed: u64, tier: Tier) -> i32 {
    let started = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("xmldom-check-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let limit = Duration::from_secs(
        std::env::var("VERIF_LIMIT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(match tier {
                Tier::Quick => 800,
                Tier::Thorough => 6 * 3600,
            }),
    );
    let mut violation: Option<(PathBuf, String)> = None;
    let mut error: Option<String> = None;

    // Saved regression inputs first.
    let mut regressions = 0u64;
    if let Ok(entries) = fs::read_dir(verif_dir().join("regress")) {
        let mut files: Vec<PathBuf> = entries.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let mine = fs::read_to_string(&f)
                .ok()
                .and_then(|s| serde_json::from_str::<Value>(&s).ok())
                .map_or(false, |v| v["property"].as_str() == Some(p.id));
            if !mine {
                continue;
            }
            regressions += 1;
            match replay_in_child(&f, PATIENCE) {
                Replayed::Holds => (),
                Replayed::Fails | Replayed::Crashes | Replayed::Hangs => {
                    violation = Some((f.clone(), "saved regression input fails again".into()));
                    break;
                }
                Replayed::Other => {
                    error = Some(format!("cannot replay {}", f.display()));
                    break;
                }
            }
        }
    }

    // Known findings.
    let mut known_lines = vec![];
    for (n, k) in p.known.iter().enumerate() {
        let out = Command::new(&exe)
            .args(["known", p.id, &n.to_string()])
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let still = match out.status.code() {
            Some(10) => true,
            Some(0) => false,
            None if k.crash => true,
            _ => {
                error = Some(format!("known finding {} could not be run", k.id));
                false
            }
        };
        if still {
            known_lines.push(format!(
                "KNOWN-FINDING: property={} [{}] {}",
                p.id, k.id, k.what
            ));
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    // Workers.
    let mut children = vec![];
    for k in 0..WORKERS {
        let progress = tmp.join(format!("p{k}"));
        let out = tmp.join(format!("o{k}"));
        let err = fs::File::create(tmp.join(format!("e{k}"))).unwrap();
        let child = Command::new(&exe)
            .args(["worker", p.id, &k.to_string(), &WORKERS.to_string()])
            .arg(&progress)
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        children.push((k, child));
    }
    let mut crashed: Vec<(u64, u64, u64)> = vec![]; // (sub index, idx, worker)
    let mut stalled = false;
    let mut marks: BTreeMap<u64, (Vec<u8>, Instant)> = BTreeMap::new();
    while !children.is_empty() {
        let mut rest = vec![];
        for (k, mut child) in children {
            match child.try_wait() {
                Ok(None) => {
                    let mark = fs::read(tmp.join(format!("p{k}"))).unwrap_or_default();
                    let seen = marks.entry(k).or_insert_with(|| (mark.clone(), Instant::now()));
                    if seen.0 != mark {
                        *seen = (mark, Instant::now());
                    } else if mark.len() >= 16 && seen.1.elapsed() > 2 * PATIENCE {
                        // One case does not end.
                        let _ = child.kill();
                        let _ = child.wait();
                        stalled = true;
                        crashed.push((
                            u64::from_le_bytes(mark[..8].try_into().unwrap()) - 1,
                            u64::from_le_bytes(mark[8..16].try_into().unwrap()),
                            k,
                        ));
                        continue;
                    }
                    rest.push((k, child))
                }
                Ok(Some(status)) => {
                    if status.code() == Some(0) {
                        continue;
                    }
                    let stderr = fs::read(tmp.join(format!("e{k}"))).unwrap_or_default();
                    let mark = fs::read(tmp.join(format!("p{k}"))).unwrap_or_default();
                    if status.code().is_some() || mark.len() < 16 {
                        error = Some(format!(
                            "worker {k} ended with {status}: {}",
                            String::from_utf8_lossy(&stderr)
                        ));
                    } else {
                        let si = u64::from_le_bytes(mark[..8].try_into().unwrap());
                        let idx = u64::from_le_bytes(mark[8..16].try_into().unwrap());
                        crashed.push((si - 1, idx, k));
                    }
                }
                Err(e) => error = Some(format!("wait: {e}")),
            }
        }
        children = rest;
        if stalled {
            // What the others do is of no more interest.
            for (_, c) in &mut children {
                let _ = c.kill();
                let _ = c.wait();
            }
            break;
        }
        if !children.is_empty() {
            if started.elapsed() > limit {
                for (k, mut c) in children {
                    let mark = fs::read(tmp.join(format!("p{k}"))).unwrap_or_default();
                    let at = if mark.len() >= 16 {
                        format!(
                            "sub {} case {}",
                            u64::from_le_bytes(mark[..8].try_into().unwrap()),
                            u64::from_le_bytes(mark[8..16].try_into().unwrap())
                        )
                    } else {
                        String::new()
                    };
                    eprintln!("worker {k} exceeded the time limit at {at}");
                    let _ = c.kill();
                    let _ = c.wait();
                }
                error = Some("time limit: inconclusive".into());
                break;
            }
            std::thread::sleep(Duration::from_millis(15));
        }
    }

    // Merge.
    let mut evaluations = regressions;
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut per_sub: BTreeMap<String, (u64, u64, BTreeMap<String, u64>)> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut failures: Vec<Value> = vec![];
    for k in 0..WORKERS {
        let Some(v) = fs::read(tmp.join(format!("o{k}")))
            .ok()
            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        else {
            continue;
        };
        for h in v["hashes"].as_array().unwrap() {
            distinct.insert(h.as_u64().unwrap());
        }
        for s in v["subs"].as_array().unwrap() {
            let e = per_sub
                .entry(s["sub"].as_str().unwrap().to_string())
                .or_default();
            let ev = s["evaluations"].as_u64().unwrap();
            e.0 += ev;
            evaluations += ev;
            e.1 += s["nontrivial"].as_u64().unwrap();
            for (c, n) in s["classes"].as_object().unwrap() {
                *e.2.entry(c.clone()).or_insert(0) += n.as_u64().unwrap();
            }
            for c in s["samples"].as_array().unwrap() {
                let mut text = c.to_string();
                if text.len() > 1500 {
                    let mut cut = 1500;
                    while !text.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    text.truncate(cut);
                    text.push_str("...");
                    samples.push(json!({"sub": s["sub"], "case": text}));
                } else {
                    samples.push(json!({"sub": s["sub"], "case": c}));
                }
            }
            if !s["failure"].is_null() {
                failures.push(s["failure"].clone());
            }
        }
    }

    if violation.is_none() {
        failures.sort_by_key(|f| (f["sub_index"].as_u64(), f["idx"].as_u64()));
        if let Some(f) = failures.first() {
            let idx = f["idx"].as_u64().unwrap();
            let sub = &p.subs[f["sub_index"].as_u64().unwrap() as usize];
            let message = f["message"].as_str().unwrap();
            let cases = [f["case"].clone(), sub.case(seed, idx)];
            let (k, n) = (f["k"].as_u64().unwrap(), f["n"].as_u64().unwrap());
            violation = Some(
                match reproduce(p.id, &**sub, seed, tier, idx, k, n, &cases, message) {
                    Ok(path) => (path, message.to_string()),
                    // It has been seen to fail, if not with what the replay can set up again.
                    Err(path) => (path, format!("{message} (not with every run)")),
                },
            );
        }
    }
    crashed.sort();
    if violation.is_none() {
        if let Some((si, idx, k)) = crashed.first() {
            let sub = &p.subs[*si as usize];
            let msg = if stalled {
                "this case did not end"
            } else {
                "the process crashed (signal) while this case ran"
            };
            let cases = [sub.case(seed, *idx)];
            match reproduce(p.id, &**sub, seed, tier, *idx, *k, WORKERS, &cases, msg) {
                Ok(path) => {
                    let probe = tmp.join("probe.json");
                    let (steps, patience) = if stalled { (12, PATIENCE / 6) } else { (150, PATIENCE) };
                    let mut smaller = false;
                    let case = sub.shrink(seed, *idx, steps, &mut |_, case| {
                        let v = json!({"property": p.id, "sub": sub.name(), "case": case()});
                        fs::write(&probe, v.to_string()).unwrap();
                        let failed = replay_in_child(&probe, patience).is_failure();
                        smaller |= failed;
                        failed
                    });
                    let small = if smaller {
                        write_replay(p.id, seed, *idx, sub.name(), &case, msg, Value::Null)
                    } else {
                        path.clone()
                    };
                    if small != path {
                        let _ = fs::remove_file(&path);
                    }
                    violation = Some((small, msg.into()));
                }
                Err(path) => error = Some(format!("crash did not reproduce from {}", path.display())),
            }
        }
    }

    // A vacuous run decides nothing.
    if violation.is_none() && error.is_none() && std::env::var_os("VERIF_SUB").is_none() {
        for sub in &p.subs {
            let (ev, nt, _) = per_sub.get(sub.name()).cloned().unwrap_or_default();
            if ev != sub.count(tier) {
                error = Some(format!("{}: {} of {} cases run", sub.name(), ev, sub.count(tier)));
            } else if nt == 0 {
                error = Some(format!("{}: no non-trivial case", sub.name()));
            }
        }
    }

    let tier_name = match tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let subs_json: Vec<Value> = p
        .subs
        .iter()
        .map(|s| {
            let (ev, nt, classes) = per_sub.get(s.name()).cloned().unwrap_or_default();
            json!({"sub": s.name(), "evaluations": ev, "nontrivial": nt, "exhaustive": s.exhaustive(),
                   "rule": s.rule(), "classes": classes})
        })
        .collect();
    let rule = p
        .subs
        .iter()
        .map(|s| format!("{}: {}", s.name(), s.rule()))
        .collect::<Vec<_>>()
        .join(" | ");
    let evidence = json!({
        "property": p.id,
        "tier": tier_name,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": rule,
            "samples": samples,
            "sub_checks": subs_json,
            "regression_inputs": regressions,
            "known_findings": known_lines,
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    );
    let _ = fs::remove_dir_all(&tmp);

    if let Some((path, message)) = violation {
        println!("{message}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if let Some(e) = error {
        eprintln!("check error: {e}");
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {:.1} s",
        p.id,
        evaluations,
        distinct.len(),
        started.elapsed().as_secs_f64()
    );
    0
}
