//! Generic driver: generates cases, runs them on all cores, shrinks the first
//! failure, writes the replay file and the evidence file.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// held; nontrivial?, labels describing what the case exercised
    Pass(bool, Vec<String>),
    Fail(String),
    /// a hang or other outcome that could in principle be the machine's fault;
    /// only believed when it is reproduced
    Suspect(String),
    /// the harness itself could not run the case
    Error(String),
}
impl Verdict {
    pub fn ok() -> Verdict {
        Verdict::Pass(true, vec![])
    }
}

pub trait Prop: Send + Sync + 'static {
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> u64;
    /// Explicit cases always run first (regressions, systematically enumerated ones).
    fn fixed(&self, _tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn exec(&self, case: &Self::Case) -> Verdict;
    /// Runs inside the child process (properties which use one)
    fn child(&self, _case: &Self::Case) -> Result<(bool, Vec<String>), String> {
        unimplemented!()
    }
    fn workers(&self) -> usize {
        8
    }
    /// Is this (shrunk) case within the domain of the property?
    fn valid(&self, _case: &Self::Case) -> bool {
        true
    }
    /// How often a failing case is tried again
    fn rechecks(&self) -> u32 {
        16
    }
    fn shrink_secs(&self) -> u64 {
        60
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn exhaustive(&self) -> bool {
        false
    }
    /// extra evaluations performed by one case beyond 1 (e.g. crash points)
    fn weight(&self, _case: &Self::Case) -> u64 {
        1
    }
}

pub trait DynProp: Send + Sync {
    fn id(&self) -> &'static str;
    fn check(self: Arc<Self>, tier: Tier, seed: u64) -> i32;
    fn replay(&self, json: &serde_json::Value) -> i32;
    fn child_run(&self, json: &serde_json::Value) -> Result<(bool, Vec<String>), String>;
    fn sample(&self, n: usize, seed: u64);
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

fn rng_for(seed: u64, id: &str, shard: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&shard.to_le_bytes());
    for (i, b) in id.bytes().enumerate().take(16) {
        bytes[16 + i] = b;
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}
fn runner_for(seed: u64, id: &str, shard: u64) -> TestRunner {
    let mut c = Config::default();
    c.failure_persistence = None;
    c.max_local_rejects = 1_000_000;
    TestRunner::new_with_rng(c, rng_for(seed, id, shard))
}
fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Shared<C> {
    evals: AtomicU64,
    weight: AtomicU64,
    errors: Mutex<Vec<String>>,
    stop: AtomicBool,
    failure: Mutex<Option<(C, String)>>,
    seen: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    suspects: AtomicU64,
}

/// Is this the finding recorded (and not repaired) under known-findings.txt?
fn known(id: &str, what: &str) -> bool {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    text.lines().any(|l| l.strip_prefix("finding: property=").and_then(|l| l.strip_prefix(id)).map_or(false, |l| l.trim() == what))
}

/// Run a case; suspects are confirmed by re-running.
fn judged<P: Prop + ?Sized>(p: &P, case: &P::Case, suspects: &AtomicU64) -> Verdict
where
    P: Sized,
{
    let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.exec(case))) {
        Ok(v) => v,
        Err(e) => Verdict::Fail(format!("panic: {}", panic_text(&e))),
    };
    match v {
        // the case failed in exactly the way of a finding: is it one that's listed?
        Verdict::Pass(nt, l) => match l.iter().find_map(|x| x.strip_prefix("known:").filter(|x| !known(p.id(), x))) {
            Some(x) => Verdict::Fail(x.to_string()),
            None => Verdict::Pass(nt, l),
        },
        Verdict::Suspect(first) => {
            suspects.fetch_add(1, Ordering::Relaxed);
            // one retry is enough to reproduce a deterministic hang; two out of three must agree
            let mut bad = 1;
            let mut last = first;
            for _ in 0..2 {
                match p.exec(case) {
                    Verdict::Suspect(m) => {
                        bad += 1;
                        last = m;
                    }
                    Verdict::Fail(m) => return Verdict::Fail(m),
                    _ => (),
                }
                if bad >= 2 {
                    return Verdict::Fail(format!("{last} (reproduced)"));
                }
            }
            Verdict::Pass(false, vec!["unreproduced-suspect".into()])
        }
        Verdict::Error(first) => match p.exec(case) {
            Verdict::Error(m) => Verdict::Error(format!("{first} / {m}")),
            Verdict::Suspect(_) => judged(p, case, suspects),
            v => v,
        },
        // A failure counts if it ever comes back: what the harness sees of other
        // threads can be wrong on a busy machine, about once in 10^4 cases.
        Verdict::Fail(first) => {
            for _ in 0..p.rechecks() {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.exec(case))) {
                    Ok(Verdict::Fail(m)) => return Verdict::Fail(m),
                    Ok(_) => (),
                    Err(_) => return Verdict::Fail(first),
                }
            }
            eprintln!("not reproduced in {} attempts: {first}", p.rechecks());
            suspects.fetch_add(1, Ordering::Relaxed);
            Verdict::Pass(false, vec!["unreproduced-failure".into()])
        }
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_else(|| "(non-string panic)".into())
}

fn record<P: Prop>(p: &P, sh: &Shared<P::Case>, case: &P::Case, nontrivial: bool, labels: Vec<String>) {
    sh.evals.fetch_add(1, Ordering::Relaxed);
    sh.weight.fetch_add(p.weight(case), Ordering::Relaxed);
    if !labels.is_empty() {
        let mut l = sh.labels.lock().unwrap();
        for x in labels {
            *l.entry(x).or_insert(0) += 1;
        }
    }
    if nontrivial {
        let js = serde_json::to_string(case).unwrap();
        let h = hash_str(&js);
        let fresh = sh.seen.lock().unwrap().insert(h);
        if fresh {
            let mut s = sh.samples.lock().unwrap();
            if s.len() < 4 && js.len() < 4000 {
                s.push(serde_json::to_value(case).unwrap());
            }
        }
    }
}

fn shrink<P: Prop>(
    p: &P,
    mut tree: Box<dyn ValueTree<Value = P::Case>>,
    mut msg: String,
    suspects: &AtomicU64,
) -> (P::Case, String) {
    let start = Instant::now();
    let mut best = tree.current();
    let limit = Duration::from_secs(p.shrink_secs() / 3);
    let mut tries = 0;
    let go = tree.simplify();
    while go && start.elapsed() < limit && tries < 3000 {
        tries += 1;
        let cur = tree.current();
        match judged(p, &cur, suspects) {
            Verdict::Fail(m) => {
                best = cur;
                msg = m;
                if !tree.simplify() {
                    break;
                }
            }
            _ => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    // then remove whatever can be removed, by way of the serialised form
    let limit = Duration::from_secs(p.shrink_secs());
    let mut v = serde_json::to_value(&best).unwrap();
    let mut progress = true;
    while progress && start.elapsed() < limit {
        progress = false;
        let mut paths = vec![];
        removable(&v, &mut vec![], &mut paths);
        for path in paths {
            let mut chunk = remove_len(&v, &path);
            while chunk > 0 {
                let mut at = 0;
                while at < remove_len(&v, &path) && start.elapsed() < limit {
                    let mut w = v.clone();
                    remove_at(&mut w, &path, at, chunk);
                    let ok = match serde_json::from_value::<P::Case>(w.clone()) {
                        Ok(c) if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.valid(&c))).unwrap_or(false) => match judged(p, &c, suspects) {
                            // (the harness itself may panic on senseless cases)
                            Verdict::Fail(m) if m.contains("calling thread") == msg.contains("calling thread") => {
                                best = c;
                                msg = m;
                                true
                            }
                            _ => false,
                        },
                        _ => false,
                    };
                    if ok {
                        v = w;
                        progress = true;
                    } else {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
        }
    }
    (best, msg)
}
#[derive(Clone)]
enum Step {
    Key(String),
    Idx(usize),
}
/// Paths of all arrays and strings, outermost first
fn removable(v: &serde_json::Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        serde_json::Value::Array(a) => {
            out.push(here.clone());
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                removable(x, here, out);
                here.pop();
            }
        }
        serde_json::Value::Object(m) => {
            for (k, x) in m {
                here.push(Step::Key(k.clone()));
                removable(x, here, out);
                here.pop();
            }
        }
        serde_json::Value::String(_) => out.push(here.clone()),
        _ => (),
    }
}
fn lookup<'a>(v: &'a serde_json::Value, path: &[Step]) -> Option<&'a serde_json::Value> {
    path.iter().try_fold(v, |v, s| match s {
        Step::Key(k) => v.get(k),
        Step::Idx(i) => v.get(*i),
    })
}
fn remove_len(v: &serde_json::Value, path: &[Step]) -> usize {
    match lookup(v, path) {
        Some(serde_json::Value::Array(a)) => a.len(),
        Some(serde_json::Value::String(s)) => s.chars().count(),
        _ => 0,
    }
}
fn remove_at(v: &mut serde_json::Value, path: &[Step], at: usize, n: usize) {
    let t = path.iter().try_fold(v, |v, s| match s {
        Step::Key(k) => v.get_mut(k),
        Step::Idx(i) => v.get_mut(*i),
    });
    match t {
        Some(serde_json::Value::Array(a)) => {
            let end = (at + n).min(a.len());
            a.drain(at..end);
        }
        Some(serde_json::Value::String(s)) => {
            *s = s.chars().enumerate().filter(|(i, _)| *i < at || *i >= at + n).map(|x| x.1).collect();
        }
        _ => (),
    }
}

pub struct Wrap<P: Prop>(pub P);

impl<P: Prop> DynProp for Wrap<P> {
    fn id(&self) -> &'static str {
        self.0.id()
    }
    fn child_run(&self, json: &serde_json::Value) -> Result<(bool, Vec<String>), String> {
        let case: P::Case = serde_json::from_value(json.clone()).map_err(|e| format!("bad case: {e}"))?;
        self.0.child(&case)
    }
    fn sample(&self, n: usize, seed: u64) {
        let mut r = runner_for(seed, self.0.id(), 0);
        let s = self.0.strategy(Tier::Quick);
        for _ in 0..n {
            println!("{}", serde_json::to_string(&s.new_tree(&mut r).unwrap().current()).unwrap());
        }
    }
    fn replay(&self, json: &serde_json::Value) -> i32 {
        let case: P::Case = match serde_json::from_value(json.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("bad replay case: {e}");
                return 2;
            }
        };
        let sus = AtomicU64::new(0);
        match judged(&self.0, &case, &sus) {
            Verdict::Pass(nt, l) => {
                println!("replay: held (nontrivial={nt}, labels={l:?})");
                0
            }
            Verdict::Fail(m) => {
                println!("replay: FAILED: {m}");
                1
            }
            Verdict::Suspect(m) | Verdict::Error(m) => {
                println!("replay: error: {m}");
                2
            }
        }
    }
    fn check(self: Arc<Self>, tier: Tier, seed: u64) -> i32 {
        let t0 = Instant::now();
        let id = self.0.id();
        let evfile = verif_dir().join("evidence").join(format!("{id}.json"));
        let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
        let _ = std::fs::remove_file(&evfile);
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
        let total = ((self.0.cases(tier) as f64) * scale).ceil() as u64;
        let workers = self.0.workers().max(1);
        let sh: Arc<Shared<P::Case>> = Arc::new(Shared {
            evals: AtomicU64::new(0),
            weight: AtomicU64::new(0),
            errors: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            failure: Mutex::new(None),
            seen: Mutex::new(HashSet::new()),
            labels: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            suspects: AtomicU64::new(0),
        });
        // regression corpus: committed cases
        let mut fixed = vec![];
        if let Ok(rd) = std::fs::read_dir(verif_dir().join("corpus").join(id)) {
            let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                if f.extension().map(|x| x == "json").unwrap_or(false) {
                    let v: serde_json::Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                        Some(v) => v,
                        None => {
                            eprintln!("unreadable corpus file {f:?}");
                            return 2;
                        }
                    };
                    let v = v.get("case").cloned().unwrap_or(v);
                    match serde_json::from_value::<P::Case>(v) {
                        Ok(c) => fixed.push(c),
                        Err(e) => {
                            eprintln!("bad corpus file {f:?}: {e}");
                            return 2;
                        }
                    }
                }
            }
        }
        let n_corpus = fixed.len();
        fixed.extend(self.0.fixed(tier));
        let n_fixed = fixed.len();
        let fixed = Arc::new(Mutex::new(fixed.into_iter()));
        let mut threads = vec![];
        for w in 0..workers {
            let me = self.clone();
            let sh = sh.clone();
            let fixed = fixed.clone();
            let mine = total / workers as u64 + if (w as u64) < total % workers as u64 { 1 } else { 0 };
            threads.push(
                std::thread::Builder::new()
                    .name(format!("gen-{w}"))
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let p = &me.0;
                        loop {
                            if sh.stop.load(Ordering::Relaxed) {
                                return;
                            }
                            let Some(c) = fixed.lock().unwrap().next() else { break };
                            match judged(p, &c, &sh.suspects) {
                                Verdict::Pass(nt, l) => record(p, &sh, &c, nt, l),
                                Verdict::Fail(m) => {
                                    sh.stop.store(true, Ordering::Relaxed);
                                    sh.failure.lock().unwrap().get_or_insert((c, m));
                                    return;
                                }
                                Verdict::Suspect(m) | Verdict::Error(m) => sh.errors.lock().unwrap().push(m),
                            }
                        }
                        let mut runner = runner_for(seed, p.id(), w as u64);
                        let strat = p.strategy(tier);
                        for _ in 0..mine {
                            if sh.stop.load(Ordering::Relaxed) {
                                return;
                            }
                            let tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    sh.errors.lock().unwrap().push(format!("generator: {e}"));
                                    return;
                                }
                            };
                            let c = tree.current();
                            match judged(p, &c, &sh.suspects) {
                                Verdict::Pass(nt, l) => record(p, &sh, &c, nt, l),
                                Verdict::Fail(m) => {
                                    if sh.stop.swap(true, Ordering::Relaxed) {
                                        return;
                                    }
                                    let (c, m) = shrink(p, Box::new(tree), m, &sh.suspects);
                                    sh.failure.lock().unwrap().get_or_insert((c, m));
                                    return;
                                }
                                Verdict::Suspect(m) | Verdict::Error(m) => {
                                    let mut e = sh.errors.lock().unwrap();
                                    e.push(m);
                                    if e.len() > 20 {
                                        sh.stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    })
                    .unwrap(),
            );
        }
        let mut harness_panic = false;
        for t in threads {
            if let Err(e) = t.join() {
                eprintln!("harness panic: {}", panic_text(&e));
                harness_panic = true;
            }
        }
        let failure = sh.failure.lock().unwrap().take();
        let errors = sh.errors.lock().unwrap().clone();
        let mut violations = 0;
        let mut code = 0;
        if let Some((c, m)) = failure {
            violations = 1;
            code = 1;
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{id}-{:016x}.json", hash_str(&serde_json::to_string(&c).unwrap())));
            let v = serde_json::json!({"property": id, "message": m, "case": serde_json::to_value(&c).unwrap()});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            println!("property {id}: {m}");
            let js = serde_json::to_string(&c).unwrap();
            println!("minimal case: {}", js.chars().take(3000).collect::<String>());
            println!("VIOLATION property={id} replay={}", path.display());
        }
        for l in sh.labels.lock().unwrap().keys() {
            if let Some(x) = l.strip_prefix("known:") {
                println!("KNOWN-FINDING: property={id} {x}");
            }
        }
        let evals = sh.evals.load(Ordering::Relaxed);
        let weight = sh.weight.load(Ordering::Relaxed);
        let mut cov = serde_json::json!({
            "evaluations": evals,
            "distinct_nontrivial": sh.seen.lock().unwrap().len(),
            "rule": self.0.rule(),
            "samples": *sh.samples.lock().unwrap(),
            "corpus_cases": n_corpus,
            "enumerated_cases": n_fixed - n_corpus,
            "exercised": *sh.labels.lock().unwrap(),
        });
        if weight != evals {
            cov["elementary_checks"] = weight.into();
        }
        if self.0.exhaustive() {
            cov["exhaustive"] = true.into();
        }
        let s = sh.suspects.load(Ordering::Relaxed);
        if s > 0 {
            cov["suspects_rerun"] = s.into();
        }
        if !errors.is_empty() {
            cov["harness_errors"] = errors.len().into();
        }
        let ev = serde_json::json!({
            "property": id,
            "tier": tier.pick("quick", "thorough"),
            "seed": seed,
            "level": self.0.level(),
            "coverage": cov,
            "assumptions": self.0.assumptions(),
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        if std::fs::write(&evfile, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            eprintln!("could not write {evfile:?}");
            return 2;
        }
        println!(
            "{id}: {evals} cases ({} distinct non-trivial), {violations} violations, {} harness errors, {:.1}s",
            cov_count(&ev),
            errors.len(),
            t0.elapsed().as_secs_f64()
        );
        if code == 0 && (harness_panic || errors.len() as u64 > 3.max(evals / 100)) {
            for e in errors.iter().take(5) {
                eprintln!("harness error: {e}");
            }
            code = 2;
        }
        code
    }
}
fn cov_count(ev: &serde_json::Value) -> u64 {
    ev["coverage"]["distinct_nontrivial"].as_u64().unwrap_or(0)
}

// ------------------------------------------------- code that might not end

/// How long a case run by `guarded` may take.
const CASE_LIMIT: Duration = Duration::from_secs(10);
/// How much memory it may hold at any time.
const CASE_MEMORY: isize = 256 << 20;

thread_local! {
    /// bytes held by this thread, if it is one of `guarded`'s
    static HELD: Cell<Option<isize>> = const { Cell::new(None) };
    static RUNNER: RefCell<Option<Runner>> = const { RefCell::new(None) };
}

/// Counts the memory held by the threads of `guarded`. One that holds too much
/// goes no further, and counts as one that doesn't end.
pub struct Counted;
#[global_allocator]
static ALLOCATOR: Counted = Counted;
fn held(delta: isize) {
    let _ = HELD.try_with(|h| {
        if let Some(n) = h.get() {
            h.set(Some(n + delta));
            if delta > 0 && n + delta > CASE_MEMORY {
                loop {
                    std::thread::sleep(Duration::from_secs(3600));
                }
            }
        }
    });
}
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        held(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        held(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        held(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        held(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

type Job = Box<dyn FnOnce() -> Verdict + Send>;
struct Runner {
    jobs: Sender<Job>,
    verdicts: Receiver<Verdict>,
}
impl Runner {
    fn new() -> Runner {
        let (jobs, rx) = channel::<Job>();
        let (tx, verdicts) = channel();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                while let Ok(j) = rx.recv() {
                    HELD.with(|h| h.set(Some(0)));
                    let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)) {
                        Ok(v) => v,
                        Err(e) => Verdict::Fail(format!("panic: {}", panic_text(&e))),
                    };
                    HELD.with(|h| h.set(None));
                    if tx.send(v).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
        Runner { jobs, verdicts }
    }
}

/// Run a case in this process, but on a thread that is left behind if it
/// doesn't come to an end.
pub fn guarded<C: Clone + Send + 'static>(case: &C, run: fn(&C) -> Result<(bool, Vec<String>), String>) -> Verdict {
    let case = case.clone();
    let job: Job = Box::new(move || match run(&case) {
        Ok((nt, l)) => Verdict::Pass(nt, l),
        Err(m) => Verdict::Fail(m),
    });
    RUNNER.with(|r| {
        let mut r = r.borrow_mut();
        let runner = r.get_or_insert_with(Runner::new);
        let _ = runner.jobs.send(job);
        match runner.verdicts.recv_timeout(CASE_LIMIT) {
            Ok(v) => v,
            Err(_) => {
                *r = None;
                Verdict::Suspect(format!("no end within {} s, or more than {} MB of memory held", CASE_LIMIT.as_secs(), CASE_MEMORY >> 20))
            }
        }
    })
}
