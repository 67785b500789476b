//! Runs the parts of a property: generated cases (proptest, sharded over the cores, with
//! shrinking) or enumerated ones, counting what was covered, and keeps violations as replay
//! files.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a test says about the case it ran.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Further executions the case made besides itself (inner loops).
    pub extra: u64,
}

impl Obs {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Default)]
struct State {
    evaluations: u64,
    extra: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    parts: Vec<Value>,
    /// Names of the parts with generated cases.
    generated: Vec<String>,
    fuzzed: Vec<Value>,
    violations: Vec<(String, PathBuf)>,
    known: BTreeSet<String>,
    errors: Vec<String>,
}

struct Slot {
    started: Option<Instant>,
    clock: Option<i32>,
    cpu0: Duration,
    part: String,
    case: String,
    /// Where the case is noted before it runs, for the parent process to find should this one die.
    trace: Option<std::fs::File>,
}

/// What the trace directory of a process that died says was running.
pub fn traced(root: &std::path::Path, id: &str) -> Vec<Value> {
    let mut out = vec![];
    for k in 0..SLOTS {
        let Ok(t) = std::fs::read(trace_file(root, id, k)) else { continue };
        if t.len() < 8 {
            continue;
        }
        let n = u64::from_le_bytes(t[..8].try_into().unwrap()) as usize;
        if n == 0 {
            continue;
        }
        if let Some(v) = t.get(8..8 + n).and_then(|b| serde_json::from_slice(b).ok()) {
            out.push(v);
        }
    }
    out
}

pub fn trace_file(root: &std::path::Path, id: &str, slot: usize) -> PathBuf {
    root.join("evidence").join("trace").join(format!("{}-{}", id, slot))
}

const SLOTS: usize = 64;

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub root: PathBuf,
    replay: Option<Value>,
    state: Mutex<State>,
    slots: Vec<Arc<Mutex<Slot>>>,
    findings: Vec<String>,
    start: Instant,
    verbose: bool,
    child: bool,
    /// Below 1 for quick looks while developing: that share of the cases. 1 for the checks.
    scale: f64,
    /// While developing: nothing but the coverage-guided search.
    only_guided: bool,
}

/// A case that keeps a processor busy for longer than this does not end: nothing pkstl does here
/// takes a tenth of it. Processor time, so that a loaded machine changes nothing.
const HANG: Duration = Duration::from_secs(150);

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
}

/// The processor time clock of this thread.
fn own_clock() -> Option<i32> {
    let mut c = 0;
    (unsafe { pthread_getcpuclockid(pthread_self(), &mut c) } == 0).then_some(c)
}

fn cpu_time(clock: i32) -> Duration {
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return Duration::ZERO;
    }
    Duration::new(t[0] as u64, t[1] as u32)
}

fn seed32(parts: &[&str], seed: u64, shard: u64) -> [u8; 32] {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p.as_bytes());
        v.push(0);
    }
    v.extend_from_slice(&seed.to_be_bytes());
    v.extend_from_slice(&shard.to_be_bytes());
    crate::refcrypto::sha256(&v)
}

fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, root: PathBuf, replay: Option<Value>) -> Arc<Ctx> {
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(8));
        let findings = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt"))
            .unwrap_or_default()
            .lines()
            .filter(|l| l.starts_with("finding:"))
            .map(|l| l.to_string())
            .collect();
        let ctx = Arc::new(Ctx {
            id: id.to_string(),
            tier,
            seed,
            threads,
            root,
            replay,
            state: Mutex::new(State::default()),
            slots: (0..SLOTS)
                .map(|_| {
                    Arc::new(Mutex::new(Slot {
                        started: None,
                        clock: None,
                        cpu0: Duration::ZERO,
                        part: String::new(),
                        case: String::new(),
                        trace: None,
                    }))
                })
                .collect(),
            findings,
            start: Instant::now(),
            verbose: std::env::var("VERIF_VERBOSE").is_ok(),
            child: std::env::var("VERIF_CHILD").is_ok(),
            scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            only_guided: std::env::var("VERIF_ONLY_GUIDED").is_ok(),
        });
        let c = ctx.clone();
        std::thread::spawn(move || c.watchdog());
        ctx
    }

    fn watchdog(&self) {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &self.slots {
                let s = s.lock().unwrap();
                if let Some(t) = s.started {
                    let used = s.clock.map_or(Duration::ZERO, |c| cpu_time(c).saturating_sub(s.cpu0));
                    if used > HANG {
                        let case: Value = serde_json::from_str(&s.case).unwrap_or(Value::Null);
                        let p = self.write_replay(&s.part, &case, "a call did not return");
                        println!("a case of part {} did not end in {:?} of processor time", s.part, HANG);
                        if self.id == "C07" {
                            // that every call returns is what C07 states
                            println!("VIOLATION property={} replay={}", self.id, p.display());
                            std::process::exit(1);
                        }
                        std::process::exit(2);
                    }
                    if t.elapsed() > Duration::from_secs(800) {
                        eprintln!("check error: a case of part {} did not end", s.part);
                        std::process::exit(2);
                    }
                }
            }
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }

    /// Whether this exact finding is listed; if so it is reported as known.
    pub fn known(&self, key: &str, what: &str) -> bool {
        let tag = format!("property={} key={} ", self.id, key);
        if self.findings.iter().any(|l| l.contains(&tag)) {
            let line = format!("KNOWN-FINDING: property={} {}: {}", self.id, key, what);
            self.state.lock().unwrap().known.insert(line);
            true
        } else {
            false
        }
    }

    pub fn error(&self, what: String) {
        self.state.lock().unwrap().errors.push(what);
    }

    fn write_replay(&self, part: &str, case: &Value, why: &str) -> PathBuf {
        let dir = self.root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let v = json!({
            "property": self.id, "part": part, "case": case, "why": why,
            "seed": self.seed,
            "how": format!("bash check.sh {} --replay <this file>", self.id),
        });
        let h = hash64(&format!("{}{}", part, case));
        let p = dir.join(format!("{}-{}-{:016x}.json", self.id, part, h));
        let _ = std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap());
        p
    }

    fn violation(&self, part: &str, case: Value, why: String) {
        let p = self.write_replay(part, &case, &why);
        println!("property {} part {}: {}", self.id, part, why);
        let shown: String = case.to_string().chars().take(1500).collect();
        println!("  minimal case: {}", shown);
        self.state.lock().unwrap().violations.push((part.to_string(), p));
    }

    fn run_one<C: Serialize>(
        &self,
        part: &str,
        slot: usize,
        case: &C,
        test: &(dyn Fn(&C, &mut Obs) -> Result<(), String> + Sync),
    ) -> (Result<(), String>, Obs, String) {
        let text = serde_json::to_string(case).expect("case to json");
        {
            let mut s = self.slots[slot].lock().unwrap();
            s.started = Some(Instant::now());
            s.clock = own_clock();
            s.cpu0 = s.clock.map_or(Duration::ZERO, cpu_time);
            s.part = part.to_string();
            s.case = text.clone();
            if self.child {
                use std::os::unix::fs::FileExt;
                if s.trace.is_none() {
                    let f = trace_file(&self.root, &self.id, slot);
                    let _ = std::fs::create_dir_all(f.parent().unwrap());
                    s.trace = std::fs::File::create(f).ok();
                }
                if let Some(f) = &s.trace {
                    let v = format!(
                        "{{\"property\":\"{}\",\"part\":\"{}\",\"case\":{}}}",
                        self.id, part, text
                    );
                    let mut b = (v.len() as u64).to_le_bytes().to_vec();
                    b.extend_from_slice(v.as_bytes());
                    let _ = f.write_all_at(&b, 0);
                }
            }
        }
        let mut obs = Obs::default();
        // fast clocks in every second case
        let h = hash64(&text);
        if h & 1 == 0 {
            crate::clock::fast(h);
        }
        let r = match catch_unwind(AssertUnwindSafe(|| test(case, &mut obs))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic outside the calls: {}", crate::sut::last_panic())),
        };
        crate::clock::off();
        crate::entropy::off();
        {
            let mut s = self.slots[slot].lock().unwrap();
            s.started = None;
            if let Some(f) = &s.trace {
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(&[0; 8], 0);
            }
        }
        (r, obs, text)
    }

    /// Cases to run first: those kept in /verif/regress for this part, or the replayed one.
    fn given<C: DeserializeOwned>(&self, part: &str) -> Vec<C> {
        let mut out = Vec::new();
        let mut take = |v: &Value, from: &str| {
            if v["property"] == self.id.as_str() && v["part"] == part {
                match serde_json::from_value(v["case"].clone()) {
                    Ok(c) => out.push(c),
                    Err(e) => self.error(format!("{}: {}", from, e)),
                }
            }
        };
        if let Some(r) = &self.replay {
            take(r, "replay file");
        } else if let Ok(dir) = std::fs::read_dir(self.root.join("regress")) {
            let mut files: Vec<_> = dir.flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                if let Ok(t) = std::fs::read_to_string(&f) {
                    if let Ok(v) = serde_json::from_str::<Value>(&t) {
                        take(&v, &f.display().to_string());
                    }
                }
            }
        }
        out
    }

    fn merge(&self, part: &str, how: &str, local: Vec<Local>, t0: Instant) {
        let mut st = self.state.lock().unwrap();
        let (mut ev, mut ex, mut nt) = (0, 0, HashSet::new());
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        for l in local {
            ev += l.evaluations;
            ex += l.extra;
            nt.extend(l.nontrivial);
            for (k, v) in l.labels {
                *labels.entry(k).or_default() += v;
            }
            if st.samples.iter().filter(|s| s["part"] == part).count() < 2 {
                for s in l.samples {
                    if st.samples.iter().filter(|x| x["part"] == part).count() < 2 {
                        st.samples.push(json!({"part": part, "case": s}));
                    }
                }
            }
        }
        st.evaluations += ev;
        st.extra += ex;
        let n = nt.len();
        st.nontrivial.extend(nt.into_iter().map(|h| hash64(&(part, h))));
        for (k, v) in &labels {
            *st.labels.entry(format!("{}/{}", part, k)).or_default() += v;
        }
        st.parts.push(json!({
            "part": part, "how": how, "evaluations": ev, "distinct_nontrivial": n,
            "inner_executions": ex, "seconds": (t0.elapsed().as_millis() as f64) / 1000.0,
        }));
        if self.verbose {
            println!(
                "  {} {}: {} cases, {} non-trivial, {} inner, {:.1}s {:?}",
                self.id, part, ev, n, ex, t0.elapsed().as_secs_f64(), labels
            );
        }
    }

    fn stop_early(&self) -> bool {
        !self.state.lock().unwrap().violations.is_empty()
    }

    /// Generated cases.
    pub fn prop<S, C>(
        &self,
        part: &str,
        cases: u32,
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        S: Strategy<Value = C>,
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send,
    {
        if let Some(p) = crate::fuzz::part() {
            if p == part {
                self.search(part, &strategy(), &test);
            }
            return;
        }
        if self.stop_early() {
            return;
        }
        // C23 looks at programs of their own, which libFuzzer does not see
        if self.id != "C23" {
            self.state.lock().unwrap().generated.push(part.to_string());
        }
        if self.only_guided {
            return;
        }
        let t0 = Instant::now();
        let mut locals = Vec::new();
        if self.run_given(part, &test, &mut locals) || self.replaying() {
            self.merge(part, "replay", locals, t0);
            return;
        }
        let cases = (cases as f64 * self.scale).ceil() as u32;
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(usize, Value, String)>> = Mutex::new(Vec::new());
        let n = self.threads;
        let more: Vec<Local> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|shard| {
                    let (stop, found, strategy, test) = (&stop, &found, &strategy, &test);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                        let local = std::cell::RefCell::new(Local::default());
                        let share = cases / n as u32 + u32::from((shard as u32) < cases % n as u32);
                        if share == 0 {
                            return local.into_inner();
                        }
                        let rng = TestRng::from_seed(
                            RngAlgorithm::ChaCha,
                            &seed32(&[&self.id, part], self.seed, shard as u64),
                        );
                        let config = Config {
                            cases: share,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 25_000,
                            max_global_rejects: 1 << 20,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let failed = std::cell::Cell::new(false);
                        let res = runner.run(&strategy(), |case| {
                            if !failed.get() && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let (r, obs, text) = self.run_one(part, shard, &case, test);
                            if !failed.get() {
                                local.borrow_mut().add(obs, &text);
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(m) => {
                                    failed.set(true);
                                    stop.store(true, Ordering::Relaxed);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                found.lock().unwrap().push((
                                    shard,
                                    serde_json::to_value(&case).unwrap(),
                                    reason.message().to_string(),
                                ));
                            }
                            Err(TestError::Abort(reason)) => {
                                self.error(format!("part {}: generator gave up: {}", part, reason));
                            }
                        }
                        local.into_inner()
                    })
                    .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        locals.extend(more);
        self.merge(part, "generated", locals, t0);
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| (x.1.to_string().len(), x.0));
        if let Some((_, case, why)) = f.into_iter().next() {
            self.violation(part, case, why);
        }
    }

    /// The choices of the generator are made by libFuzzer.
    fn search<S, C>(&self, part: &str, strategy: &S, test: &(dyn Fn(&C, &mut Obs) -> Result<(), String> + Sync))
    where
        S: Strategy<Value = C>,
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send,
    {
        let mut local = Local::default();
        let mut last = Instant::now();
        let file = self.root.join("counts.json");
        crate::fuzz::drive(&self.root, self.seed, |data| {
            let rng = TestRng::from_seed(RngAlgorithm::PassThrough, data);
            let config = Config {
                failure_persistence: None,
                max_shrink_iters: 3000,
                max_shrink_time: 25_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, rng);
            let Ok(tree) = strategy.new_tree(&mut runner) else { return };
            let (r, obs, text) = self.run_one(part, 0, &tree.current(), test);
            local.add(obs, &text);
            local.samples.clear();
            if last.elapsed() > Duration::from_secs(2) {
                last = Instant::now();
                let v = json!({"evaluations": local.evaluations, "distinct_nontrivial": local.nontrivial.len(), "inner_executions": local.extra});
                let _ = std::fs::write(&file, v.to_string());
            }
            if r.is_err() {
                let res = runner.run_one(tree, |c| {
                    match self.run_one(part, 0, &c, test).0 {
                        Ok(()) => Ok(()),
                        Err(m) => Err(TestCaseError::fail(m)),
                    }
                });
                if let Err(TestError::Fail(why, c)) = res {
                    self.violation(part, serde_json::to_value(&c).unwrap(), why.message().to_string());
                    std::process::exit(1);
                }
            }
        });
    }

    /// In the thorough tier every part with generated cases is searched with coverage guidance too.
    fn search_all(&self) {
        if self.quick() || self.replaying() || self.stop_early() || crate::fuzz::part().is_some() {
            return;
        }
        let parts = self.state.lock().unwrap().generated.clone();
        let total = std::env::var("VERIF_FUZZ_TOTAL").ok().and_then(|s| s.parse().ok()).unwrap_or(300);
        for d in crate::fuzz::campaigns(&self.root, &self.id, &parts, self.seed, self.threads, total) {
            let mut st = self.state.lock().unwrap();
            st.evaluations += d.stats["counts"]["evaluations"].as_u64().unwrap_or(0);
            st.extra += d.stats["counts"]["inner_executions"].as_u64().unwrap_or(0);
            if self.verbose {
                println!("  {}", d.stats);
            }
            st.fuzzed.push(d.stats);
            drop(st);
            let Some(mut v) = d.failed.filter(|_| !self.stop_early()) else { continue };
            // again, in the ordinary build
            v["property"] = self.id.clone().into();
            let f = self.write_replay(&d.part, &v["case"], v["why"].as_str().unwrap_or("the process died"));
            let st = std::process::Command::new(std::env::current_exe().expect("own path"))
                .args([&self.id, "--replay", &f.display().to_string()])
                .env_remove("VERIF_CHILD")
                .env("VERIF_ROOT", &self.root)
                .status();
            if st.ok().and_then(|s| s.code()) == Some(1) {
                self.state.lock().unwrap().violations.push((d.part, f));
            } else {
                println!("note: a failure in the instrumented build does not repeat in the ordinary one: {}", f.display());
            }
        }
    }

    /// Enumerated cases, simplest first: the first failing one in the list is reported.
    pub fn each<C>(
        &self,
        part: &str,
        cases: Vec<C>,
        test: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + Sync,
    {
        if self.stop_early() || crate::fuzz::part().is_some() || self.only_guided {
            return;
        }
        let t0 = Instant::now();
        let mut locals = Vec::new();
        if self.run_given(part, &test, &mut locals) || self.replaying() {
            self.merge(part, "replay", locals, t0);
            return;
        }
        let mut cases = cases;
        if self.scale < 1.0 && cases.len() > 60 {
            let every = (1.0 / self.scale) as usize;
            cases = cases.into_iter().step_by(every.max(1)).collect();
        }
        let next = AtomicUsize::new(0);
        let first_bad = AtomicUsize::new(usize::MAX);
        let found: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
        let more: Vec<Local> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..self.threads)
                .map(|shard| {
                    let (next, first_bad, found, cases, test) =
                        (&next, &first_bad, &found, &cases, &test);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                        let mut local = Local::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= cases.len() || i > first_bad.load(Ordering::Relaxed) {
                                return local;
                            }
                            let (r, obs, text) = self.run_one(part, shard, &cases[i], test);
                            local.add(obs, &text);
                            if let Err(m) = r {
                                first_bad.fetch_min(i, Ordering::Relaxed);
                                found.lock().unwrap().insert(i, m);
                            }
                        }
                    })
                    .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        locals.extend(more);
        self.merge(part, "enumerated", locals, t0);
        if let Some((i, why)) = found.into_inner().unwrap().into_iter().next() {
            self.violation(part, serde_json::to_value(&cases[i]).unwrap(), why);
        }
    }

    /// Runs the given cases; true if one failed.
    fn run_given<C: Serialize + DeserializeOwned>(
        &self,
        part: &str,
        test: &(dyn Fn(&C, &mut Obs) -> Result<(), String> + Sync),
        locals: &mut Vec<Local>,
    ) -> bool {
        let mut local = Local::default();
        let mut bad = false;
        for c in self.given::<C>(part) {
            let (r, obs, text) = self.run_one(part, self.threads, &c, test);
            local.add(obs, &text);
            if let Err(m) = r {
                self.violation(part, serde_json::to_value(&c).unwrap(), m);
                bad = true;
                break;
            }
        }
        locals.push(local);
        bad
    }

    /// Writes the evidence and gives the exit code.
    pub fn finish(&self, rule: &str, level: &str, assumptions: &[&str]) -> i32 {
        if let Some(p) = crate::fuzz::part() {
            eprintln!("check error: no part {}", p);
            return 2;
        }
        self.search_all();
        let st = self.state.lock().unwrap();
        for k in &st.known {
            println!("{}", k);
        }
        if !self.replaying() {
            let ev = json!({
                "property": self.id,
                "tier": if self.quick() { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": level,
                "coverage": {
                    "evaluations": st.evaluations,
                    "distinct_nontrivial": st.nontrivial.len(),
                    "inner_executions": st.extra,
                    "rule": rule,
                    "samples": st.samples,
                    "parts": st.parts,
                    "classes": st.labels,
                    "coverage_guided": st.fuzzed,
                    "known_findings": st.known,
                },
                "assumptions": assumptions,
                "wall_s": (self.start.elapsed().as_millis() as f64) / 1000.0,
                "violations": st.violations.len(),
            });
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_vec_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        println!(
            "{}: {} cases ({} distinct non-trivial), {} inner executions, {:.1} s",
            self.id,
            st.evaluations,
            st.nontrivial.len(),
            st.extra,
            self.start.elapsed().as_secs_f64()
        );
        if let Some((_, p)) = st.violations.first() {
            println!("VIOLATION property={} replay={}", self.id, p.display());
            return 1;
        }
        if !st.errors.is_empty() {
            for e in &st.errors {
                eprintln!("check error: {}", e);
            }
            return 2;
        }
        if self.replaying() && st.evaluations == 0 {
            eprintln!("check error: the replay file names no part of {}", self.id);
            return 2;
        }
        0
    }
}

#[derive(Default)]
struct Local {
    evaluations: u64,
    extra: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

impl Local {
    fn add(&mut self, obs: Obs, text: &str) {
        self.evaluations += 1;
        self.extra += obs.extra;
        for l in obs.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if obs.nontrivial {
            self.nontrivial.insert(hash64(text));
            if self.samples.len() < 2 && text.len() < 3000 {
                self.samples.push(serde_json::from_str(text).unwrap_or(Value::Null));
            }
        }
    }
}
