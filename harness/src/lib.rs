//! Monitors, case runner and evidence writer shared by all checks

pub mod alloc;
pub mod rng;
pub use rng::Rng;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;

/// Machine precision
pub const EPS: f64 = f64::EPSILON;

/// CPU seconds after which a single case is declared non-terminating
const CASE_CPU_LIMIT: f64 = 120.0;

const MAX_REPORTED: usize = 20;

/// Writes a verdict line; the code under test may print to the standard output, so the
/// runner script hands over a separate descriptor
fn say_line(line: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    if std::env::var_os("VERIF_FD3").is_some() {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(3) });
        let _ = writeln!(f, "{}", line);
    } else {
        println!("{}", line);
    }
}

macro_rules! say {
    ($($t:tt)*) => { say_line(&format!($($t)*)) };
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "unknown payload".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} (at {})", msg, loc));
    }));
}

/// Runs a closure and returns the panic message in case of unwinding
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

/// Holds the observations of one case
pub struct Case {
    pub rng: Rng,
    pub index: usize,
    pub thorough: bool,
    known: Arc<HashSet<String>>,
    desc: String,
    decisions: u64,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    keys: Vec<(u64, String)>,
    failures: Vec<String>,
    known_hits: Vec<String>,
    memory_only: bool,
}

impl Case {
    fn new(seed: u64, label: &str, index: usize, thorough: bool, known: Arc<HashSet<String>>, memory_only: bool) -> Case {
        let key = format!("{}/{}/{}", seed, label, index);
        Case {
            rng: Rng::new(rng::hash_bytes(key.as_bytes())),
            index,
            thorough,
            known,
            desc: String::new(),
            decisions: 0,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            keys: Vec::new(),
            failures: Vec::new(),
            known_hits: Vec::new(),
            memory_only,
        }
    }
    /// Describes the generated input (for samples, replays and the distinct count)
    pub fn input(&mut self, desc: String) {
        let h = rng::hash_bytes(desc.as_bytes());
        self.keys.push((h, if self.memory_only { String::new() } else { desc.clone() }));
        self.desc = desc;
    }
    /// Describes the input without counting it as non-trivial
    pub fn note(&mut self, desc: String) {
        self.desc = desc;
    }
    /// Adds to the description of the input
    pub fn more(&mut self, desc: String) {
        self.desc.push_str(" | ");
        self.desc.push_str(&desc);
    }
    pub fn count(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, name: &'static str, n: usize) {
        *self.counters.entry(name).or_insert(0) += n as u64;
    }
    /// Keeps the largest value seen (margin reporting)
    pub fn max(&mut self, name: &'static str, value: f64) {
        let e = self.maxima.entry(name).or_insert(0.0);
        if value > *e {
            *e = value;
        }
    }
    /// Returns a path for a file private to this worker thread
    pub fn scratch(&self, name: &str) -> std::path::PathBuf {
        let base = std::env::var("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let tid = format!("{:?}", std::thread::current().id());
        let digits: String = tid.chars().filter(|c| c.is_ascii_digit()).collect();
        let dir = base.join(format!("verif-{}-{}", std::process::id(), digits));
        let _ = std::fs::create_dir_all(&dir);
        dir.join(name)
    }
    pub fn fail(&mut self, msg: String) {
        self.decisions += 1;
        self.push_failure(msg);
    }
    /// Observers of memory leave the results to the checks of the other properties
    fn push_failure(&mut self, msg: String) {
        if !self.memory_only && self.failures.len() < 5 {
            self.failures.push(msg);
        }
    }
    pub fn failed(&self) -> bool {
        !self.failures.is_empty()
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.decisions += 1;
        if !ok && self.failures.len() < 5 {
            self.push_failure(msg());
        }
        ok
    }
    /// Checks |got - want| <= tol (NaN fails)
    pub fn close(&mut self, what: &'static str, got: f64, want: f64, tol: f64) -> bool {
        let err = f64::abs(got - want);
        let ok = err <= tol || got == want;
        if tol > 0.0 && tol.is_finite() && err.is_finite() {
            self.max(what, err / tol);
        }
        self.check(ok, || format!("{}: got {:e}, want {:e}, error {:e} > {:e}", what, got, want, err, tol))
    }
    pub fn close_slice(&mut self, what: &'static str, got: &[f64], want: &[f64], tol: f64) -> bool {
        if got.len() != want.len() {
            self.fail(format!("{}: length {} != {}", what, got.len(), want.len()));
            return false;
        }
        let mut worst = 0.0;
        let mut at = usize::MAX;
        for i in 0..got.len() {
            let e = f64::abs(got[i] - want[i]);
            if got[i] == want[i] {
                continue;
            }
            if !(e <= tol) {
                at = i;
                worst = e;
                break;
            }
            if e > worst {
                worst = e;
            }
        }
        if at == usize::MAX && tol > 0.0 {
            self.max(what, worst / tol);
        }
        self.check(at == usize::MAX, || {
            format!("{}[{}]: got {:e}, want {:e}, error {:e} > {:e}", what, at, got[at], want[at], worst, tol)
        })
    }
    /// Result must be Ok
    pub fn ok<T, E: std::fmt::Display>(&mut self, what: &str, r: Result<T, E>) -> Option<T> {
        self.decisions += 1;
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.push_failure(format!("{}: unexpected error: {}", what, e));
                None
            }
        }
    }
    /// Result must be Err
    pub fn err<T, E>(&mut self, what: &str, r: Result<T, E>) -> bool {
        self.decisions += 1;
        let bad = r.is_ok();
        if bad {
            self.push_failure(format!("{}: error expected, but Ok returned", what));
        }
        !bad
    }
    /// Probe of one exact input: a failure is a violation unless listed as a known finding under key
    pub fn probe(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.decisions += 1;
        if !ok {
            if self.known.contains(key) {
                self.known_hits.push(format!("[{}] {}", key, msg()));
            } else {
                self.push_failure(format!("[{}] {}", key, msg()));
            }
        }
    }
}

/// Collects the observations of a check
pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    jobs: usize,
    replay: Option<(String, usize)>,
    known: Arc<HashSet<String>>,
    start: Instant,
    evaluations: u64,
    decisions: u64,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<(String, usize, String, String)>, // label, index, desc, msg
    known_hits: Vec<String>,
    labels: Vec<(String, u64)>,
    required: Vec<(&'static str, u64)>,
    assumptions: Vec<String>,
    rule: String,
    level: &'static str,
    child: Option<Child>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        sec: i64,
        nsec: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut ts = Ts { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(3, &mut ts); // CLOCK_THREAD_CPUTIME_ID
    }
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

/// Reads the CPU clock of another thread, given its kernel id
fn cpu_of(clock: i32) -> Option<f64> {
    #[repr(C)]
    struct Ts {
        sec: i64,
        nsec: i64,
    }
    unsafe extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut ts = Ts { sec: 0, nsec: 0 };
    let r = unsafe { clock_gettime(clock, &mut ts) };
    if r == 0 { Some(ts.sec as f64 + ts.nsec as f64 * 1e-9) } else { None }
}

fn my_cpu_clock() -> i32 {
    unsafe extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    }
    let mut id = 0;
    unsafe {
        if pthread_getcpuclockid(pthread_self(), &mut id) != 0 {
            return 0;
        }
    }
    id
}

struct Slot {
    clock: i32,
    start_cpu: f64,
    index: usize,
}

impl Ctx {
    /// Parses the command line: <ID> [--replay LABEL INDEX]
    pub fn from_args() -> Ctx {
        install_panic_hook();
        let args: Vec<String> = std::env::args().collect();
        let id = args.get(1).cloned().unwrap_or_default();
        let mut replay = None;
        if args.len() >= 5 && args[2] == "--replay" {
            replay = Some((args[3].clone(), args[4].parse().expect("replay index")));
        }
        let seed: u64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .unwrap_or(1) as u64;
        let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
        let jobs = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let mut known = HashSet::new();
        if let Ok(path) = std::env::var("VERIF_KNOWN") {
            if let Ok(text) = std::fs::read_to_string(&path) {
                for line in text.lines() {
                    // known: property=C19 key=<key> text
                    if let Some(rest) = line.strip_prefix("known: property=") {
                        let mut it = rest.split_whitespace();
                        let p = it.next().unwrap_or("");
                        let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("");
                        if p == id && !k.is_empty() {
                            known.insert(k.to_string());
                        }
                    }
                }
            }
        }
        Ctx {
            id,
            seed,
            thorough,
            jobs: if replay.is_some() { 1 } else { jobs },
            replay,
            known: Arc::new(known),
            start: Instant::now(),
            evaluations: 0,
            decisions: 0,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            known_hits: Vec::new(),
            labels: Vec::new(),
            required: Vec::new(),
            assumptions: Vec::new(),
            rule: String::new(),
            level: "exploration",
            child: Child::from_env(),
        }
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }
    pub fn is_child(&self) -> bool {
        self.child.is_some()
    }
    /// Returns the label and index of the case to be replayed
    pub fn replayed(&self) -> Option<(String, usize)> {
        self.replay.clone()
    }
    /// Adds a violation observed by an outer monitor
    pub fn outer_violation(&mut self, label: &str, index: usize, msg: String) {
        self.violations.push((label.to_string(), index, String::new(), msg));
    }
    /// Adds observations made in other processes
    pub fn outer_cases(&mut self, label: &str, evaluations: u64, distinct: u64, decisions: u64) {
        self.evaluations += evaluations;
        self.decisions += decisions;
        self.labels.push((label.to_string(), evaluations));
        for i in 0..distinct {
            self.distinct.insert(rng::hash_bytes(format!("{} {}", label, i).as_bytes()));
        }
    }
    pub fn outer_count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn outer_sample(&mut self, text: String) {
        self.samples.push(text);
    }
    /// The check cannot decide
    pub fn give_up(&self, msg: &str) -> ! {
        say!("INCONCLUSIVE: {}", msg);
        std::process::exit(3);
    }
    pub fn rule(&mut self, text: &str) {
        self.rule = text.to_string();
    }
    pub fn level(&mut self, level: &'static str) {
        self.level = level;
    }
    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_string());
    }
    /// Chooses a count by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if let Some(child) = &self.child {
            let n = if self.thorough { thorough } else { quick };
            return ((n as f64 * child.scale).ceil() as usize).max(1);
        }
        if self.thorough {
            return thorough;
        }
        // the quick counts come from a time when all checks had to share a few minutes;
        // they are raised as far as a check still ends within about a minute
        let factor = match self.id.as_str() {
            "C01" | "C02" | "C27" => 1,
            "C29" => 2,
            "C28" | "C30" | "C31" | "C37" | "C41" => 3,
            "C03" | "C32" | "C38" | "C39" | "C42" | "C43" | "C44" => 5,
            _ => 10,
        };
        thorough.min(quick * factor).max(quick)
    }
    /// The run is inconclusive if the counter stays below the minimum
    pub fn require(&mut self, name: &'static str, min: u64) {
        self.required.push((name, min));
    }
    pub fn jobs(&mut self, n: usize) {
        if self.replay.is_none() {
            self.jobs = n;
        }
    }

    /// Runs n cases, in parallel, each with its own generator
    pub fn run<F>(&mut self, label: &str, n: usize, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        if self.child.is_some() {
            self.run_child(label, n, f);
            return;
        }
        let only = match &self.replay {
            Some((l, i)) => {
                if l != label {
                    return;
                }
                Some(*i)
            }
            None => None,
        };
        let next = AtomicUsize::new(only.unwrap_or(0));
        let end = only.map(|i| i + 1).unwrap_or(n);
        let jobs = self.jobs.max(1).min(end.saturating_sub(next.load(Ordering::SeqCst)).max(1));
        let results: Mutex<Vec<(usize, Case)>> = Mutex::new(Vec::new());
        let slots: Vec<Mutex<Option<Slot>>> = (0..jobs).map(|_| Mutex::new(None)).collect();
        let finished = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let n_fail = AtomicUsize::new(0);
        let (seed, thorough, known) = (self.seed, self.thorough, self.known.clone());
        let hung: Mutex<Option<usize>> = Mutex::new(None);
        std::thread::scope(|scope| {
            // watchdog on the CPU time of each case (not wall-clock)
            scope.spawn(|| {
                while !finished.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    for s in &slots {
                        let g = s.lock().unwrap();
                        if let Some(slot) = g.as_ref() {
                            if let Some(now) = cpu_of(slot.clock) {
                                if now - slot.start_cpu > CASE_CPU_LIMIT {
                                    *hung.lock().unwrap() = Some(slot.index);
                                }
                            }
                        }
                    }
                    let h = *hung.lock().unwrap();
                    if let Some(index) = h {
                        let msg = format!("case consumed more than {} s of CPU time without returning", CASE_CPU_LIMIT);
                        let path = write_replay(&self.id, self.seed, self.thorough, 0, label, index, "", &msg);
                        say!("{}[{}] seed={}: {}", label, index, self.seed, msg);
                        say!("VIOLATION property={} replay={}", self.id, path);
                        std::process::exit(1);
                    }
                }
            });
            let mut handles = Vec::new();
            for k in 0..jobs {
                let (next, results, slots, done, n_fail, known, f) =
                    (&next, &results, &slots, &done, &n_fail, &known, &f);
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            let clock = my_cpu_clock();
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= end || n_fail.load(Ordering::SeqCst) >= 40 {
                                    break;
                                }
                                let mut case = Case::new(seed, label, i, thorough, known.clone(), false);
                                *slots[k].lock().unwrap() = Some(Slot {
                                    clock,
                                    start_cpu: thread_cpu(),
                                    index: i,
                                });
                                alloc::take_damage();
                                if let Err(msg) = no_panic(|| f(&mut case)) {
                                    case.fail(format!("panic: {}", msg));
                                }
                                let (d, size) = alloc::take_damage();
                                if d > 0 {
                                    case.fail(format!(
                                        "heap guard damaged: {} block(s), last of {} bytes (write outside a buffer)",
                                        d, size
                                    ));
                                }
                                *slots[k].lock().unwrap() = None;
                                done.fetch_add(1, Ordering::SeqCst);
                                if case.failed() {
                                    n_fail.fetch_add(1, Ordering::SeqCst);
                                }
                                results.lock().unwrap().push((i, case));
                            }
                        })
                        .unwrap(),
                );
            }
            for h in handles {
                let _ = h.join();
            }
            finished.store(true, Ordering::SeqCst);
        });
        let mut all = results.into_inner().unwrap();
        all.sort_by_key(|r| r.0);
        let n_done = done.load(Ordering::SeqCst);
        self.evaluations += n_done;
        self.labels.push((label.to_string(), n_done));
        let mut sampled = 0;
        for (i, case) in all {
            self.decisions += case.decisions;
            for (k, v) in case.counters {
                *self.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in case.maxima {
                let e = self.maxima.entry(k).or_insert(0.0);
                if v > *e {
                    *e = v;
                }
            }
            for (h, d) in &case.keys {
                self.distinct.insert(h ^ rng::hash_bytes(label.as_bytes()));
                if sampled < 2 && self.samples.len() < 24 {
                    self.samples.push(format!("{}[{}]: {}", label, i, trunc(d, 300)));
                    sampled += 1;
                }
            }
            for m in case.known_hits {
                self.known_hits.push(m);
            }
            for m in case.failures {
                self.violations.push((label.to_string(), i, case.desc.clone(), m));
            }
        }
        if self.replay.is_some() {
            say!("replayed {}[{}]", label, only.unwrap());
        }
    }

    /// Runs a single deterministic case
    pub fn once<F>(&mut self, label: &str, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        self.run(label, 1, f)
    }

    /// Runs the cases of a process observed by an outer monitor (page fences, valgrind, heap balance):
    /// one thread, the case in progress is named in a file, and the results are not judged
    fn run_child<F>(&mut self, label: &str, n: usize, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        use std::os::unix::fs::FileExt;
        let (seed, thorough, known) = (self.seed, self.thorough, self.known.clone());
        let child = self.child.as_mut().unwrap();
        for i in 0..n {
            if let Some((l, k)) = &child.only {
                if l != label || *k != i {
                    continue;
                }
            }
            let _ = child.trace.write_all_at(format!("{:<60}", format!("{} {}", i, label)).as_bytes(), 0);
            let exec = |keys: Option<&mut HashSet<u64>>| {
                let mut case = Case::new(seed, label, i, thorough, known.clone(), true);
                let _ = no_panic(|| f(&mut case));
                if let Some(set) = keys {
                    for (h, _) in &case.keys {
                        set.insert(h ^ rng::hash_bytes(label.as_bytes()));
                    }
                }
                case.decisions
            };
            alloc::take_damage();
            self.decisions += exec(Some(&mut self.distinct));
            self.evaluations += 1;
            let (d, size) = alloc::take_damage();
            if d > 0 {
                child.say(&format!("VIOLATED {} {} | write outside {} heap block(s), last of {} bytes", i, label, d, size));
            }
            if child.balance {
                // the same computation again must not need more memory, and again, and again
                let mut grown = 0;
                let mut last = 0;
                for _ in 0..5 {
                    let before = alloc::in_use();
                    exec(None);
                    let after = alloc::in_use();
                    last = after - before;
                    if last <= 0 {
                        break;
                    }
                    grown += 1;
                }
                if grown == 5 {
                    child.say(&format!("VIOLATED {} {} | each repetition leaves {} more bytes allocated", i, label, last));
                }
            }
        }
    }

    /// Reports and exits
    pub fn finish(self) -> ! {
        if let Some(child) = &self.child {
            child.say(&format!(
                "DONE {} {} {} {}",
                self.evaluations,
                (self.distinct.len() as u64).min(self.evaluations),
                self.decisions,
                alloc::BLOCKS_VERIFIED.load(Ordering::SeqCst)
            ));
            std::process::exit(0);
        }
        let wall = self.start.elapsed().as_secs_f64();
        for m in &self.known_hits {
            say!("KNOWN-FINDING: property={} {}", self.id, trunc(m, 300));
        }
        let mut inconclusive = Vec::new();
        if self.replay.is_none() {
            for (name, min) in &self.required {
                let got = self.counters.get(name).copied().unwrap_or(0);
                if got < *min {
                    inconclusive.push(format!("counter '{}' = {} < {}", name, got, min));
                }
            }
            if self.evaluations == 0 || self.distinct.len() < 2 {
                inconclusive.push("nothing observed".to_string());
            }
        }
        let mut counters = String::new();
        for (k, v) in &self.counters {
            if !counters.is_empty() {
                counters.push_str(", ");
            }
            counters.push_str(&format!("{}: {}", json_str(k), v));
        }
        let mut maxima = String::new();
        for (k, v) in &self.maxima {
            if !maxima.is_empty() {
                maxima.push_str(", ");
            }
            maxima.push_str(&format!("{}: {:.4e}", json_str(k), if v.is_finite() { *v } else { -1.0 }));
        }
        let labels: Vec<String> = self
            .labels
            .iter()
            .map(|(l, n)| format!("{}: {}", json_str(l), n))
            .collect();
        let samples: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| json_str(s)).collect();
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"oracle_decisions\": {},\n  \"heap_blocks_verified\": {},\n  \"cases_per_workload\": {{{}}},\n  \"monitor_counters\": {{{}}},\n  \"worst_error_over_tolerance\": {{{}}},\n  \"known_findings_observed\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&self.id),
            json_str(if self.thorough { "thorough" } else { "quick" }),
            self.seed as i64,
            json_str(self.level),
            self.evaluations,
            (self.distinct.len() as u64).min(self.evaluations),
            json_str(&self.rule),
            self.decisions,
            alloc::BLOCKS_VERIFIED.load(Ordering::SeqCst),
            labels.join(", "),
            counters,
            maxima,
            self.known_hits.len(),
            samples.join(",\n   "),
            assumptions.join(", "),
            wall,
            self.violations.len(),
        );
        if self.replay.is_none() {
            if let Ok(dir) = std::env::var("VERIF_EVIDENCE") {
                let _ = std::fs::create_dir_all(&dir);
                if std::fs::write(format!("{}/{}.json", dir, self.id), &text).is_err() {
                    say!("ERROR: cannot write evidence");
                    std::process::exit(2);
                }
            }
        }
        if !self.violations.is_empty() {
            let mut first = String::new();
            for (k, (label, index, desc, msg)) in self.violations.iter().enumerate().take(MAX_REPORTED) {
                say!("{}[{}] seed={}: {} | input: {}", label, index, self.seed, trunc(msg, 600), trunc(desc, 400));
                let path = write_replay(&self.id, self.seed, self.thorough, k, label, *index, desc, msg);
                if k == 0 {
                    first = path;
                }
            }
            say!("{} violation(s) observed", self.violations.len());
            say!("VIOLATION property={} replay={}", self.id, first);
            std::process::exit(1);
        }
        if !inconclusive.is_empty() {
            for m in inconclusive {
                say!("INCONCLUSIVE: {}", m);
            }
            std::process::exit(2);
        }
        say!(
            "HELD property={} evaluations={} distinct={} decisions={} wall={:.2}s",
            self.id,
            self.evaluations,
            (self.distinct.len() as u64).min(self.evaluations),
            self.decisions,
            wall
        );
        if std::env::var("VERIF_SHOW").is_ok() {
            say!("{}", text);
        }
        std::process::exit(0);
    }
}

/// Settings of a process observed by an outer monitor
struct Child {
    scale: f64,
    balance: bool,
    only: Option<(String, usize)>,
    trace: std::fs::File,
    out: std::path::PathBuf,
}

impl Child {
    fn from_env() -> Option<Child> {
        let dir = std::path::PathBuf::from(std::env::var_os("VERIF_CHILD")?);
        let only = std::env::var("VERIF_ONLY").ok().and_then(|s| {
            let (i, l) = s.split_once(' ')?;
            Some((l.to_string(), i.parse().ok()?))
        });
        Some(Child {
            scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            balance: std::env::var_os("VERIF_BALANCE").is_some(),
            only,
            trace: std::fs::File::create(dir.join("trace")).expect("cannot create the trace file"),
            out: dir.join("out"),
        })
    }
    fn say(&self, line: &str) {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&self.out).expect("cannot open the output file");
        let _ = writeln!(f, "{}", line);
    }
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    id: &str,
    seed: u64,
    thorough: bool,
    k: usize,
    label: &str,
    index: usize,
    desc: &str,
    msg: &str,
) -> String {
    let dir = std::env::var("VERIF_REPLAYS").unwrap_or("/tmp".to_string());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, id, k);
    let body = format!(
        "property={}\nseed={}\ntier={}\nlabel={}\nindex={}\nobserved={}\ninput={}\n",
        id,
        seed as i64,
        if thorough { "thorough" } else { "quick" },
        label,
        index,
        msg,
        desc
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Counts calls and unwinds when the budget is exceeded (unbounded loops become a verdict)
pub struct Budget {
    pub calls: u64,
    pub limit: u64,
}

impl Budget {
    pub fn new(limit: u64) -> Self {
        Budget { calls: 0, limit }
    }
    pub fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.limit {
            panic!("call budget of {} exceeded: the library keeps calling back", self.limit);
        }
    }
}

/// Maximum absolute value
pub fn max_abs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m, x| f64::max(m, f64::abs(*x)))
}
