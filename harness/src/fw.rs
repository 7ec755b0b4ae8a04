//! Exploration framework: a check is a list of finite case spaces; every case of every space is
//! executed, spread over worker processes.  A panic, a mismatch, an abort or a hang in a case is
//! a violation carrying the history that led to it.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

static TIER: std::sync::OnceLock<Tier> = std::sync::OnceLock::new();

pub fn set_tier(t: Tier) {
    let _ = TIER.set(t);
}

/// The tier of this run.
pub fn tier() -> Tier {
    *TIER.get().unwrap_or(&Tier::Quick)
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// what is wrong
    pub what: String,
    /// identifies the specific failing input or history (matched with known_findings.txt)
    pub sig: String,
}

pub fn fail<T>(what: impl Into<String>) -> Result<T, Violation> {
    let what = what.into();
    Err(Violation { sig: String::new(), what })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fw::fail(format!($($arg)*)); }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return $crate::fw::fail(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
                }
            }
        }
    }};
}

/// What a case reports while it runs.
#[derive(Default)]
pub struct Run {
    pub trace: Vec<String>,
    pub transitions: u64,
    pub states: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
}

impl Run {
    /// One operation applied to the implementation.
    pub fn step(&mut self, op: impl Into<String>) {
        self.transitions += 1;
        self.trace.push(op.into());
    }
    pub fn note(&mut self, op: impl Into<String>) {
        self.trace.push(op.into());
    }
    pub fn state<T: std::hash::Hash>(&mut self, s: &T) {
        self.states.insert(hash(s));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_owned()).or_default() += n;
    }
}

pub fn hash<T: std::hash::Hash>(s: &T) -> u64 {
    use std::hash::Hasher;
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^ (x >> 33)
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    s.hash(&mut h);
    h.finish()
}

/// A finite, indexable set of cases.
pub trait Space {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn run(&self, index: u64, run: &mut Run) -> Result<(), Violation>;
    /// a mismatch has to show again on each of this many repetitions (real-process checks)
    fn confirmations(&self) -> usize {
        0
    }
    /// seconds without progress after which a case counts as hanging
    fn hang_after(&self) -> u64 {
        60
    }
}

pub struct Check {
    pub id: &'static str,
    pub spaces: Vec<Box<dyn Space>>,
    pub assumptions: Vec<String>,
    pub workers: usize,
}

impl Check {
    pub fn new(id: &'static str) -> Check {
        Check { id, spaces: Vec::new(), assumptions: Vec::new(), workers: ncpu() }
    }
    pub fn space(mut self, s: impl Space + 'static) -> Check {
        self.spaces.push(Box::new(s));
        self
    }
    pub fn assume(mut self, s: &str) -> Check {
        self.assumptions.push(s.to_owned());
        self
    }
    fn total(&self) -> u64 {
        self.spaces.iter().map(|s| s.len()).sum()
    }
    fn locate(&self, mut index: u64) -> (&dyn Space, u64) {
        for s in &self.spaces {
            if index < s.len() {
                return (&**s, index);
            }
            index -= s.len();
        }
        panic!("case index out of range");
    }
}

pub fn ncpu() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}

/// A space given by closures.
pub struct FnSpace<F> {
    pub name: String,
    pub len: u64,
    pub f: F,
    pub confirmations: usize,
}

pub fn space<F>(name: &str, len: u64, f: F) -> FnSpace<F>
where
    F: Fn(u64, &mut Run) -> Result<(), Violation>,
{
    FnSpace { name: name.to_owned(), len, f, confirmations: 0 }
}

impl<F> FnSpace<F> {
    pub fn confirmed(mut self, n: usize) -> Self {
        self.confirmations = n;
        self
    }
}

impl<F> Space for FnSpace<F>
where
    F: Fn(u64, &mut Run) -> Result<(), Violation>,
{
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn run(&self, index: u64, run: &mut Run) -> Result<(), Violation> {
        (self.f)(index, run)
    }
    fn confirmations(&self) -> usize {
        self.confirmations
    }
}

/// Number of sequences of exactly `depth` over `n` symbols.
pub fn seqs(n: usize, depth: u32) -> u64 {
    (n as u64).pow(depth)
}

/// The `index`-th sequence of length `depth` over 0..n.
pub fn decode_seq(mut index: u64, n: usize, depth: u32) -> Vec<usize> {
    let mut v = vec![0; depth as usize];
    for slot in v.iter_mut().rev() {
        *slot = (index % n as u64) as usize;
        index /= n as u64;
    }
    v
}

/// All sequences of length 0..=depth.
pub fn seqs_upto(n: usize, depth: u32) -> u64 {
    (0..=depth).map(|d| seqs(n, d)).sum()
}

pub fn decode_upto(mut index: u64, n: usize, depth: u32) -> Vec<usize> {
    for d in 0..=depth {
        let c = seqs(n, d);
        if index < c {
            return decode_seq(index, n, d);
        }
        index -= c;
    }
    panic!("index")
}

/// All strings of length <= depth over an alphabet of strings.
pub fn words(alphabet: &[&str], depth: u32) -> Vec<String> {
    let n = alphabet.len();
    (0..seqs_upto(n, depth))
        .map(|i| decode_upto(i, n, depth).into_iter().map(|k| alphabet[k]).collect())
        .collect()
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("CEDMC_BT").is_some() {
            eprintln!("{} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic: {} at {}", msg, loc));
            }
        });
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().take());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

fn run_case(check: &Check, index: u64, run: &mut Run) -> Result<(), Violation> {
    let (space, i) = check.locate(index);
    match guarded(|| space.run(i, run)) {
        Ok(r) => r,
        Err(p) => fail(p),
    }
}

struct Slot(*mut u64);
impl Slot {
    fn open(path: &Path) -> Slot {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(8).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slot(p as *mut u64)
    }
    fn set(&self, v: u64) {
        unsafe { self.0.write_volatile(v) }
    }
    fn get(&self) -> u64 {
        unsafe { self.0.read_volatile() }
    }
}

const DONE: u64 = u64::MAX;

pub struct Known(Vec<(String, String)>);

impl Known {
    pub fn load() -> Known {
        let path = verif_root().join("known_findings.txt");
        let mut v = Vec::new();
        for line in fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(rest) = line.strip_prefix("known: property=") {
                if let Some((id, sig)) = rest.split_once(" sig=") {
                    v.push((id.trim().to_owned(), sig.trim().to_owned()));
                }
            }
        }
        Known(v)
    }
    pub fn matches(&self, id: &str, sig: &str) -> bool {
        !sig.is_empty() && self.0.iter().any(|(i, s)| i == id && s == sig)
    }
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("CEDMC_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

static SCRATCH: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

/// A directory of this process alone, which is also its working directory.
pub fn scratch() -> &'static Path {
    SCRATCH.get().expect("scratch directory")
}

/// What absolute names of scratch files begin with (nothing where there are none).
pub fn scratch_prefix() -> String {
    SCRATCH.get().map_or("\0".to_owned(), |p| format!("{}/", p.display()))
}

fn enter_scratch(dir: PathBuf) {
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    SCRATCH.set(dir).unwrap();
}

pub fn worker(check: &Check, k: u64, n: u64, start: u64, dir: &Path) {
    enter_scratch(dir.join(format!("w{}", k)));
    // a runaway allocation must not take the sandbox down
    unsafe {
        let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    install_panic_hook();
    let slot = Slot::open(&dir.join(format!("slot.{}", k)));
    let known = Known::load();
    let total = check.total();
    let mut transitions = 0u64;
    let mut traces = 0u64;
    let mut states: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut knowns: Vec<Value> = Vec::new();
    let mut violation = Value::Null;
    let mut samples: Vec<Value> = Vec::new();
    let mut per_space: BTreeMap<String, u64> = BTreeMap::new();
    let mut index = start;
    while index < total {
        slot.set(index);
        let (space, _) = check.locate(index);
        let mut run = Run::default();
        let mut res = run_case(check, index, &mut run);
        for _ in 0..space.confirmations() {
            if res.is_err() {
                std::thread::sleep(Duration::from_millis(200));
                let mut again = Run::default();
                let r = run_case(check, index, &mut again);
                if r.is_ok() {
                    run = again;
                    res = r;
                    *counters.entry("unconfirmed_failures".into()).or_default() += 1;
                    break;
                }
            }
        }
        transitions += run.transitions;
        traces += 1;
        *per_space.entry(space.name()).or_default() += 1;
        if run.states.is_empty() {
            // the case is one of a set of inputs
            run.state(&(space.name(), index));
        }
        states.extend(run.states.iter());
        for (c, v) in run.counters {
            *counters.entry(c).or_default() += v;
        }
        if k == 0 && (samples.len() < 3 || (samples.len() < 8 && traces % 997 == 0)) {
            let t: Vec<_> = run.trace.iter().take(12).cloned().collect();
            samples.push(json!({"space": space.name(), "case": index, "trace": t}));
        }
        if let Err(v) = res {
            let rec = json!({"case": index, "space": space.name(), "what": v.what, "sig": v.sig, "trace": run.trace});
            if known.matches(check.id, &v.sig) {
                if !knowns.iter().any(|k| k["sig"] == rec["sig"]) {
                    knowns.push(rec);
                }
            } else {
                violation = rec;
                break;
            }
        }
        index += n;
    }
    let mut bytes = Vec::with_capacity(states.len() * 8);
    for s in &states {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("states.{}", k)))
        .unwrap()
        .write_all(&bytes)
        .unwrap();
    let out = json!({
        "transitions": transitions, "traces": traces, "counters": counters,
        "known": knowns, "violation": violation, "samples": samples, "per_space": per_space,
    });
    let tmp = dir.join(format!("result.{}.{}.tmp", k, start));
    fs::write(&tmp, out.to_string()).unwrap();
    fs::rename(&tmp, dir.join(format!("result.{}.{}", k, start))).unwrap();
    slot.set(DONE);
}

/// Runs one case alone: exit code 0 fine, 7 violation (details on stdout).
pub fn single(check: &Check, index: u64) -> ! {
    let dir = std::env::temp_dir().join(format!("cedmc-{}-single-{}", check.id, std::process::id()));
    enter_scratch(dir.join("w"));
    install_panic_hook();
    let mut run = Run::default();
    let r = run_case(check, index, &mut run);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("case {} holds ({} steps)", index, run.transitions);
            std::process::exit(0)
        }
        Err(v) => {
            println!("case {}: {}", index, v.what);
            for t in &run.trace {
                println!("  {}", t);
            }
            std::process::exit(7)
        }
    }
}

struct Outcome {
    transitions: u64,
    traces: u64,
    counters: BTreeMap<String, u64>,
    per_space: BTreeMap<String, u64>,
    known: Vec<Value>,
    violation: Option<Value>,
    samples: Vec<Value>,
    states: u64,
}

fn spawn_worker(id: &str, tier: Tier, k: u64, n: u64, start: u64, dir: &Path) -> std::process::Child {
    use std::os::unix::process::CommandExt;
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args([
        "--worker",
        id,
        tier.name(),
        &k.to_string(),
        &n.to_string(),
        &start.to_string(),
        dir.to_str().unwrap(),
    ])
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(if std::env::var_os("CEDMC_BT").is_some() { Stdio::inherit() } else { Stdio::null() });
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    cmd.spawn().expect("spawn worker")
}

fn explore(check: &Check, tier: Tier, dir: &Path) -> Outcome {
    let n = (check.workers as u64).min(check.total().max(1));
    struct W {
        child: std::process::Child,
        slot: Slot,
        last: u64,
        since: Instant,
        start: u64,
        done: bool,
        retries: u32,
    }
    let mut ws: Vec<W> = (0..n)
        .map(|k| {
            let slot = Slot::open(&dir.join(format!("slot.{}", k)));
            slot.set(k);
            W {
                child: spawn_worker(check.id, tier, k, n, k, dir),
                slot,
                last: k,
                since: Instant::now(),
                start: k,
                done: false,
                retries: 0,
            }
        })
        .collect();
    let mut out = Outcome {
        transitions: 0,
        traces: 0,
        counters: Default::default(),
        per_space: Default::default(),
        known: vec![],
        violation: None,
        samples: vec![],
        states: 0,
    };
    while ws.iter().any(|w| !w.done) && out.violation.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for (k, w) in ws.iter_mut().enumerate() {
            if w.done || out.violation.is_some() {
                continue;
            }
            let cur = w.slot.get();
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            let mut bad: Option<String> = None;
            if let Some(st) = w.child.try_wait().unwrap() {
                let path = dir.join(format!("result.{}.{}", k, w.start));
                if let Ok(text) = fs::read_to_string(&path) {
                    let v: Value = serde_json::from_str(&text).unwrap();
                    out.transitions += v["transitions"].as_u64().unwrap();
                    out.traces += v["traces"].as_u64().unwrap();
                    for (c, x) in v["counters"].as_object().unwrap() {
                        *out.counters.entry(c.clone()).or_default() += x.as_u64().unwrap();
                    }
                    for (c, x) in v["per_space"].as_object().unwrap() {
                        *out.per_space.entry(c.clone()).or_default() += x.as_u64().unwrap();
                    }
                    out.known.extend(v["known"].as_array().unwrap().iter().cloned());
                    out.samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                    if !v["violation"].is_null() {
                        out.violation = Some(v["violation"].clone());
                    }
                    w.done = true;
                    continue;
                }
                bad = Some(format!("the process died ({})", st));
            } else if cur != DONE {
                let (space, _) = check.locate(cur);
                if w.since.elapsed() > Duration::from_secs(space.hang_after()) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    bad = Some(format!("no answer for {} s", space.hang_after()));
                }
            }
            if let Some(how) = bad {
                // confirm alone, in a fresh process
                let case = if cur == DONE { w.start } else { cur };
                let confirmed = confirm(check, tier, case);
                match confirmed {
                    Some(detail) => {
                        out.violation = Some(json!({"case": case, "space": check.locate(case).0.name(),
                            "what": format!("{}; alone: {}", how, detail), "sig": "", "trace": []}));
                    }
                    None => {
                        w.retries += 1;
                        *out.counters.entry("worker_restarts".into()).or_default() += 1;
                        if w.retries > 5 {
                            eprintln!("worker {} keeps failing at case {} (started from {}): {}", k, cur as i64, w.start, how);
                            std::process::exit(2);
                        }
                        // go over the slice again from where it started (counts restart too)
                        w.slot.set(w.start);
                        w.last = w.start;
                        w.since = Instant::now();
                        let _ = fs::remove_file(dir.join(format!("states.{}", k)));
                        w.child = spawn_worker(check.id, tier, k as u64, n, w.start, dir);
                    }
                }
            }
        }
    }
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let mut all: HashSet<u64> = HashSet::new();
    for k in 0..n {
        if let Ok(b) = fs::read(dir.join(format!("states.{}", k))) {
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    out.states = all.len() as u64;
    out
}

fn confirm(check: &Check, tier: Tier, case: u64) -> Option<String> {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["--single", check.id, tier.name(), &case.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let (space, _) = check.locate(case);
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let mut s = String::new();
            child.stdout.take().unwrap().read_to_string(&mut s).ok();
            return if st.success() { None } else { Some(format!("{}: {}", st, s)) };
        }
        if t.elapsed() > Duration::from_secs(space.hang_after()) {
            let _ = child.kill();
            let _ = child.wait();
            return Some("no answer".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Ends the processes started by this one or by workers which are gone.
fn kill_children() {
    let me = std::process::id();
    for e in fs::read_dir("/proc").into_iter().flatten().flatten() {
        let pid = match e.file_name().to_string_lossy().parse::<i32>() {
            Ok(p) => p,
            Err(_) => continue,
        };
        let stat = fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        let parent = stat.rsplit(") ").next().and_then(|r| r.split(' ').nth(1)).and_then(|p| p.parse::<u32>().ok());
        if parent == Some(me) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    }
}

pub fn main_check(check: &Check, tier: Tier, seed: i64) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("cedmc-{}-{}", check.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    // what a worker leaves behind when it is stopped becomes ours
    unsafe { libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1) };
    let out = explore(check, tier, &dir);
    kill_children();
    let _ = fs::remove_dir_all(&dir);

    let root = verif_root();
    let spaces: Vec<Value> = check
        .spaces
        .iter()
        .map(|s| json!({"name": s.name(), "cases": s.len(), "executed": out.per_space.get(&s.name()).copied().unwrap_or(0)}))
        .collect();
    let complete = out.traces >= check.total();
    let mut coverage = json!({
        "states": out.states,
        "transitions": out.transitions,
        "traces_validated_against_impl": out.traces,
        "exhaustive": complete && out.violation.is_none(),
        "spaces": spaces,
        "samples": out.samples.iter().take(8).collect::<Vec<_>>(),
    });
    for (c, v) in &out.counters {
        coverage[format!("count_{}", c)] = json!(v);
    }
    let violations = out.violation.is_some() as i32;
    let ev = json!({
        "property": check.id, "tier": tier.name(), "seed": seed, "level": "model_checking",
        "coverage": coverage, "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    fs::create_dir_all(root.join("evidence")).unwrap();
    fs::write(
        root.join("evidence").join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();

    let mut seen = HashSet::new();
    for k in &out.known {
        if seen.insert(k["sig"].as_str().unwrap().to_owned()) {
            println!("KNOWN-FINDING: property={} {}", check.id, k["sig"].as_str().unwrap());
        }
    }
    println!(
        "{} {}: {} cases, {} states, {} transitions in {:.1} s",
        check.id,
        tier.name(),
        out.traces,
        out.states,
        out.transitions,
        t0.elapsed().as_secs_f64()
    );
    if let Some(v) = out.violation {
        let rdir = root.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{}-{}.json", check.id, tier.name(), v["case"]));
        let rep = json!({"property": check.id, "tier": tier.name(), "case": v["case"], "space": v["space"],
            "what": v["what"], "history": v["trace"], "sig": v["sig"],
            "replay": format!("bash check.sh {} --case {} {}", check.id, tier.name(), v["case"])});
        fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("{}", v["what"].as_str().unwrap_or(""));
        if let Some(t) = v["trace"].as_array() {
            for s in t.iter() {
                println!("  {}", s.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    if !complete {
        eprintln!("exploration incomplete: {} of {}", out.traces, check.total());
        return 2;
    }
    0
}
