//! Case runner, evidence counters, watchdog.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

use crate::rng::{hash_bytes, mix, Rng};

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Describes the case. (Formatting is what the interpreter is slowest at.)
#[macro_export]
macro_rules! note {
    ($c:expr, $s:expr) => {
        if !cfg!(miri) || $c.idx < 6 {
            $c.note($s)
        }
    };
}

/// Turns an unexpected library error into a violation message.
pub trait Must<T> {
    fn must(self, what: &str) -> R<T>;
}
impl<T, E: std::fmt::Debug> Must<T> for Result<T, E> {
    fn must(self, what: &str) -> R<T> {
        self.map_err(|e| {
            format!("{} failed: {:?}", what, e)
                .lines()
                .take(4)
                .collect::<Vec<_>>()
                .join(" ")
        })
    }
}

/// Panics whose payload is this type are part of a workload.
pub struct Expected;

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HEARTBEAT: AtomicU64 = AtomicU64::new(0);
static FINISHED: AtomicBool = AtomicBool::new(false);
static WHERE: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Expected>() || QUIET.with(|q| q.get()) {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map_or("?".into(), |l| l.to_string());
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 20 {
                p.push(format!("panicked: {} (at {})", msg, loc));
            }
        }
    }));
}

pub fn take_panics() -> String {
    PANICS
        .lock()
        .map_or(String::new(), |mut p| p.drain(..).collect::<Vec<_>>().join("; "))
}

/// Runs `f`, turning a panic of the code under test into an error.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(take_panics()),
    }
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs `f`, which may well panic.
pub fn attempt(f: impl FnOnce()) {
    QUIET.with(|q| q.set(true));
    let _ = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
}

/// Runs `f` in a destructor while a panic unwinds the stack.
pub fn while_unwinding<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    struct D<'a, F: FnOnce() -> R<T>, T>(Option<F>, &'a mut Option<R<T>>);
    impl<'a, F: FnOnce() -> R<T>, T> Drop for D<'a, F, T> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                *self.1 = Some(guard(f));
            }
        }
    }
    let mut r = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _d = D(Some(f), &mut r);
        std::panic::resume_unwind(Box::new(Expected));
    }));
    r.unwrap_or_else(|| Err("the destructor did not run".into()))
}

/// Runs the closures on threads of their own, all released at about the same moment.
pub fn parallel<T: Send>(fs: Vec<Box<dyn FnOnce() -> R<T> + Send + '_>>) -> R<Vec<T>> {
    let n = fs.len();
    let ready = AtomicU64::new(0);
    let results: Vec<R<T>> = std::thread::scope(|s| {
        let hs: Vec<_> = fs
            .into_iter()
            .map(|f| {
                let ready = &ready;
                s.spawn(move || {
                    ready.fetch_add(1, SeqCst);
                    let mut spins = 0u32;
                    while ready.load(SeqCst) < n as u64 {
                        spins += 1;
                        if spins > 2000 || cfg!(miri) {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    guard(f)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err(take_panics())))
            .collect()
    });
    results.into_iter().collect()
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub keys: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String)>,
    pub inconclusive: Vec<String>,
    pub findings: Vec<String>,
    pub truncated: Vec<String>,
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub desc: String,
    pub key: Option<u64>,
    pub counts: Vec<(&'static str, u64)>,
    pub inconclusive: Option<String>,
}
impl Case {
    /// Registers what this case exercised; makes the case count as non-trivial.
    pub fn note(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        let b = s.as_bytes();
        // (the interpreter is slow)
        self.key = Some(if cfg!(miri) {
            hash_bytes(&b[..b.len().min(48)]) ^ b.len() as u64
        } else {
            hash_bytes(b)
        });
        let mut end = s.len().min(400);
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        self.desc.clear();
        self.desc.push_str(&s[..end]);
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        self.counts.push((what, n));
    }
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<(String, u64)>,
    pub stats: Stats,
    pub out: String,
    pub scale: f64,
    pub cap: Duration,
    /// No case starts after this many seconds.
    pub budget: f64,
    pub started: f64,
    /// Goes on after a failure (it is another check's business).
    pub tolerant: bool,
    pub concurrent_only: bool,
}

pub fn real_now() -> f64 {
    crate::vclock::real_monotonic()
}

/// Bounds what filling something up and reading until others are done may cost on a slow or busy machine.
pub struct Pace {
    calls: u64,
    start: f64,
    seconds: f64,
}
impl Pace {
    pub fn new(seconds: f64) -> Self {
        Pace {
            calls: 0,
            start: real_now(),
            seconds,
        }
    }
    /// Whether enough has been done.
    pub fn over(&mut self) -> bool {
        self.calls += 1;
        if self.calls % 1024 != 0 || cfg!(miri) {
            return false;
        }
        HEARTBEAT.fetch_add(1, SeqCst);
        real_now() > self.start + self.seconds
    }
    /// Leaves locks and processors to the threads that are waited for: longer and longer, so that a deadlock shows.
    pub fn rest(&mut self) {
        self.calls += 1;
        if self.calls % 16 != 0 || cfg!(miri) {
            return;
        }
        let t = real_now() - self.start;
        if t > self.seconds {
            std::thread::sleep(Duration::from_secs_f64(t / 2.0));
        }
    }
}

/// The workloads that are worth the interpreter's time for what they compute (races are looked for in all).
const CONCURRENT: [&str; 26] = [
    "concurrent-sum",
    "monotone-readers",
    "beyond-u64",
    "while-updated",
    "linearizable-histories",
    "conservation",
    "concurrent",
    "rendered-while-observed",
    "disjoint-changes",
    "whole-sets",
    "gathered-while-relabelled",
    "registrations-and-gathers",
    "concurrent-drops",
    "each-once",
    "short-windows",
    "concurrent-reader",
    "real-time",
    "tour-sequential",
    "tour-concurrent",
    "labels-concurrent",
    "concurrent-snapshot",
    "from-many-threads",
    "while-inside-the-library",
    "concurrent-reads",
    "updates-while-read",
    "worlds-in-parallel",
];

impl Run {
    pub fn stop(&self) -> bool {
        !self.tolerant && !self.stats.violations.is_empty()
    }

    /// Runs `quick` (or `thorough`) cases of a workload, divided among the shards.
    pub fn cases(&mut self, workload: &str, quick: u64, thorough: u64, mut f: impl FnMut(&mut Case) -> R) {
        let concurrent_only = self.concurrent_only || (cfg!(miri) && !self.tolerant);
        if self.stop() || (concurrent_only && !CONCURRENT.contains(&workload)) {
            return;
        }
        let n = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        // (no list: the interpreter would spend seconds on it)
        let (first, end, step, repeat) = match &self.only {
            Some((w, k)) if w == workload => (*k, *k + 1, 1, 300),
            Some(_) => return,
            None => (self.shard, n, self.shards, 1),
        };
        let start = real_now();
        let mut done = 0;
        let mut next = first;
        'cases: while next < end {
            let k = next;
            next += step;
            if real_now() - self.started > self.budget {
                self.stats.truncated.push(format!("{} after {} cases", workload, done));
                break;
            }
            for _ in 0..repeat {
                HEARTBEAT.fetch_add(1, SeqCst);
                if done % 64 == 0 || done < 8 {
                    if let Ok(mut w) = WHERE.lock() {
                        *w = format!("{}\t{}", workload, k);
                    }
                }
                let mut case = Case {
                    rng: Rng::new(mix(self.seed ^ mix(hash_bytes(workload.as_bytes()) ^ mix(k)))),
                    idx: k,
                    desc: String::new(),
                    key: None,
                    counts: Vec::new(),
                    inconclusive: None,
                };
                // some cases run while their thread unwinds, as destructors may do
                let r = if mix(k ^ 0x5eed) % 12 == 0 {
                    case.count("cases_while_unwinding", 1);
                    while_unwinding(|| f(&mut case))
                } else {
                    guard(|| f(&mut case))
                };
                crate::vclock::real();
                self.stats.evaluations += 1;
                done += 1;
                *self.stats.counters.entry(format!("cases.{}", workload)).or_insert(0) += 1;
                for (c, n) in case.counts.drain(..) {
                    *self.stats.counters.entry(c.to_string()).or_insert(0) += n;
                }
                if let Some(i) = case.inconclusive.take() {
                    *self.stats.counters.entry("inconclusive_cases".into()).or_insert(0) += 1;
                    if self.stats.inconclusive.len() < 5 {
                        self.stats.inconclusive.push(i);
                    }
                }
                if let Some(key) = case.key {
                    if self.stats.keys.len() < 250_000 {
                        self.stats.keys.insert(key);
                    }
                    let seen = self.stats.samples.iter().filter(|s| s.starts_with(workload)).count();
                    if seen < 2 && self.shard == 0 {
                        self.stats.samples.push(format!("{}#{}: {}", workload, k, case.desc));
                    }
                }
                if let Err(e) = r {
                    if self.tolerant && self.stats.violations.len() >= 20 {
                        continue;
                    }
                    let e: String = e.chars().take(3000).collect();
                    self.stats.violations.push((
                        workload.to_string(),
                        k,
                        if case.desc.is_empty() {
                            e
                        } else {
                            format!("{} [case: {}]", e, case.desc)
                        },
                    ));
                    if !self.tolerant {
                        break 'cases;
                    }
                }
            }
            if std::env::var_os("VMON_TIMES").is_some() {
                eprintln!("TIME {} #{} {:.2}", workload, k, real_now() - start);
            }
            if real_now() - start > self.cap.as_secs_f64() {
                self.stats.truncated.push(format!("{} after {} cases", workload, done));
                break;
            }
        }
    }

    #[allow(dead_code)]
    pub fn count(&mut self, what: &str, n: u64) {
        *self.stats.counters.entry(what.to_string()).or_insert(0) += n;
    }

    pub fn write(&self) {
        FINISHED.store(true, SeqCst);
        let s = &self.stats;
        let mut o = String::from("{");
        let _ = write!(o, "\"evaluations\":{}", s.evaluations);
        let _ = write!(o, ",\"distinct\":{}", s.keys.len());
        let c: Vec<String> = s.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(o, ",\"counters\":{{{}}}", c.join(","));
        for (name, xs) in [
            ("samples", &s.samples),
            ("inconclusive", &s.inconclusive),
            ("findings", &s.findings),
            ("truncated", &s.truncated),
        ] {
            let xs: Vec<String> = xs.iter().map(|x| js(x)).collect();
            let _ = write!(o, ",\"{}\":[{}]", name, xs.join(","));
        }
        let v: Vec<String> = s
            .violations
            .iter()
            .map(|(w, k, m)| format!("{{\"workload\":{},\"case\":{},\"message\":{}}}", js(w), k, js(m)))
            .collect();
        let _ = write!(o, ",\"violations\":[{}]}}", v.join(","));
        if self.out == "-" {
            println!("{}", o);
        } else {
            let keys: Vec<u8> = s.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
            std::fs::write(format!("{}.keys", self.out), keys).expect("cannot write the result");
            std::fs::write(&self.out, o).expect("cannot write the result");
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Decides deadlocks and livelocks from thread states and CPU time, not from wall-clock deadlines.
#[cfg(all(feature = "plain", not(miri)))]
pub fn start_watchdog(out: String) {
    fn tasks(me: &str) -> Option<(bool, u64)> {
        let mut asleep = true;
        let mut cpu = 0;
        for e in std::fs::read_dir("/proc/self/task").ok()? {
            let e = e.ok()?;
            let s = std::fs::read_to_string(e.path().join("stat")).ok()?;
            let rest = &s[s.rfind(')')? + 2..];
            let f: Vec<&str> = rest.split(' ').collect();
            if e.file_name().to_string_lossy() == me {
                continue;
            }
            asleep &= f[0] == "S";
            cpu += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        }
        Some((asleep, cpu))
    }
    std::thread::spawn(move || {
        let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
        let (mut beat, mut idle, mut cpu0, mut last) = (u64::MAX, 0, 0, 0);
        loop {
            // (not affected by the virtual clock)
            let ts = libc::timespec { tv_sec: 1, tv_nsec: 0 };
            unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
            if FINISHED.load(SeqCst) {
                return;
            }
            let b = HEARTBEAT.load(SeqCst);
            let Some((asleep, cpu)) = tasks(&me) else {
                continue;
            };
            if b != beat || BLOCKED_ON_CHILD.load(SeqCst) {
                beat = b;
                idle = 0;
                cpu0 = cpu;
                last = cpu;
                continue;
            }
            idle = if asleep && cpu == last { idle + 1 } else { 0 };
            last = cpu;
            let verdict = if idle >= 25 {
                "deadlock: no operation completed, all threads are blocked and consume no CPU"
            } else if cpu.saturating_sub(cpu0) > 240 * 100 {
                "livelock: an operation sequence that takes milliseconds consumed 240 CPU-seconds without completing"
            } else {
                continue;
            };
            if out.is_empty() {
                println!("{}", verdict);
                std::process::exit(1);
            }
            let w = WHERE.lock().map(|w| w.clone()).unwrap_or_default();
            let (w, k) = w.split_once('\t').unwrap_or(("?", "0"));
            let o = format!(
                "{{\"evaluations\":{},\"distinct\":0,\"counters\":{{}},\"samples\":[],\"inconclusive\":[],\"findings\":[],\"truncated\":[],\"violations\":[{{\"workload\":{},\"case\":{},\"message\":{}}}]}}",
                b, js(w), k, js(&format!("{} (last recorded case; cases since may differ by up to 64 per shard) {}", verdict, take_panics()))
            );
            let _ = std::fs::write(&out, o);
            std::process::exit(1);
        }
    });
}
#[cfg(not(all(feature = "plain", not(miri))))]
pub fn start_watchdog(_: String) {}

pub static BLOCKED_ON_CHILD: AtomicBool = AtomicBool::new(false);

/// For the `any` counter-example descriptions.
pub fn show<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 600 {
        format!("{}...", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// Equality up to the rounding of a few thousand additions.
pub fn close(a: f64, b: f64) -> bool {
    same(a, b) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs())
}

/// Runs `f(i)` on `n` threads, all released at about the same moment.
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> R<T> + Sync) -> R<Vec<T>> {
    let f = &f;
    parallel(
        (0..n)
            .map(|i| Box::new(move || f(i)) as Box<dyn FnOnce() -> R<T> + Send + '_>)
            .collect(),
    )
}

/// Picks a workload size: natively or under Miri and sanitizers.
pub fn sz(native: u64, miri: u64) -> u64 {
    if cfg!(miri) {
        miri
    } else if cfg!(feature = "plain") {
        native
    } else {
        (native / 4).max(miri)
    }
}

static TICKET: AtomicU64 = AtomicU64::new(1);
/// A moment in the total order of all events recorded at the client boundary.
pub fn tick() -> u64 {
    TICKET.fetch_add(1, SeqCst)
}

/// Checks that an operation was rejected as invalid input.
pub fn invalid<T>(r: prometrics::Result<T>, what: &str) -> R {
    match r {
        Ok(_) => Err(format!("{} was accepted", what)),
        Err(e) if *e.kind() == prometrics::ErrorKind::InvalidInput => Ok(()),
        Err(e) => Err(format!("{}: the error kind is {:?}, not InvalidInput", what, e.kind())),
    }
}

impl Run {
    /// Runs a scenario listed in known_findings.txt: its failure is reported, but is no violation.
    #[allow(dead_code)]
    pub fn finding(&mut self, name: &str, f: impl FnOnce(&mut Rng) -> R) {
        if self.shard != 0 || self.only.is_some() || self.stop() {
            return;
        }
        let mut rng = Rng::new(self.seed);
        if let Err(e) = guard(|| f(&mut rng)) {
            self.stats.findings.push(format!("{}: {}", name, e));
        }
    }
}
