//! Stateless, exhaustive exploration of choice trees with a bound on deviations.
//!
//! A job is a closure that runs one complete execution of the code under test.  Wherever the
//! environment has a choice (how many bytes a read returns, whether a call fails, which thread
//! runs next) the closure asks `Ex::choose` or `Ex::pick`.  The explorer replays a prefix of
//! choices, takes choice 0 afterwards, and branches on every later point, so that every choice
//! sequence with at most `bound` deviations (non-zero answers of `choose`) is executed once.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    /// stable identity of the failing input, call site or history (for known findings)
    pub sig: String,
}

pub type Res<T = String> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::explore::Viol { msg: format!($($a)*), sig: String::new() }) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { $crate::viol!($($a)*) } };
}

#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    pub label: String,
    pub n: u32,
    pub choice: u32,
    pub free: bool,
}

struct Inner {
    prefix: Vec<u32>,
    trace: Vec<Point>,
    diverged: Option<String>,
    ticks: u64,
    horizon: u64,
    active: bool,
    notes: Vec<String>,
}

#[derive(Clone)]
pub struct Ex(Arc<Mutex<Inner>>);

pub struct Horizon;
pub struct Diverged;

impl Ex {
    pub fn new(prefix: Vec<u32>) -> Ex {
        Ex(Arc::new(Mutex::new(Inner {
            prefix,
            trace: vec![],
            diverged: None,
            ticks: 0,
            horizon: 2_000_000,
            active: true,
            notes: vec![],
        })))
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn answer(&self, label: &str, n: u32, free: bool) -> u32 {
        assert!(n > 0);
        let mut g = self.lock();
        if n == 1 || !g.active {
            return 0;
        }
        let i = g.trace.len();
        let mut choice = 0;
        if i < g.prefix.len() {
            choice = g.prefix[i];
            if choice >= n {
                g.diverged = Some(format!("choice {choice} of {n} at point {i} ({label})"));
                g.active = false;
                drop(g);
                std::panic::panic_any(Diverged);
            }
        }
        g.trace.push(Point { label: label.to_string(), n, choice, free });
        choice
    }

    /// A choice whose default is 0 and where anything else is a deviation.
    pub fn choose(&self, label: &str, n: u32) -> u32 {
        self.answer(label, n, false)
    }

    /// A choice that is explored exhaustively at no cost.
    pub fn pick(&self, label: &str, n: u32) -> u32 {
        self.answer(label, n, true)
    }

    /// From here on every answer is the default and no points are recorded (used while the harness
    /// itself inspects the outcome).
    pub fn close(&self) {
        self.lock().active = false;
    }

    pub fn horizon(&self, n: u64) {
        self.lock().horizon = n;
    }

    /// Counts one environment call; executions that make unreasonably many don't terminate.
    pub fn tick(&self) {
        let mut g = self.lock();
        g.ticks += 1;
        if g.ticks > g.horizon {
            drop(g);
            std::panic::panic_any(Horizon);
        }
    }

    pub fn note(&self, s: String) {
        let mut g = self.lock();
        if g.notes.len() < 400 {
            g.notes.push(s);
        }
    }

    pub fn notes(&self) -> Vec<String> {
        self.lock().notes.clone()
    }

    pub fn deviations(&self) -> usize {
        self.lock().trace.iter().filter(|p| p.choice != 0 && !p.free).count()
    }

    pub fn trace(&self) -> Vec<Point> {
        self.lock().trace.clone()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if std::env::var_os("MC_DEBUG").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic of it is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Diverged>() {
                std::panic::resume_unwind(p);
            }
            if p.is::<Horizon>() {
                viol!("{what} does not terminate (more than the allowed number of calls)");
            }
            viol!("{what} panicked: {}", last_panic())
        }
    }
}

pub struct Job {
    pub name: String,
    pub bound: usize,
    pub f: Box<dyn Fn(&Ex) -> Res + Send + Sync>,
}

impl Job {
    pub fn new(name: impl Into<String>, bound: usize, f: impl Fn(&Ex) -> Res + Send + Sync + 'static) -> Job {
        Job { name: name.into(), bound, f: Box::new(f) }
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub job: String,
    pub choices: Vec<u32>,
    pub trace: Vec<Point>,
    pub viol: Viol,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub jobs: u64,
    pub executions: u64,
    pub points: u64,
    pub max_deviations: usize,
    pub deviating: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub found: Vec<Found>,
    pub engine_errors: Vec<String>,
    pub capped: bool,
    pub retried: u64,
    /// job: executions, seconds
    pub profile: BTreeMap<String, (u64, f64)>,
    pub extra: BTreeMap<String, String>,
    pub counters: BTreeMap<String, u64>,
}

static COUNTERS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

/// Adds to a number of the report (states, transitions, ... of explorations inside one execution).
pub fn count(what: &str, n: u64) {
    *COUNTERS.lock().unwrap().entry(what.to_string()).or_default() += n;
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn cost(points: &[Point]) -> usize {
    points.iter().filter(|p| !p.free && p.choice != 0).count()
}

enum Ran {
    Ok(String),
    Viol(Viol),
    Engine(String),
}

fn run_once(job: &Job, prefix: &[u32]) -> (Ran, Ex) {
    let ex = Ex::new(prefix.to_vec());
    // the generator of a thread takes entropy when it is first used: not from a tape
    let _ = rand::thread_rng();
    let r = catch_unwind(AssertUnwindSafe(|| (job.f)(&ex)));
    mctape::uninstall();
    let diverged = ex.lock().diverged.clone();
    if let Some(d) = diverged {
        return (Ran::Engine(format!("{}: diverged while replaying: {d}", job.name)), ex);
    }
    let r = match r {
        Ok(Ok(s)) => {
            let n = ex.trace().len();
            if n < prefix.len() {
                Ran::Engine(format!("{}: execution ended before its prefix was replayed", job.name))
            } else {
                Ran::Ok(s)
            }
        }
        Ok(Err(v)) => Ran::Viol(v),
        Err(p) if p.is::<Horizon>() => Ran::Viol(Viol { msg: "does not terminate".into(), sig: String::new() }),
        Err(_) => Ran::Engine(format!("{}: harness panicked: {}", job.name, last_panic())),
    };
    (r, ex)
}

pub fn replay(job: &Job, choices: &[u32]) -> (Option<Viol>, Ex, Option<String>) {
    let (r, ex) = run_once(job, choices);
    match r {
        Ran::Ok(_) => (None, ex, None),
        Ran::Viol(v) => (Some(v), ex, None),
        Ran::Engine(e) => (None, ex, Some(e)),
    }
}

pub struct Config {
    pub workers: usize,
    pub wall: Duration,
    pub max_found: usize,
    /// violations with these signatures don't stop a job
    pub known: Vec<String>,
}

struct Queue {
    /// job, prefix, the execution it branches off from
    items: Vec<(usize, Vec<u32>, Arc<Vec<Point>>)>,
    running: usize,
}

/// Runs every job to completion of its bounded choice tree.
pub fn run(jobs: &[Job], cfg: &Config) -> Report {
    let start = Instant::now();
    let profile = std::env::var_os("MC_PROFILE").is_some();
    let q = Mutex::new(Queue { items: (0..jobs.len()).rev().map(|i| (i, vec![], Arc::new(vec![]))).collect(), running: 0 });
    let cv = Condvar::new();
    let rep = Mutex::new(Report { jobs: jobs.len() as u64, ..Default::default() });
    let stop = AtomicBool::new(false);
    let progress: Vec<(AtomicU64, Mutex<String>)> = (0..cfg.workers).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        // watchdog: an execution that takes minutes does not terminate
        let dog = s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64 + 1;
                for (t, name) in &progress {
                    let t0 = t.load(Ordering::Relaxed);
                    if t0 != 0 && now > t0 + 240_000 {
                        println!("HANG {}", name.lock().unwrap());
                        std::process::exit(7);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..cfg.workers)
            .map(|w| {
                let (q, cv, rep, stop, progress) = (&q, &cv, &rep, &stop, &progress);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        let item = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    cv.notify_all();
                                    return;
                                }
                                if let Some(x) = g.items.pop() {
                                    g.running += 1;
                                    break x;
                                }
                                if g.running == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                            }
                        };
                        if start.elapsed() > cfg.wall {
                            rep.lock().unwrap().capped = true;
                            stop.store(true, Ordering::Relaxed);
                            return;
                        }
                        let (ji, prefix, parent) = item;
                        let job = &jobs[ji];
                        *progress[w].1.lock().unwrap() = format!("{} {:?}", job.name, prefix);
                        progress[w].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let begun = Instant::now();
                        let (mut r, mut ex) = run_once(job, &prefix);
                        // (a lock shared with another worker's execution may have been contended)
                        for _ in 0..3 {
                            if matches!(r, Ran::Engine(_)) {
                                rep.lock().unwrap().retried += 1;
                                (r, ex) = run_once(job, &prefix);
                            }
                        }
                        let took = begun.elapsed();
                        progress[w].0.store(0, Ordering::Relaxed);
                        let trace = Arc::new(ex.trace());
                        if let Ran::Engine(e) = &mut r {
                            let l: Vec<String> = trace.iter().skip(prefix.len().saturating_sub(8)).map(|p| format!("{} {}/{}", p.label, p.choice, p.n)).collect();
                            let m: Vec<String> = parent.iter().skip(prefix.len().saturating_sub(8)).map(|p| format!("{} {}/{}", p.label, p.choice, p.n)).collect();
                            *e = format!("{e}: {prefix:?} after {m:?} gave {l:?}");
                        }
                        let mut children = vec![];
                        let is_known = matches!(&r, Ran::Viol(v) if !v.sig.is_empty() && cfg.known.contains(&v.sig));
                        if matches!(r, Ran::Ok(_)) || is_known {
                            let mut c = cost(&trace[..prefix.len().min(trace.len())]);
                            for i in prefix.len()..trace.len() {
                                let p = &trace[i];
                                let add = usize::from(!p.free);
                                if c + add <= job.bound {
                                    for alt in 1..p.n {
                                        let mut pre: Vec<u32> = trace[..i].iter().map(|p| p.choice).collect();
                                        pre.push(alt);
                                        children.push((ji, pre, trace.clone()));
                                    }
                                }
                                c += usize::from(!p.free && p.choice != 0);
                            }
                        }
                        {
                            let mut g = rep.lock().unwrap();
                            g.executions += 1;
                            if profile {
                                let e = g.profile.entry(job.name.clone()).or_insert((0, 0.0));
                                e.0 += 1;
                                e.1 += took.as_secs_f64();
                            }
                            g.points += (trace.len() - prefix.len().min(trace.len())) as u64 + u64::from(!prefix.is_empty());
                            let d = cost(&trace);
                            g.max_deviations = g.max_deviations.max(d);
                            g.deviating += u64::from(trace.iter().any(|p| p.choice != 0));
                            match r {
                                Ran::Ok(o) => {
                                    if std::env::var_os("MC_SHOW").is_some() {
                                        println!("{} [{} points] -> {o}", job.name, trace.len());
                                        if std::env::var_os("MC_TRACE").is_some() {
                                            for p in trace.iter() {
                                                println!("   {} {}/{}", p.label, p.choice, p.n);
                                            }
                                        }
                                    }
                                    let key = format!("{}|{o}", job.name);
                                    if g.outcomes.insert(hash(&key)) && g.samples.len() < 6 && g.outcomes.len() % 7 == 1 {
                                        g.samples.push(format!(
                                            "{} choices={:?} -> {}",
                                            job.name,
                                            trace.iter().map(|p| p.choice).collect::<Vec<_>>(),
                                            o.chars().take(160).collect::<String>()
                                        ));
                                    }
                                }
                                Ran::Viol(v) => {
                                    let choices: Vec<u32> = trace.iter().map(|p| p.choice).collect();
                                    if is_known && g.found.iter().any(|f| f.viol.sig == v.sig) {
                                    } else {
                                        g.found.push(Found { job: job.name.clone(), choices, trace: trace.to_vec(), viol: v, notes: ex.notes() });
                                    }
                                    if g.found.iter().filter(|f| !cfg.known.contains(&f.viol.sig)).count() >= cfg.max_found {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Ran::Engine(e) => {
                                    g.engine_errors.push(e);
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let mut g = q.lock().unwrap();
                        g.items.extend(children);
                        g.running -= 1;
                        cv.notify_all();
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
        let _ = dog.join();
    });
    let mut rep = rep.into_inner().unwrap();
    let mut p: Vec<_> = rep.profile.iter().collect();
    p.sort_by(|a, b| b.1 .1.total_cmp(&a.1 .1));
    for (n, (k, t)) in p.iter().take(25) {
        println!("{t:8.2} s {k:8} executions  {n}");
    }
    rep.counters = COUNTERS.lock().unwrap().clone();
    rep
}
