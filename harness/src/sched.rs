//! A cooperative scheduler for the real threads of the code under test.
//!
//! Thread creation, joining, futexes (locks, parking, channels), sleeping and yielding are
//! intercepted; of the threads of one execution only the one holding the token runs, and at every
//! point (a storage or stream call, or one of the above) the explorer decides which goes on.

use crate::explore::Ex;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    /// waiting for a thread to end
    Join(usize),
    /// waiting on a futex with this value; whether it has a timeout
    Futex(usize, u32, bool),
    /// gave way to the others
    Yield,
    /// waiting for all others to end
    Drain,
    Done,
}

struct State {
    threads: Vec<St>,
    handles: Vec<Option<libc::pthread_t>>,
    current: usize,
    /// threads are woken in creation order instead of being chosen
    free_run: bool,
    switches: u64,
    points: u64,
    timed_out: Vec<bool>,
    /// another than the first thread that can go on, when one has to wait, counts as a deviation
    delay_bounded: bool,
    /// starting a thread may fail
    fail_spawn: bool,
    spawns: u32,
}

pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
    ex: Ex,
    os: std::sync::OnceLock<Arc<crate::osx::Os>>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// the scheduler's own locks use the real calls
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    if INSIDE.try_with(|i| i.get()).unwrap_or(true) {
        return None;
    }
    ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten()
}

struct Inside;
impl Inside {
    fn new() -> Inside {
        let _ = INSIDE.try_with(|i| i.set(true));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(false));
    }
}

impl Sched {
    /// Chooses who runs next; called by the token holder with its new state.
    fn reschedule(&self, g: &mut State, me: usize, label: &str) {
        let mut enabled: Vec<usize> = vec![];
        for t in 0..g.threads.len() {
            match g.threads[t] {
                St::Join(o) if g.threads[o] == St::Done => g.threads[t] = St::Ready,
                St::Drain if (0..g.threads.len()).all(|o| o == t || g.threads[o] == St::Done) => g.threads[t] = St::Ready,
                _ => {}
            }
            if g.threads[t] == St::Ready {
                enabled.push(t);
            }
        }
        if enabled.is_empty() {
            for t in 0..g.threads.len() {
                if g.threads[t] == St::Yield {
                    g.threads[t] = St::Ready;
                    enabled.push(t);
                }
            }
        } else {
            for t in 0..g.threads.len() {
                // one step of another thread is enough
                if g.threads[t] == St::Yield && t != me {
                    g.threads[t] = St::Ready;
                }
            }
        }
        if enabled.is_empty() {
            // nothing can happen but a timeout
            if let Some(t) = (0..g.threads.len()).find(|t| matches!(g.threads[*t], St::Futex(_, _, true))) {
                g.threads[t] = St::Ready;
                g.timed_out[t] = true;
                enabled.push(t);
            } else if let Some(t) = self.woken_from_outside(g) {
                g.threads[t] = St::Ready;
                enabled.push(t);
            } else {
                println!("HANG deadlock: {:?} at {label}", g.threads);
                for n in self.ex.notes() {
                    println!("HANG | {n}");
                }
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(7);
            }
        }
        g.points += 1;
        let next = if let Some(i) = enabled.iter().position(|t| *t == me) {
            enabled.swap(0, i);
            enabled[1..].sort_unstable();
            if g.free_run {
                me
            } else {
                enabled[self.ask(|| self.ex.choose(&format!("T{me} {label}"), enabled.len() as u32))]
            }
        } else if g.free_run {
            enabled[0]
        } else if g.delay_bounded {
            enabled[self.ask(|| self.ex.choose(&format!("T{me} {label} blocks"), enabled.len() as u32))]
        } else {
            enabled[self.ask(|| self.ex.pick(&format!("T{me} {label} blocks"), enabled.len() as u32))]
        };
        if next != me {
            g.switches += 1;
            self.ex.note(format!("switch to thread {next} at {label} of thread {me}"));
        }
        g.current = next;
        self.cv.notify_all();
    }

    /// A divergence is recorded by the explorer; the threads still have to come to an end.
    fn ask(&self, f: impl FnOnce() -> u32) -> usize {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(0) as usize
    }

    /// A waiting thread whose futex has changed: it was shared with something that isn't scheduled.
    fn woken_from_outside(&self, g: &State) -> Option<usize> {
        for _ in 0..2000 {
            for (t, st) in g.threads.iter().enumerate() {
                if let St::Futex(a, v, _) = st {
                    let word = unsafe { &*(*a as *const std::sync::atomic::AtomicU32) };
                    if word.load(std::sync::atomic::Ordering::SeqCst) != *v {
                        return Some(t);
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        None
    }

    fn wait_turn(&self, mut g: std::sync::MutexGuard<'_, State>, me: usize) {
        while g.current != me {
            g = self.cv.wait(g).unwrap();
        }
    }

    fn step(&self, me: usize, st: St, label: &str) {
        let _i = Inside::new();
        let mut g = self.st.lock().unwrap();
        debug_assert_eq!(g.current, me);
        g.threads[me] = st;
        // (unwinding out of here on divergence: the process is about to end anyway)
        self.reschedule(&mut g, me, label);
        self.wait_turn(g, me);
    }
}

/// A point at which another thread may run.
pub fn point(label: &str) {
    if let Some((s, t)) = me() {
        s.step(t, St::Ready, label);
    }
}

/// What the running thread's file operations are subject to
pub fn os_of_me() -> Option<Arc<crate::osx::Os>> {
    me().and_then(|(s, _)| s.os.get().cloned())
}

/// A choice of a thread that must not unwind from where it is made
pub fn ask(f: impl FnOnce() -> u32) -> u32 {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(0)
}

/// Runs the closure as thread 0 of a controlled execution.
pub struct Run {
    sched: Arc<Sched>,
}

impl Run {
    /// Without choices: the running thread goes on until it has to wait.
    pub fn start_free(ex: &Ex) -> Run {
        let r = Run::start(ex);
        {
            let _i = Inside::new();
            r.sched.st.lock().unwrap().free_run = true;
        }
        r
    }

    pub fn start(ex: &Ex) -> Run {
        let sched = Arc::new(Sched {
            st: Mutex::new(State {
                threads: vec![St::Ready],
                handles: vec![None],
                current: 0,
                free_run: false,
                switches: 0,
                points: 0,
                timed_out: vec![false],
                delay_bounded: false,
                fail_spawn: false,
                spawns: 0,
            }),
            cv: Condvar::new(),
            ex: ex.clone(),
            os: std::sync::OnceLock::new(),
        });
        ME.with(|m| *m.borrow_mut() = Some((sched.clone(), 0)));
        Run { sched }
    }

    /// From here on, the real file operations below a directory count.
    pub fn os(&self, os: Arc<crate::osx::Os>) {
        let _ = self.sched.os.set(os);
    }

    pub fn delay_bounded(&self) {
        let _i = Inside::new();
        self.sched.st.lock().unwrap().delay_bounded = true;
    }

    /// From here on, starting a thread is a call that may fail.
    pub fn fail_spawn(&self) {
        let _i = Inside::new();
        self.sched.st.lock().unwrap().fail_spawn = true;
    }

    /// Threads that have not ended yet (besides this one).
    pub fn running(&self) -> usize {
        let _i = Inside::new();
        let g = self.sched.st.lock().unwrap();
        g.threads[1..].iter().filter(|t| **t != St::Done).count()
    }

    /// Lets all other threads run to their end, without further choices.
    pub fn drain(&self) {
        {
            let _i = Inside::new();
            self.sched.st.lock().unwrap().free_run = true;
        }
        if self.running() > 0 {
            self.sched.step(0, St::Drain, "end");
        }
    }

    /// (threads, points, switches)
    pub fn stats(&self) -> (usize, u64, u64) {
        let _i = Inside::new();
        let g = self.sched.st.lock().unwrap();
        (g.threads.len(), g.points, g.switches)
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        if self.running() > 0 {
            self.drain();
        }
        ME.with(|m| *m.borrow_mut() = None);
    }
}

// ---- interposed functions ------------------------------------------------------------------

unsafe fn real(name: &'static std::ffi::CStr, cell: &std::sync::atomic::AtomicUsize) -> usize {
    use std::sync::atomic::Ordering;
    let mut p = cell.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        assert!(p != 0);
        cell.store(p, Ordering::Relaxed);
    }
    p
}

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static CELL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        std::mem::transmute::<usize, $ty>(real($name, &CELL))
    }};
}

thread_local! {
    /// the directory for temporary files of this execution, if it has one of its own
    static TMP: std::cell::Cell<*const libc::c_char> = const { std::cell::Cell::new(std::ptr::null()) };
}

/// From here on, this thread and those it starts have their own directory for temporary files;
/// says whether there was none.
pub fn own_tmp(dir: Option<&std::path::Path>) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let Some(d) = dir else {
        TMP.set(std::ptr::null());
        return true;
    };
    if !TMP.get().is_null() {
        return false;
    }
    // (a thread may still use it at any later time)
    TMP.set(std::ffi::CString::new(d.as_os_str().as_bytes()).unwrap().into_raw());
    true
}

#[no_mangle]
unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    type F = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::c_char;
    let tmp = TMP.try_with(|t| t.get()).unwrap_or(std::ptr::null());
    if !tmp.is_null() && std::ffi::CStr::from_ptr(name) == c"TMPDIR" {
        return tmp.cast_mut();
    }
    next!(c"getenv", F)(name)
}

struct Heir {
    tmp: *const libc::c_char,
    f: Start,
    arg: *mut libc::c_void,
}

extern "C" fn inherit(p: *mut libc::c_void) -> *mut libc::c_void {
    let h = unsafe { Box::from_raw(p.cast::<Heir>()) };
    TMP.set(h.tmp);
    let (f, arg) = (h.f, h.arg);
    drop(h);
    f(arg)
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;

struct Boot {
    sched: Arc<Sched>,
    id: usize,
    f: Start,
    arg: *mut libc::c_void,
}

extern "C" fn boot(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(p.cast::<Boot>()) };
    {
        let _i = Inside::new();
        let g = b.sched.st.lock().unwrap();
        b.sched.wait_turn(g, b.id);
        ME.with(|m| *m.borrow_mut() = Some((b.sched.clone(), b.id)));
    }
    let r = (b.f)(b.arg);
    let _i = Inside::new();
    ME.with(|m| *m.borrow_mut() = None);
    let mut g = b.sched.st.lock().unwrap();
    g.threads[b.id] = St::Done;
    b.sched.reschedule(&mut g, b.id, "exit");
    r
}

#[no_mangle]
unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: Start,
    arg: *mut libc::c_void,
) -> libc::c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> libc::c_int;
    let create = next!(c"pthread_create", F);
    let tmp = TMP.try_with(|t| t.get()).unwrap_or(std::ptr::null());
    let (f, arg) = if tmp.is_null() {
        (f, arg)
    } else {
        let _i = Inside::new();
        (inherit as Start, Box::into_raw(Box::new(Heir { tmp, f, arg })).cast())
    };
    let Some((s, me)) = me() else { return create(t, attr, f, arg) };
    {
        let _i = Inside::new();
        let n = {
            let mut g = s.st.lock().unwrap();
            g.spawns += 1;
            g.fail_spawn.then_some(g.spawns)
        };
        if let Some(n) = n {
            if s.ask(|| s.ex.choose(&format!("spawn#{n}"), 2)) == 1 {
                s.ex.note(format!("starting thread {n} fails"));
                return libc::EAGAIN;
            }
        }
    }
    let r = {
        let _i = Inside::new();
        let id = {
            let mut g = s.st.lock().unwrap();
            g.threads.push(St::Ready);
            g.handles.push(None);
            g.timed_out.push(false);
            g.threads.len() - 1
        };
        let b = Box::into_raw(Box::new(Boot { sched: s.clone(), id, f, arg }));
        let r = create(t, attr, boot, b.cast());
        let mut g = s.st.lock().unwrap();
        if r != 0 {
            drop(Box::from_raw(b));
            g.threads[id] = St::Done;
        } else {
            g.handles[id] = Some(*t);
        }
        r
    };
    s.step(me, St::Ready, "spawn");
    r
}

#[no_mangle]
unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> libc::c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> libc::c_int;
    let join = next!(c"pthread_join", F);
    if let Some((s, me)) = me() {
        let id = {
            let _i = Inside::new();
            let g = s.st.lock().unwrap();
            g.handles.iter().rposition(|h| *h == Some(t))
        };
        if let Some(id) = id {
            s.step(me, St::Join(id), "join");
        }
    }
    join(t, out)
}

/// A static variable is shared with the executions of other workers (such as the lock of Rust's
/// runtime that is taken when any thread starts or ends).
fn shared(a: usize) -> bool {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    (&raw const __data_start as usize..&raw const _end as usize).contains(&a)
}

const FUTEX_WAIT: usize = 0;
const FUTEX_WAKE: usize = 1;
const FUTEX_WAIT_BITSET: usize = 9;

#[no_mangle]
unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    type F = unsafe extern "C" fn(libc::c_long, usize, usize, usize, usize, usize, usize) -> libc::c_long;
    let call = next!(c"syscall", F);
    if n != libc::SYS_futex {
        return call(n, a, b, c, d, e, f);
    }
    let Some((s, me)) = me() else { return call(n, a, b, c, d, e, f) };
    match b & 0x7f {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let word = &*(a as *const std::sync::atomic::AtomicU32);
            if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            if shared(a) {
                // the holder is most likely part of another worker's execution
                for _ in 0..200_000 {
                    if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                        return 0;
                    }
                    let t = libc::timespec { tv_sec: 0, tv_nsec: 5_000 };
                    call(libc::SYS_nanosleep, &raw const t as usize, 0, 0, 0, 0, 0);
                }
            }
            s.step(me, St::Futex(a, c as u32, d != 0), "wait");
            let _i = Inside::new();
            let mut g = s.st.lock().unwrap();
            if std::mem::take(&mut g.timed_out[me]) {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            0
        }
        FUTEX_WAKE => {
            let mut woken = 0;
            {
                let _i = Inside::new();
                let mut g = s.st.lock().unwrap();
                for t in 0..g.threads.len() {
                    if woken < c as u32 as i64 && matches!(g.threads[t], St::Futex(x, ..) if x == a) {
                        g.threads[t] = St::Ready;
                        woken += 1;
                    }
                }
            }
            if shared(a) && woken < c as u32 as i64 {
                // a worker outside of any schedule may sleep on it
                call(n, a, b, c - woken as usize, d, e, f);
            }
            if woken > 0 {
                s.step(me, St::Ready, "wake");
            }
            woken
        }
        _ => call(n, a, b, c, d, e, f),
    }
}

#[no_mangle]
unsafe extern "C" fn sched_yield() -> libc::c_int {
    if let Some((s, me)) = me() {
        s.step(me, St::Yield, "yield");
    }
    0
}

#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if let Some((s, me)) = me() {
        s.step(me, St::Yield, "sleep");
        return 0;
    }
    clock_nanosleep(libc::CLOCK_REALTIME, 0, req, rem)
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(
    clock: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    type F = unsafe extern "C" fn(libc::clockid_t, libc::c_int, *const libc::timespec, *mut libc::timespec) -> libc::c_int;
    if let Some((s, me)) = me() {
        s.step(me, St::Yield, "sleep");
        return 0;
    }
    next!(c"clock_nanosleep", F)(clock, flags, req, rem)
}
