//! Seams through which the harness owns two sources of nondeterminism and cost: the random source
//! and the key-derivation cost.  Everything is off unless the harness switches it on.

use std::cell::RefCell;
use std::sync::atomic::{AtomicU8, Ordering};

static FAST: AtomicU8 = AtomicU8::new(2);

thread_local! {
    static REAL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs the closure with the real key-derivation functions on this thread.
pub fn with_real_kdf<T>(f: impl FnOnce() -> T) -> T {
    REAL.with(|r| r.set(true));
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            REAL.with(|r| r.set(false));
        }
    }
    let _reset = Reset;
    f()
}

/// Whether the memory-hard part of the key-derivation functions is skipped.
pub fn fast_kdf() -> bool {
    if REAL.try_with(|r| r.get()).unwrap_or(false) {
        return false;
    }
    match FAST.load(Ordering::Relaxed) {
        0 => false,
        1 => true,
        _ => {
            let on = std::env::var_os("VERIF_MC_FAST_KDF").map_or(false, |v| v == "1");
            FAST.store(on as u8, Ordering::Relaxed);
            on
        }
    }
}

pub fn set_fast_kdf(on: bool) {
    FAST.store(on as u8, Ordering::Relaxed);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Source {
    /// the system's random source (getrandom)
    System,
    /// rand's ThreadRng
    Thread,
    /// rand's StdRng
    Std,
}

#[derive(Clone, Debug)]
pub enum Mode {
    /// only the system source is replaced (by a generator seeded as given): rand works on it as usual
    Entropy(u64),
    /// every source is replaced by a generator seeded as given
    Seeded(u64),
    /// single-word draws take these values in order, everything else as in Seeded
    Script(Vec<u64>, u64),
}

struct Tape {
    mode: Mode,
    state: u64,
    pos: usize,
    words: usize,
    bytes: usize,
}

thread_local! {
    static TAPE: RefCell<Option<Tape>> = const { RefCell::new(None) };
}

pub fn install(mode: Mode) {
    let seed = match &mode {
        Mode::Entropy(s) | Mode::Seeded(s) | Mode::Script(_, s) => *s,
    };
    let t = Tape { mode, state: seed ^ 0x6a09e667f3bcc908, pos: 0, words: 0, bytes: 0 };
    TAPE.with(|x| *x.borrow_mut() = Some(t));
}

/// Removes the tape; returns the numbers of single-word draws and of bytes it handed out otherwise.
pub fn uninstall() -> (usize, usize) {
    TAPE.with(|x| x.borrow_mut().take()).map_or((0, 0), |t| (t.words, t.bytes))
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Tape {
    fn serves(&self, src: Source) -> bool {
        match self.mode {
            Mode::Entropy(_) => src == Source::System,
            Mode::Seeded(_) | Mode::Script(..) => true,
        }
    }

    fn word(&mut self) -> u64 {
        self.words += 1;
        if let Mode::Script(draws, _) = &self.mode {
            if let Some(v) = draws.get(self.pos) {
                self.pos += 1;
                return *v;
            }
        }
        splitmix(&mut self.state)
    }
}

fn with<T>(src: Source, f: impl FnOnce(&mut Tape) -> T) -> Option<T> {
    TAPE.try_with(|x| {
        let mut x = x.try_borrow_mut().ok()?;
        let t = x.as_mut()?;
        t.serves(src).then(|| f(t))
    })
    .ok()
    .flatten()
}

pub fn next_u64(src: Source) -> Option<u64> {
    with(src, |t| t.word())
}

pub fn next_u32(src: Source) -> Option<u32> {
    with(src, |t| (t.word() >> 32) as u32)
}

/// Fills the buffer, unless no tape is installed for this source.
pub fn fill(src: Source, dest: &mut [u8]) -> bool {
    with(src, |t| {
        if matches!(t.mode, Mode::Script(..)) && (dest.len() == 8 || dest.len() == 4) {
            let w = t.word();
            if dest.len() == 8 {
                dest.copy_from_slice(&w.to_le_bytes());
            } else {
                dest.copy_from_slice(&((w >> 32) as u32).to_le_bytes());
            }
            return;
        }
        t.bytes += dest.len();
        // (what one run draws for one purpose isn't what another run draws for another one)
        let mut state = t.state ^ (dest.len() as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        for c in dest.chunks_mut(8) {
            splitmix(&mut t.state);
            let w = splitmix(&mut state).to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    })
    .is_some()
}
