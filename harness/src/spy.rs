//! An allocator that looks into every block of memory a thread releases while it is watched.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Spy;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hit {
    pub needle: usize,
    pub block: usize,
    pub at: usize,
}

pub struct Watch {
    pub needles: Vec<(String, Vec<u8>)>,
    hits: UnsafeCell<([Hit; 32], usize)>,
    blocks: Cell<u64>,
}

thread_local! {
    static ARMED: Cell<*const Watch> = const { Cell::new(std::ptr::null()) };
}

fn armed() -> Option<&'static Watch> {
    let p = ARMED.try_with(Cell::get).unwrap_or(std::ptr::null());
    unsafe { p.as_ref() }
}

impl Watch {
    pub fn new(needles: Vec<(String, Vec<u8>)>) -> Watch {
        Watch { needles, hits: UnsafeCell::new(([Hit { needle: 0, block: 0, at: 0 }; 32], 0)), blocks: Cell::new(0) }
    }

    /// Runs with every release of memory of this thread inspected.
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ARMED.with(|a| a.set(std::ptr::null()));
            }
        }
        ARMED.with(|a| a.set(self));
        let _off = Off;
        f()
    }

    pub fn hits(&self) -> Vec<Hit> {
        let h = unsafe { &*self.hits.get() };
        h.0[..h.1].to_vec()
    }

    pub fn blocks(&self) -> u64 {
        self.blocks.get()
    }

    unsafe fn look(&self, p: *const u8, n: usize, align: usize) {
        self.blocks.set(self.blocks.get() + 1);
        for (i, (_, needle)) in self.needles.iter().enumerate() {
            if n < needle.len() {
                continue;
            }
            let at = libc::memmem(p.cast(), n, needle.as_ptr().cast(), needle.len());
            // values with unused parts (padding, other variants) get there with whatever the stack had
            if !at.is_null() && (align == 1 || at as usize == p as usize) {
                if std::env::var_os("MC_SPY").is_some() {
                    let was = ARMED.with(|a| a.replace(std::ptr::null()));
                    eprintln!("{:?} in {n} bytes: {}", self.needles[i].0, std::backtrace::Backtrace::force_capture());
                    ARMED.with(|a| a.set(was));
                }
                let h = &mut *self.hits.get();
                if h.1 < h.0.len() {
                    h.0[h.1] = Hit { needle: i, block: n, at: at as usize - p as usize };
                    h.1 += 1;
                }
            }
        }
    }
}

unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && armed().is_some() {
            // what was in this memory before isn't of this operation
            p.write_bytes(0xa5, l.size());
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(w) = armed() {
            w.look(p, l.size(), l.align());
        }
        System.dealloc(p, l);
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if armed().is_none() {
            return System.realloc(p, l, n);
        }
        // always to another place, as it may be
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
