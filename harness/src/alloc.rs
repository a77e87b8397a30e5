//! An allocator that now and then lets other threads run first: nearly
//! everything the library does allocates, also between its locks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

/// One in `ONE_IN` allocations and releases pauses; 0 is off.
static ONE_IN: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
pub static PAUSES: AtomicU64 = AtomicU64::new(0);

static COUNT: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
/// Counts the bytes allocated and not released from now on.
pub fn count(on: bool) {
    COUNT.store(on, Relaxed);
}
/// Bytes allocated less bytes released while counting; only differences mean something.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
fn add(n: i64) {
    if COUNT.load(Relaxed) {
        LIVE.fetch_add(n, Relaxed);
    }
}

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}

struct Pausing;
#[global_allocator]
static ALLOC: Pausing = Pausing;

#[cold]
fn maybe_pause(n: u64) {
    let _ = STATE.try_with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        if (x >> 11) % n == 0 {
            PAUSES.fetch_add(1, Relaxed);
            unsafe {
                if x & 1 == 0 {
                    libc::sched_yield();
                } else {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 32) % 200_000) as i64 };
                    libc::nanosleep(&ts, std::ptr::null_mut());
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Pausing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = ONE_IN.load(Relaxed);
        if n != 0 {
            maybe_pause(n);
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = ONE_IN.load(Relaxed);
        if n != 0 {
            maybe_pause(n);
        }
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Pauses one in `one_in` allocations from now on.
pub fn pauses_start(one_in: u64, seed: u64) {
    SEED.store(seed, Relaxed);
    ONE_IN.store(one_in, Relaxed);
}
pub fn pauses_stop() {
    ONE_IN.store(0, Relaxed);
}
