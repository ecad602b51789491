//! Counting allocator: live bytes and peak while tracking is on, and the
//! largest single request. Allocations of harness code (shim::Bypass) are
//! counted too, so trackers keep harness work small.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BIG: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
/// requests above this size are refused while tracking
const LIMIT: usize = 1 << 30;

fn add(n: i64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if n > 0 {
        CALLS.fetch_add(1, Relaxed);
        BYTES.fetch_add(n as u64, Relaxed);
        PEAK.fetch_max(l, Relaxed);
        BIG.fetch_max(n as u64, Relaxed);
    }
}

fn on() -> bool { ON.load(Relaxed) && !crate::shim::bypassed() }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() {
            if l.size() > LIMIT { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            add(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if on() {
            if l.size() > LIMIT { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            add(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() { add(-(l.size() as i64)); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if on() {
            if n > LIMIT { REFUSED.fetch_add(1, Relaxed); return std::ptr::null_mut(); }
            // the old and the new block exist together at worst
            add(n as i64);
            let r = System.realloc(p, l, n);
            add(-(l.size() as i64));
            return r;
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage { pub peak: i64, pub left: i64, pub big: u64, pub refused: u64, pub calls: u64, pub bytes: u64 }

/// Run `f` and measure the heap it uses (all threads)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    BIG.store(0, Relaxed);
    REFUSED.store(0, Relaxed);
    CALLS.store(0, Relaxed);
    BYTES.store(0, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, Usage {
        peak: PEAK.load(Relaxed), left: LIVE.load(Relaxed),
        calls: CALLS.load(Relaxed), bytes: BYTES.load(Relaxed),
        big: BIG.load(Relaxed), refused: REFUSED.load(Relaxed),
    })
}
/// Reset the peak in the middle of a measurement, returns the live bytes
pub fn mark() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> i64 { PEAK.load(Relaxed) }
