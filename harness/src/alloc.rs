//! Accounting allocator: while armed it tracks the peak of live bytes allocated since arming and
//! refuses single requests above a hard limit (the process then aborts, which the parent process
//! attributes to the case that was running). The worker processes are single-threaded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Acc;
static ARMED: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);
/// Single requests above this are refused while armed.
pub const HARD: u64 = 1 << 30;

fn add(n: usize) -> bool {
    if ARMED.load(Relaxed) {
        if n as u64 > LARGEST.load(Relaxed) {
            LARGEST.store(n as u64, Relaxed);
        }
        if n as u64 > HARD {
            REFUSED.store(n as u64, Relaxed);
            // tell the parent why this process is about to abort
            let m = b"vharness: allocation above the hard limit refused\n";
            unsafe { libc::syscall(libc::SYS_write, 2, m.as_ptr(), m.len()) };
            return false;
        }
        let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
    }
    true
}
fn sub(n: usize) {
    if ARMED.load(Relaxed) {
        LIVE.fetch_sub(n as i64, Relaxed);
    }
}

unsafe impl GlobalAlloc for Acc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        sub(l.size());
        r
    }
}

pub fn arm() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    LARGEST.store(0, Relaxed);
    ARMED.store(true, Relaxed);
}
/// Returns (peak of live bytes, largest single request) since arming.
pub fn disarm() -> (u64, u64) {
    ARMED.store(false, Relaxed);
    (PEAK.load(Relaxed).max(0) as u64, LARGEST.load(Relaxed))
}
pub fn suspend(f: impl FnOnce()) {
    let a = ARMED.swap(false, Relaxed);
    f();
    ARMED.store(a, Relaxed);
}
