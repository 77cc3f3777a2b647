//! I/O interposition: the libc entry points std uses for file I/O are defined here (the executable's
//! definitions take precedence over libc's), so that operations on one chosen file descriptor can
//! be counted, failed, interrupted or cut short. Everything else passes straight to the kernel.
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU64, Ordering::Relaxed};

/// What happens to the chosen operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(i32)]
pub enum Kind {
    None = 0,
    /// Fails with EIO (once).
    Fail = 1,
    /// Fails with ENOSPC from then on (writes and resizes only).
    FailForever = 2,
    /// Interrupted (EINTR), once (reads and writes only).
    Interrupt = 3,
    /// Every read and write transfers at most `SHORT` bytes.
    Short = 4,
    /// Reads and writes are interrupted and cut short in turns, starting with phase `at`.
    Storm = 5,
    /// Writes from `ZEROS` become holes of the file.
    Holes = 6,
}

static FD: AtomicI32 = AtomicI32::new(-1);
static KIND: AtomicI32 = AtomicI32::new(0);
static AT: AtomicI64 = AtomicI64::new(-1);
static COUNT: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static TRIGGERED: AtomicI64 = AtomicI64::new(0);
static MODIFIED: AtomicI64 = AtomicI64::new(0);
static MOD_AT_TRIGGER: AtomicI64 = AtomicI64::new(-1);
static SHORT: AtomicU64 = AtomicU64::new(1);
static OVER: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Seek,
    Resize,
}

/// Memory (start, length) that holds nothing but zeros.
pub static ZEROS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(Vec::new());

#[cfg(feature = "interpose")]
fn zeros(buf: usize, n: usize) -> bool {
    ZEROS.lock().map_or(false, |z| z.iter().any(|(p, k)| n > 0 && *p <= buf && buf + n <= p + k))
}

type Hook = (i32, Box<dyn FnMut()>);

thread_local! {
    static HOOK_FD: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) };
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
}

/// Runs `f` while every operation this thread performs on `fd` is preceded by `hook` (which isn't
/// preceded by itself).
pub fn hooked<T>(fd: i32, hook: Box<dyn FnMut()>, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK_FD.with(|c| c.set(-1));
            HOOK.with(|h| *h.borrow_mut() = None);
        }
    }
    HOOK.with(|h| *h.borrow_mut() = Some((fd, hook)));
    HOOK_FD.with(|c| c.set(fd));
    let _reset = Reset;
    f()
}

#[cfg(feature = "interpose")]
fn at_op(fd: i32) {
    if fd < 0 || HOOK_FD.try_with(|c| c.get()).unwrap_or(-1) != fd {
        return;
    }
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some((fd, mut h)) = h {
        h();
        HOOK.with(|x| *x.borrow_mut() = Some((fd, h)));
    }
}

static METER: AtomicI32 = AtomicI32::new(0);
static METERED: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);

/// What all operations on all files cost.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Cost {
    pub ops: u64,
    pub read: u64,
    pub written: u64,
}

/// Runs `f` and counts what this process transfers to and from files meanwhile. When that exceeds
/// `budget` bytes, operations fail.
pub fn metered<T>(budget: u64, f: impl FnOnce() -> T) -> (T, Cost) {
    METERED.iter().for_each(|m| m.store(0, Relaxed));
    BUDGET.store(budget, Relaxed);
    METER.store(1, Relaxed);
    let r = f();
    METER.store(0, Relaxed);
    let [ops, read, written] = [0, 1, 2].map(|i| METERED[i].load(Relaxed));
    (r, Cost { ops, read, written })
}

/// Kind of the operation the fault hit first: 1 + Op, 0 for none.
static HIT: AtomicU64 = AtomicU64::new(0);

/// Start counting operations on `fd`; operation number `at` (from 0) gets `kind`.
/// After `limit` operations every further one fails with EIO and `over()` reports true.
pub fn arm(fd: i32, kind: Kind, at: i64, short: u64, limit: i64) {
    KIND.store(kind as i32, Relaxed);
    AT.store(at, Relaxed);
    COUNT.store(0, Relaxed);
    TRIGGERED.store(0, Relaxed);
    MODIFIED.store(0, Relaxed);
    MOD_AT_TRIGGER.store(-1, Relaxed);
    SHORT.store(short.max(1), Relaxed);
    LIMIT.store(limit, Relaxed);
    OVER.store(0, Relaxed);
    HIT.store(0, Relaxed);
    FD.store(fd, Relaxed);
}

#[derive(Clone, Copy, Debug)]
pub struct Report {
    pub ops: i64,
    pub triggered: bool,
    /// Number of successful modifying operations before the fault triggered.
    pub modified_before: i64,
    pub modified: i64,
    pub over_limit: bool,
    /// The operation the fault hit (first).
    pub hit: Option<Op>,
}

pub fn disarm() -> Report {
    METER.store(0, Relaxed);
    FD.store(-1, Relaxed);
    let modified = MODIFIED.load(Relaxed);
    let mt = MOD_AT_TRIGGER.load(Relaxed);
    Report {
        ops: COUNT.load(Relaxed),
        triggered: TRIGGERED.load(Relaxed) != 0,
        modified_before: if mt < 0 { modified } else { mt },
        modified,
        over_limit: OVER.load(Relaxed) != 0,
        hit: match HIT.load(Relaxed) {
            1 => Some(Op::Read),
            2 => Some(Op::Write),
            3 => Some(Op::Seek),
            4 => Some(Op::Resize),
            _ => None,
        },
    }
}

#[cfg(feature = "interpose")]
mod hooks {
    use super::*;
    use libc::{c_int, c_void, off_t, size_t, ssize_t};

    unsafe fn errno(e: c_int) -> ssize_t {
        *libc::__errno_location() = e;
        -1
    }

    /// Decides about one operation: Ok(max bytes) or Err(errno).
    fn gate(fd: c_int, op: Op) -> Result<Option<u64>, c_int> {
        at_op(fd);
        if METER.load(Relaxed) != 0 {
            METERED[0].fetch_add(1, Relaxed);
            if METERED[1].load(Relaxed) + METERED[2].load(Relaxed) > BUDGET.load(Relaxed) {
                return Err(libc::EIO);
            }
        }
        if FD.load(Relaxed) != fd || fd < 0 {
            return Ok(None);
        }
        let n = COUNT.fetch_add(1, Relaxed);
        if n >= LIMIT.load(Relaxed) {
            OVER.store(1, Relaxed);
            return Err(libc::EIO);
        }
        let at = AT.load(Relaxed);
        let trig = || {
            if TRIGGERED.swap(1, Relaxed) == 0 {
                MOD_AT_TRIGGER.store(MODIFIED.load(Relaxed), Relaxed);
                HIT.store(1 + op as u64, Relaxed);
            }
        };
        match KIND.load(Relaxed) {
            1 if n == at => {
                trig();
                Err(libc::EIO)
            }
            2 if n >= at && matches!(op, Op::Write | Op::Resize) => {
                trig();
                Err(libc::ENOSPC)
            }
            3 if n == at && matches!(op, Op::Read | Op::Write) => {
                trig();
                Err(libc::EINTR)
            }
            4 if matches!(op, Op::Read | Op::Write) => {
                trig();
                Ok(Some(SHORT.load(Relaxed)))
            }
            5 if matches!(op, Op::Read | Op::Write) => {
                trig();
                match (n + at).rem_euclid(3) {
                    0 => Err(libc::EINTR),
                    1 => Ok(Some(SHORT.load(Relaxed))),
                    _ => Ok(Some(1 + (n as u64 * 37 + SHORT.load(Relaxed)) % 5000)),
                }
            }
            _ => Ok(None),
        }
    }
    fn done(fd: c_int, op: Op, r: ssize_t) {
        if r > 0 && METER.load(Relaxed) != 0 {
            match op {
                Op::Read => METERED[1].fetch_add(r as u64, Relaxed),
                Op::Write => METERED[2].fetch_add(r as u64, Relaxed),
                _ => 0,
            };
        }
        if FD.load(Relaxed) == fd && fd >= 0 && r >= 0 && matches!(op, Op::Write | Op::Resize) {
            MODIFIED.fetch_add(1, Relaxed);
        }
    }

    /// Stands in for a write of `n` zeros.
    unsafe fn hole(fd: c_int, n: usize, at: Option<i64>) -> ssize_t {
        let n = n.min(0x7fff_f000);
        let pos = at.unwrap_or_else(|| libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR));
        let end = pos + n as i64;
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st);
        let punch = libc::FALLOC_FL_PUNCH_HOLE | libc::FALLOC_FL_KEEP_SIZE;
        if libc::syscall(libc::SYS_fallocate, fd, punch, pos, n as i64) < 0 {
            return -1;
        }
        if st.st_size < end && libc::syscall(libc::SYS_ftruncate, fd, end) < 0 {
            return -1;
        }
        if at.is_none() {
            libc::syscall(libc::SYS_lseek, fd, end, libc::SEEK_SET);
        }
        n as ssize_t
    }

    macro_rules! rw {
        ($name:ident, $sys:expr, $op:expr, $buf:ty $(, $extra:ident)?) => {
            #[no_mangle]
            pub unsafe extern "C" fn $name(fd: c_int, buf: $buf, n: size_t $(, $extra: off_t)?) -> ssize_t {
                match gate(fd, $op) {
                    Err(e) => errno(e),
                    Ok(m) => {
                        let n = m.map_or(n, |m| n.min(m as usize));
                        if matches!($op, Op::Write) && KIND.load(Relaxed) == Kind::Holes as i32 && FD.load(Relaxed) == fd && zeros(buf as usize, n) {
                            let at: Option<i64> = None$(.or(Some($extra)))?;
                            let r = hole(fd, n, at);
                            done(fd, $op, r);
                            return r;
                        }
                        let r = libc::syscall($sys, fd, buf, n $(, $extra)?) as ssize_t;
                        done(fd, $op, r);
                        r
                    }
                }
            }
        };
    }
    rw!(read, libc::SYS_read, Op::Read, *mut c_void);
    rw!(write, libc::SYS_write, Op::Write, *const c_void);
    rw!(pread64, libc::SYS_pread64, Op::Read, *mut c_void, off);
    rw!(pwrite64, libc::SYS_pwrite64, Op::Write, *const c_void, off);

    unsafe fn vec_total_cut(iov: *const libc::iovec, cnt: c_int, max: u64) -> (Vec<libc::iovec>, usize) {
        let mut out = Vec::new();
        let mut left = max as usize;
        for i in 0..cnt as usize {
            let mut v = *iov.add(i);
            v.iov_len = v.iov_len.min(left);
            left -= v.iov_len;
            out.push(v);
        }
        let n = out.len();
        (out, n)
    }
    macro_rules! rwv {
        ($name:ident, $sys:expr, $op:expr) => {
            #[no_mangle]
            pub unsafe extern "C" fn $name(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
                match gate(fd, $op) {
                    Err(e) => errno(e),
                    Ok(None) => {
                        let r = libc::syscall($sys, fd, iov, cnt) as ssize_t;
                        done(fd, $op, r);
                        r
                    }
                    Ok(Some(m)) => {
                        let (v, n) = vec_total_cut(iov, cnt, m);
                        let r = libc::syscall($sys, fd, v.as_ptr(), n) as ssize_t;
                        done(fd, $op, r);
                        r
                    }
                }
            }
        };
    }
    rwv!(readv, libc::SYS_readv, Op::Read);
    rwv!(writev, libc::SYS_writev, Op::Write);

    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
        match gate(fd, Op::Seek) {
            Err(e) => errno(e) as i64,
            Ok(_) => libc::syscall(libc::SYS_lseek, fd, off, whence),
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
        match gate(fd, Op::Resize) {
            Err(e) => errno(e) as c_int,
            Ok(_) => {
                let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
                done(fd, Op::Resize, r as ssize_t);
                r
            }
        }
    }
}
