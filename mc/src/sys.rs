//! Interposes the file-related C library calls of this process (the executable's own definitions
//! take precedence over libc's), so that a check can count, fail, shorten, tear or freeze the
//! file operations of the code under test on the current thread. Calls outside a plan pass through.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    Off,
    /// count only
    Count,
    /// call number k fails once with this errno
    Fail(u64, i32),
    /// call number k and every later one fail
    FailFrom(u64, i32),
    /// the process "dies" before call k: it and everything later have no effect
    Crash(u64),
    /// call k, if a write, transfers only this many bytes; then the process dies
    Torn(u64, usize),
    /// call k, if a transfer, moves at most this many bytes
    ShortAt(u64, usize),
    /// every transfer moves at most this many bytes
    Short(usize),
    /// call k is interrupted (once)
    IntrAt(u64),
    /// every other call is interrupted and transfers are limited
    IntrShort(usize),
    /// a callback sees every call that may change something, before it happens
    Observe,
}

/// What an observer is shown: the number of the call, its kind and, for writes, the descriptor and the data.
pub struct Event<'a> {
    pub n: u64,
    pub what: &'static str,
    pub write: Option<(c_int, &'a [u8])>,
}
type Hook = Box<dyn FnMut(&Event)>;


thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan::Off) };
    static N: Cell<u64> = const { Cell::new(0) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static LAST_LEN: Cell<usize> = const { Cell::new(0) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
    static LOG: std::cell::RefCell<Vec<(&'static str, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub struct Report {
    pub calls: u64,
    /// the planned event happened
    pub hit: bool,
    pub log: Vec<(&'static str, usize)>,
}

/// Runs f with the plan active on this thread.
pub fn with<T>(p: Plan, log: bool, f: impl FnOnce() -> T) -> (T, Report) {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            PLAN.set(Plan::Off);
            LOGGING.set(false);
        }
    }
    N.set(0);
    HIT.set(false);
    LOGGING.set(log);
    LOG.with(|l| l.borrow_mut().clear());
    let g = Guard;
    PLAN.set(p);
    let r = f();
    drop(g);
    (r, Report { calls: N.get(), hit: HIT.get(), log: LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) })
}

/// Runs f; the observer is called before every call that may change something on disk. Calls made by
/// the observer itself pass through.
pub fn observe<T>(h: impl FnMut(&Event), f: impl FnOnce() -> T) -> (T, Report) {
    // the hook does not outlive this function
    let h: Box<dyn FnMut(&Event)> = Box::new(h);
    let h: Hook = unsafe { std::mem::transmute::<Box<dyn FnMut(&Event) + '_>, Hook>(h) };
    HOOK.with(|x| *x.borrow_mut() = Some(h));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            HOOK.with(|x| *x.borrow_mut() = None);
        }
    }
    let _g = G;
    with(Plan::Observe, false, f)
}

fn observed(n: u64, what: &'static str, write: Option<(c_int, &[u8])>) {
    let p = PLAN.get();
    PLAN.set(Plan::Off);
    HOOK.with(|x| {
        if let Some(h) = x.borrow_mut().as_mut() {
            h(&Event { n, what, write });
        }
    });
    PLAN.set(p);
}

enum Act {
    Pass,
    Err(i32),
    Limit(usize),
    TornWrite(usize),
}

const DEAD: i32 = libc::EIO;

fn decide(what: &'static str, len: usize, transfer: bool, write: bool) -> Act {
    let p = PLAN.get();
    if p == Plan::Off {
        return Act::Pass;
    }
    let n = N.get();
    N.set(n + 1);
    if LOGGING.get() {
        PLAN.set(Plan::Off);
        LOG.with(|l| l.borrow_mut().push((what, len)));
        PLAN.set(p);
    }
    let lim = |m: usize| if transfer && len > m { HIT.set(true); Act::Limit(m) } else { Act::Pass };
    match p {
        Plan::Off | Plan::Count => Act::Pass,
        Plan::Observe => {
            if !write && !matches!(what, "read" | "seek") {
                observed(n, what, None);
            }
            Act::Pass
        }
        Plan::Fail(k, e) if n == k => {
            HIT.set(true);
            Act::Err(e)
        }
        Plan::FailFrom(k, e) if n >= k => {
            HIT.set(true);
            Act::Err(e)
        }
        Plan::Crash(k) if n >= k => {
            HIT.set(true);
            Act::Err(DEAD)
        }
        Plan::Torn(k, m) if n == k => {
            HIT.set(true);
            if write { Act::TornWrite(m.min(len)) } else { Act::Err(DEAD) }
        }
        Plan::Torn(k, _) if n > k => Act::Err(DEAD),
        Plan::ShortAt(k, m) if n == k => lim(m),
        Plan::Short(m) => lim(m),
        Plan::IntrAt(k) if n == k && (transfer || what == "open") => {
            HIT.set(true);
            Act::Err(libc::EINTR)
        }
        Plan::IntrShort(m) => {
            if n % 2 == 0 && (transfer || what == "open") {
                HIT.set(true);
                Act::Err(libc::EINTR)
            } else {
                lim(m)
            }
        }
        _ => Act::Pass,
    }
}

fn fail(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn std_fd(fd: c_int) -> bool {
    fd <= 2
}

macro_rules! simple {
    ($what:expr, $sys:expr) => {
        match decide($what, 0, false, false) {
            Act::Err(e) => fail(e),
            _ => unsafe { $sys as c_int },
        }
    };
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    simple!("open", libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode as c_uint))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    simple!("open", libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode as c_uint))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    simple!("open", libc::syscall(libc::SYS_openat, d, p, flags | libc::O_LARGEFILE, mode as c_uint))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if std_fd(fd) {
        return unsafe { libc::syscall(libc::SYS_read, fd, b, n) as ssize_t };
    }
    match decide("read", n, true, false) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_read, fd, b, m) as ssize_t },
        _ => unsafe { libc::syscall(libc::SYS_read, fd, b, n) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if std_fd(fd) {
        return unsafe { libc::syscall(libc::SYS_write, fd, b, n) as ssize_t };
    }
    if PLAN.get() == Plan::Observe {
        observed(N.get(), "write", Some((fd, unsafe { std::slice::from_raw_parts(b as *const u8, n) })));
    }
    match decide("write", n, true, true) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_write, fd, b, m) as ssize_t },
        Act::TornWrite(m) => {
            if m > 0 {
                unsafe { libc::syscall(libc::SYS_write, fd, b, m) };
            }
            fail(DEAD) as ssize_t
        }
        Act::Pass => unsafe { libc::syscall(libc::SYS_write, fd, b, n) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    match decide("read", n, true, false) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_pread64, fd, b, m, o) as ssize_t },
        _ => unsafe { libc::syscall(libc::SYS_pread64, fd, b, n, o) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if PLAN.get() == Plan::Observe {
        observed(N.get(), "pwrite", None);
    }
    match decide("write", n, true, true) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_pwrite64, fd, b, m, o) as ssize_t },
        Act::TornWrite(m) => {
            if m > 0 {
                unsafe { libc::syscall(libc::SYS_pwrite64, fd, b, m, o) };
            }
            fail(DEAD) as ssize_t
        }
        Act::Pass => unsafe { libc::syscall(libc::SYS_pwrite64, fd, b, n, o) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if std_fd(fd) {
        return unsafe { libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t };
    }
    if PLAN.get() == Plan::Observe {
        observed(N.get(), "writev", None);
    }
    match decide("writev", 0, false, true) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::TornWrite(_) => fail(DEAD) as ssize_t,
        _ => unsafe { libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    match decide("seek", 0, false, false) {
        Act::Err(e) => fail(e) as off64_t,
        _ => unsafe { libc::syscall(libc::SYS_lseek, fd, o, w) as off64_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    simple!("truncate", libc::syscall(libc::SYS_ftruncate, fd, n))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    simple!("unlink", libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    simple!("unlink", libc::syscall(libc::SYS_unlinkat, d, p, f))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    simple!("rename", libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint) -> c_int {
    simple!("rename", libc::syscall(libc::SYS_renameat2, d, a, e, b, f))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    simple!("mkdir", libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, p, m))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    simple!("link", libc::syscall(libc::SYS_linkat, d, a, e, b, f))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    simple!("fsync", libc::syscall(libc::SYS_fsync, fd))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    simple!("fsync", libc::syscall(libc::SYS_fdatasync, fd))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    match decide("copy", n, true, false) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_copy_file_range, a, oa, b, ob, m, f) as ssize_t },
        _ => unsafe { libc::syscall(libc::SYS_copy_file_range, a, oa, b, ob, n, f) as ssize_t },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    match decide("copy", n, true, false) {
        Act::Err(e) => fail(e) as ssize_t,
        Act::Limit(m) => unsafe { libc::syscall(libc::SYS_sendfile, o, i, off, m) as ssize_t },
        _ => unsafe { libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t },
    }
}

/// Proves that the interposition is in effect in this process.
pub fn self_test(dir: &std::path::Path) {
    let f = dir.join("sys-self-test");
    std::fs::write(&f, b"x").unwrap();
    let (r, rep) = with(Plan::Count, true, || {
        std::fs::write(&f, b"abc").unwrap();
        let d = std::fs::read(&f).unwrap();
        std::fs::rename(&f, dir.join("sys-self-test2")).unwrap();
        std::fs::remove_file(dir.join("sys-self-test2")).unwrap();
        d
    });
    assert_eq!(r, b"abc");
    for w in ["open", "write", "read", "rename", "unlink"] {
        assert!(rep.log.iter().any(|(x, _)| *x == w), "interposition of {w} is not in effect: {:?}", rep.log);
    }
    let (r, rep) = with(Plan::Fail(0, libc::ENOSPC), false, || std::fs::write(&f, b"abc"));
    assert!(rep.hit && r.unwrap_err().raw_os_error() == Some(libc::ENOSPC));
}
