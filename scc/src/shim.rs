//! The system calls by which the code under test changes files, replaced in this process: they
//! count, they can be made to fail from a chosen one on (the process was killed there), to fail
//! once (a full disk), and they give every change of a file its own time.
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// nothing from this call on takes place
    Kill(u32),
    /// this call, a write, gets done in part; nothing takes place after it
    Torn(u32),
    /// this call alone fails: no space left
    Full(u32),
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static CLOCK: Cell<i64> = const { Cell::new(0) };
    static HIT: Cell<bool> = const { Cell::new(false) };
}

// ---------------------------------------------------------------- two at the same time

/// Two threads of which one runs at a time; they can be switched at every call that reads or
/// changes what the two share.
pub struct Sched {
    inner: Mutex<Inner>,
    changed: Condvar,
}

struct Inner {
    turn: usize,
    state: [Turn; 2],
    /// the points at which to switch
    switches: Vec<usize>,
    count: usize,
    clock: i64,
    /// the points at which there was another thread to switch to
    open: Vec<usize>,
    trace: Vec<(usize, String)>,
    deadlock: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Turn {
    Ready,
    Blocked,
    Done,
}

pub struct Ran {
    pub open: Vec<usize>,
    pub trace: Vec<(usize, String)>,
    pub deadlock: bool,
    pub clock: i64,
    pub points: usize,
}

thread_local! {
    static SCHED: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// the files that both may have open, and how often they were read
    static SHARED: RefCell<Vec<(c_int, u32)>> = const { RefCell::new(vec![]) };
}

impl Sched {
    pub fn new(first: usize, switches: &[usize], clock: i64) -> Arc<Self> {
        Arc::new(Self {
            inner: Mutex::new(Inner {
                turn: first,
                state: [Turn::Ready; 2],
                switches: switches.to_vec(),
                count: 0,
                clock,
                open: vec![],
                trace: vec![],
                deadlock: false,
            }),
            changed: Condvar::new(),
        })
    }

    /// runs `f` as one of the two
    pub fn run<T>(self: &Arc<Self>, me: usize, f: impl FnOnce() -> T) -> T {
        struct Off(Arc<Sched>, usize);
        impl Drop for Off {
            fn drop(&mut self) {
                SCHED.set(None);
                ON.set(false);
                let mut i = self.0.inner.lock().unwrap();
                i.state[self.1] = Turn::Done;
                let other = 1 - self.1;
                if i.state[other] == Turn::Blocked {
                    i.state[other] = Turn::Ready;
                }
                i.turn = other;
                self.0.changed.notify_all();
            }
        }
        {
            let mut i = self.inner.lock().unwrap();
            while i.turn != me {
                i = self.changed.wait(i).unwrap();
            }
        }
        SHARED.with_borrow_mut(Vec::clear);
        SCHED.set(Some((self.clone(), me)));
        FAULT.set(Fault::None);
        ON.set(true);
        let _off = Off(self.clone(), me);
        f()
    }

    pub fn report(&self) -> Ran {
        let mut i = self.inner.lock().unwrap();
        Ran {
            open: std::mem::take(&mut i.open),
            trace: std::mem::take(&mut i.trace),
            deadlock: i.deadlock,
            clock: i.clock,
            points: i.count,
        }
    }

    fn pass(&self, me: usize, what: impl FnOnce() -> String) {
        let mut i = self.inner.lock().unwrap();
        i.count += 1;
        let n = i.count;
        if i.state[1 - me] == Turn::Ready {
            i.open.push(n);
            if i.switches.contains(&n) {
                i.turn = 1 - me;
                self.changed.notify_all();
                while i.turn != me {
                    i = self.changed.wait(i).unwrap();
                }
            }
        }
        i.trace.push((me, what()));
    }

    /// waits for the other one to go on; whether it can
    fn block(&self, me: usize) -> bool {
        let mut i = self.inner.lock().unwrap();
        if i.state[1 - me] != Turn::Ready {
            i.deadlock = true;
            return false;
        }
        i.state[me] = Turn::Blocked;
        i.turn = 1 - me;
        self.changed.notify_all();
        while i.turn != me {
            i = self.changed.wait(i).unwrap();
        }
        i.state[me] = Turn::Ready;
        true
    }

    /// what the other one waits for may have come
    fn wake(&self, me: usize) {
        let mut i = self.inner.lock().unwrap();
        if i.state[1 - me] == Turn::Blocked {
            i.state[1 - me] = Turn::Ready;
        }
    }
}

fn sched() -> Option<(Arc<Sched>, usize)> {
    SCHED.try_with(|s| s.try_borrow().ok().and_then(|s| s.clone())).ok().flatten()
}

fn point(what: impl FnOnce() -> String) {
    if ON.get() {
        if let Some((s, me)) = sched() {
            s.pass(me, what);
        }
    }
}

unsafe fn text(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}

unsafe fn shared(p: *const c_char) -> bool {
    text(p).contains("cache")
}

/// the first two times a file is read; what comes in between comes between all others too
fn first_reads(fd: c_int) -> bool {
    SHARED
        .try_with(|s| {
            let Ok(mut s) = s.try_borrow_mut() else { return false };
            match s.iter_mut().find(|(f, _)| *f == fd) {
                Some((_, n)) if *n < 2 => {
                    *n += 1;
                    true
                }
                _ => false,
            }
        })
        .unwrap_or(false)
}

pub struct Report {
    pub calls: u32,
    pub hit: bool,
    pub clock: i64,
}

/// runs `f` with its changes to files numbered from 0, the first one made at `clock` + 1
pub fn with<T>(fault: Fault, clock: i64, f: impl FnOnce() -> T) -> (T, Report) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false);
        }
    }
    FAULT.set(fault);
    COUNT.set(0);
    CLOCK.set(clock);
    HIT.set(false);
    ON.set(true);
    let off = Off;
    let r = f();
    drop(off);
    let report = Report {
        calls: COUNT.get(),
        hit: HIT.get(),
        clock: CLOCK.get(),
    };
    (r, report)
}

enum Verdict {
    Go,
    Half,
    Fail(c_int),
}

fn next() -> Verdict {
    if !ON.get() {
        return Verdict::Go;
    }
    let n = COUNT.get();
    COUNT.set(n + 1);
    point(|| "change".into());
    match FAULT.get() {
        Fault::Kill(k) if n >= k => {
            HIT.set(true);
            Verdict::Fail(libc::EIO)
        }
        Fault::Torn(k) if n == k => {
            HIT.set(true);
            Verdict::Half
        }
        Fault::Torn(k) if n > k => Verdict::Fail(libc::EIO),
        Fault::Full(k) if n == k => {
            HIT.set(true);
            Verdict::Fail(libc::ENOSPC)
        }
        _ => Verdict::Go,
    }
}

fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

/// the file was changed now
fn touch(fd: c_int) {
    if ON.get() {
        let t = match sched() {
            Some((s, _)) => {
                let mut i = s.inner.lock().unwrap();
                i.clock += 1;
                i.clock
            }
            None => CLOCK.get() + 1,
        };
        CLOCK.set(t);
        let ts = libc::timespec { tv_sec: t, tv_nsec: 0 };
        unsafe { libc::futimens(fd, [ts, ts].as_ptr()) };
    }
}

unsafe fn sys_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

unsafe fn open_any(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ON.get() && sched().is_some() && shared(path) {
        let fd = open_one(path, flags, mode);
        if fd >= 0 {
            SHARED.with_borrow_mut(|s| {
                s.retain(|(f, _)| *f != fd);
                s.push((fd, 0));
            });
        }
        return fd;
    }
    let fd = open_one(path, flags, mode);
    SHARED.try_with(|s| s.try_borrow_mut().map(|mut s| s.retain(|(f, _)| *f != fd)).ok()).ok();
    fd
}

unsafe fn open_one(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ON.get() && flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        let there = libc::access(path, libc::F_OK) == 0;
        if !there || flags & libc::O_TRUNC != 0 {
            match next() {
                Verdict::Go => {}
                Verdict::Half => return { errno(libc::EIO); -1 },
                Verdict::Fail(e) => return { errno(e); -1 },
            }
            let fd = sys_open(path, flags, mode);
            if fd >= 0 {
                touch(fd);
            }
            return fd;
        }
    }
    if ON.get() && shared(path) {
        point(|| format!("open {}", text(path)));
    }
    sys_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_any(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_any(path, flags, mode)
}

unsafe fn written(fd: c_int, r: ssize_t) -> ssize_t {
    if r > 0 {
        let e = *libc::__errno_location();
        touch(fd);
        errno(e);
    }
    r
}

unsafe fn dump(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    written(fd, libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !ON.get() || fd <= 2 {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    match next() {
        Verdict::Go => dump(fd, buf, n),
        // the rest of the process sees an error: it is over
        Verdict::Half => {
            dump(fd, buf, n / 2);
            errno(libc::EIO);
            -1
        }
        Verdict::Fail(e) => {
            errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !ON.get() || fd <= 2 {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    match next() {
        Verdict::Go => written(fd, libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t),
        Verdict::Half => {
            written(fd, libc::syscall(libc::SYS_writev, fd, iov, n / 2) as ssize_t);
            errno(libc::EIO);
            -1
        }
        Verdict::Fail(e) => {
            errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    from: c_int,
    off_from: *mut off64_t,
    to: c_int,
    off_to: *mut off64_t,
    n: size_t,
    flags: c_uint,
) -> ssize_t {
    if ON.get() {
        // one way of copying is enough: let the caller fall back on reading and writing
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, from, off_from, to, off_to, n, flags) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(to: c_int, from: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if ON.get() {
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_sendfile, to, from, off, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn splice(
    from: c_int,
    off_from: *mut off64_t,
    to: c_int,
    off_to: *mut off64_t,
    n: size_t,
    flags: c_uint,
) -> ssize_t {
    if ON.get() {
        errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_splice, from, off_from, to, off_to, n, flags) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if ON.get() && first_reads(fd) {
        point(|| "read".into());
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    if ON.get() && shared(path) {
        point(|| format!("stat {}", text(path)));
    }
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let Some((s, me)) = sched().filter(|_| ON.get()) else {
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    };
    s.pass(me, || match op & !libc::LOCK_NB {
        libc::LOCK_UN => "unlock".into(),
        _ => "lock".into(),
    });
    loop {
        let r = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB) as c_int;
        if r == 0 {
            if op & libc::LOCK_UN != 0 {
                s.wake(me);
            }
            return 0;
        }
        if op & libc::LOCK_NB != 0 || *libc::__errno_location() != libc::EWOULDBLOCK {
            return r;
        }
        if !s.block(me) {
            errno(libc::EDEADLK);
            return -1;
        }
    }
}

macro_rules! plain {
    ($($name:ident ($($a:ident: $t:ty),*) = $sys:expr;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
                match next() {
                    Verdict::Go => $sys as c_int,
                    Verdict::Half => { errno(libc::EIO); -1 }
                    Verdict::Fail(e) => { errno(e); -1 }
                }
            }
        )*
    };
}

plain! {
    rename(a: *const c_char, b: *const c_char) = libc::syscall(libc::SYS_rename, a, b);
    unlink(a: *const c_char) = libc::syscall(libc::SYS_unlink, a);
    mkdir(a: *const c_char, m: mode_t) = libc::syscall(libc::SYS_mkdir, a, m);
    fsync(fd: c_int) = libc::syscall(libc::SYS_fsync, fd);
    fdatasync(fd: c_int) = libc::syscall(libc::SYS_fdatasync, fd);
    ftruncate64(fd: c_int, n: off64_t) = libc::syscall(libc::SYS_ftruncate, fd, n);
}
