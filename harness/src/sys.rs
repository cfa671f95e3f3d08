//! Interposition of libc's file system calls.
//!
//! The executable defines these functions, so that the calls of std, fs2 and walkdir
//! resolve to them. Calls of threads that are not monitored are passed on directly.

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::sync::{Mutex, MutexGuard, OnceLock};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Close,
    Flock,
    Truncate,
    Stat,
    Unlink,
    Rmdir,
    Mkdir,
    Rename,
    Link,
    Opendir,
    Readdir,
    Readlink,
    Sync,
    Other,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub thread: usize,
    pub op: Op,
    pub path: String,
    pub fd: c_int,
    /// Open flags, lock operation or length.
    pub arg: i64,
    pub ret: i64,
    pub errno: c_int,
    pub injected: bool,
}

impl Ev {
    pub fn show(&self, root: &str) -> String {
        format!(
            "t{} {:?} {} fd={} arg={:#x} -> {}{}{}",
            self.thread,
            self.op,
            self.path.strip_prefix(root).unwrap_or(&self.path),
            self.fd,
            self.arg,
            self.ret,
            if self.ret < 0 { format!(" errno {}", self.errno) } else { String::new() },
            if self.injected { " INJECTED" } else { "" }
        )
    }
}

#[derive(Clone, Debug)]
pub enum FaultKind {
    /// Fail with this errno.
    Errno(c_int),
    /// Transfer only part of the bytes (then fail later calls of this kind if sticky).
    Short,
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// Index among the eligible calls.
    pub at: u64,
    pub kind: FaultKind,
    /// Also fail all later calls of the same operation.
    pub sticky: bool,
}

#[derive(Default)]
pub struct Monitor {
    pub logging: bool,
    pub log: Vec<Ev>,
    /// Only paths below this directory may be touched.
    pub root: Option<String>,
    pub escapes: Vec<Ev>,
    pub fault: Option<Fault>,
    /// Operation that the fault hit.
    pub fired: Option<Op>,
    pub eligible: u64,
    /// Operations of the eligible calls.
    pub eligible_ops: Vec<Op>,
    /// Die before the n-th mutating call.
    pub crash_at: Option<u64>,
    /// Let the crashing write transfer half of its bytes.
    pub crash_partial: bool,
    pub mutating: u64,
    pub fds: HashMap<c_int, String>,
    /// File locks held: descriptor to exclusive.
    pub locks: HashMap<c_int, bool>,
    /// Descriptors that `dup` made of another one, which share its locks.
    pub duplicates: Vec<(c_int, c_int)>,
    /// With a single thread: a lock request that this thread itself blocks.
    pub self_deadlocks: Vec<String>,
    pub detect_self_deadlock: bool,
    pub calls: u64,
}

/// Threads run freely and may wait for each other's locks.
pub static MAY_WAIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

static MON: Mutex<Option<Monitor>> = Mutex::new(None);

thread_local! {
    static MONITORED: Cell<bool> = const { Cell::new(false) };
    static THREAD: Cell<usize> = const { Cell::new(0) };
}

pub const CRASH_STATUS: c_int = 77;

fn mon() -> MutexGuard<'static, Option<Monitor>> {
    MON.lock().unwrap_or_else(|e| e.into_inner())
}

/// Run `f` with this thread's calls monitored; returns what was recorded.
pub fn monitored<T>(m: Monitor, f: impl FnOnce() -> T) -> (T, Monitor) {
    *mon() = Some(m);
    MONITORED.with(|c| c.set(true));
    let r = f();
    MONITORED.with(|c| c.set(false));
    let m = mon().take().expect("monitor");
    (r, m)
}

/// Install a monitor for several threads, which call `enter`.
pub fn install(m: Monitor) {
    *mon() = Some(m);
}

pub fn uninstall() -> Monitor {
    mon().take().expect("monitor")
}

pub fn enter(thread: usize) {
    THREAD.with(|c| c.set(thread));
    MONITORED.with(|c| c.set(true));
}

pub fn leave() {
    MONITORED.with(|c| c.set(false));
}

/// Suspend monitoring of this thread, for oracle code inside a monitored section.
pub fn unmonitored<T>(f: impl FnOnce() -> T) -> T {
    let was = MONITORED.with(|c| c.replace(false));
    let r = f();
    MONITORED.with(|c| c.set(was));
    r
}

pub fn with_monitor<T>(f: impl FnOnce(&mut Monitor) -> T) -> Option<T> {
    mon().as_mut().map(f)
}

pub fn held_locks() -> usize {
    mon().as_ref().map_or(0, |m| m.locks.len())
}

fn is_monitored() -> bool {
    // During thread exit the thread local may be gone.
    MONITORED.try_with(|c| c.get()).unwrap_or(false)
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn errno() -> c_int {
    *libc::__errno_location()
}

/// Whether a path stays below the root at every point.
pub fn inside(root: &str, path: &str) -> bool {
    let rest = match path.strip_prefix(root) {
        Some(r) if r.is_empty() || r.starts_with('/') => r,
        _ => return false,
    };
    let mut depth = 0i64;
    for c in rest.split('/') {
        match c {
            "" | "." => (),
            ".." => depth -= 1,
            _ => depth += 1,
        }
        if depth < 0 {
            return false;
        }
    }
    true
}

static GUARD: OnceLock<String> = OnceLock::new();
static GUARD_EVENTS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// From now on no library call may change anything outside of a directory, whether
/// it is monitored or not, nor wait for a file lock that only this process can hold.
pub fn set_guard(dir: &std::path::Path) {
    GUARD.set(dir.to_str().expect("HARNESS: scratch path").to_owned()).expect("HARNESS: guard");
}

pub fn take_guard_events() -> Vec<String> {
    std::mem::take(&mut GUARD_EVENTS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn guard_event(e: String) {
    let mut g = GUARD_EVENTS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 3 {
        g.push(e);
    }
}

/// Whether the guard denies a call of the library.
fn guarded(op: Op, path: &str, arg: i64) -> bool {
    if !mutates(op, arg) || !crate::types::in_lib() {
        return false;
    }
    let absolute = match path.starts_with('/') {
        true => path.to_owned(),
        false => format!("{}/{}", std::env::current_dir().map_or(String::new(), |d| d.to_string_lossy().into_owned()), path),
    };
    match GUARD.get() {
        Some(root) if !inside(root, &absolute) && !(op == Op::Mkdir && above(root, &absolute)) => {
            guard_event(format!("{:?} outside of the hierarchy (denied): {}", op, path));
            true
        }
        _ => false,
    }
}

/// Whether a path is that of a directory that the root is in.
fn above(root: &str, path: &str) -> bool {
    let path = path.trim_end_matches('/');
    root.len() > path.len() && root.starts_with(path) && root.as_bytes()[path.len()] == b'/'
}

enum Action {
    Go,
    Fail(c_int),
    Half,
}

fn mutates(op: Op, arg: i64) -> bool {
    match op {
        Op::Create | Op::Write | Op::Truncate | Op::Unlink | Op::Rmdir | Op::Mkdir | Op::Rename | Op::Link => true,
        Op::Open => arg & (libc::O_TRUNC | libc::O_CREAT) as i64 != 0,
        _ => false,
    }
}

unsafe fn before(op: Op, path: Option<&str>, fd: c_int, arg: i64) -> Action {
    crate::sched::yield_point(op, path, fd, arg);
    let mut g = mon();
    let m = match g.as_mut() {
        Some(m) => m,
        None => return Action::Go,
    };
    m.calls += 1;
    let path_s = match path {
        Some(p) => p.to_owned(),
        None => match m.fds.get(&fd) {
            Some(p) => p.clone(),
            // Not a descriptor of the library (a pipe, the terminal, ...).
            None => return Action::Go,
        },
    };
    if let Some(root) = &m.root {
        if path.is_some() && !inside(root, &path_s) {
            // Looking at the way to the root reveals and changes nothing, nor does making what is there.
            if above(root, &path_s) {
                match op {
                    Op::Stat | Op::Readlink => return Action::Go,
                    Op::Mkdir => return Action::Fail(libc::EEXIST),
                    _ => (),
                }
            }
            m.escapes.push(Ev {
                thread: THREAD.with(|c| c.get()),
                op,
                path: path_s,
                fd,
                arg,
                ret: -1,
                errno: libc::EACCES,
                injected: true,
            });
            return Action::Fail(libc::EACCES);
        }
    }
    if mutates(op, arg) {
        if m.crash_at == Some(m.mutating) {
            if m.crash_partial && op == Op::Write {
                m.crash_at = None;
                return Action::Half;
            }
            libc::_exit(CRASH_STATUS);
        }
        m.mutating += 1;
    }
    if op != Op::Close {
        let n = m.eligible;
        m.eligible += 1;
        if m.eligible_ops.len() < 4096 {
            m.eligible_ops.push(op);
        }
        if let Some(f) = &m.fault {
            let hit = n == f.at || (f.sticky && n > f.at && m.fired == Some(op));
            if hit {
                let first = m.fired.is_none();
                m.fired = Some(op);
                match f.kind {
                    FaultKind::Errno(e) => return Action::Fail(e),
                    FaultKind::Short if op == Op::Write || op == Op::Read => {
                        if first {
                            return Action::Half;
                        }
                        return Action::Fail(libc::EIO);
                    }
                    FaultKind::Short => (),
                }
            }
        }
    }
    Action::Go
}

unsafe fn after(op: Op, path: Option<&str>, fd: c_int, arg: i64, ret: i64, injected: bool) {
    let e = errno();
    {
        let mut g = mon();
        if let Some(m) = g.as_mut() {
            if m.logging {
                let p = match path {
                    Some(p) => p.to_owned(),
                    None => m.fds.get(&fd).cloned().unwrap_or_default(),
                };
                m.log.push(Ev {
                    thread: THREAD.with(|c| c.get()),
                    op,
                    path: p,
                    fd,
                    arg,
                    ret,
                    errno: if ret < 0 { e } else { 0 },
                    injected,
                });
            }
            match op {
                Op::Open | Op::Create if ret >= 0 => {
                    m.fds.insert(ret as c_int, path.unwrap_or("").to_owned());
                }
                Op::Close => {
                    m.fds.remove(&fd);
                    let heir = m.duplicates.iter().find(|(a, b)| *a == fd || *b == fd).map(|(a, b)| if *a == fd { *b } else { *a });
                    m.duplicates.retain(|(a, b)| *a != fd && *b != fd);
                    if let (Some(exclusive), Some(h)) = (m.locks.remove(&fd), heir) {
                        m.locks.insert(h, exclusive);
                    }
                }
                Op::Flock if ret == 0 => {
                    for (a, b) in m.duplicates.iter().filter(|(a, b)| *a == fd || *b == fd) {
                        m.locks.remove(if *a == fd { b } else { a });
                    }
                    if arg as c_int & libc::LOCK_UN != 0 {
                        m.locks.remove(&fd);
                    } else {
                        m.locks.insert(fd, arg as c_int & libc::LOCK_EX != 0);
                    }
                }
                _ => (),
            }
        }
    }
    crate::sched::after(op, path, fd, arg, ret);
    set_errno(e);
}

unsafe fn cstr(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// Absolute form of a path relative to a directory descriptor.
unsafe fn at_path(dirfd: c_int, p: *const c_char) -> String {
    let s = cstr(p);
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        return s;
    }
    let dir = mon().as_ref().and_then(|m| m.fds.get(&dirfd).cloned()).unwrap_or_default();
    if s.is_empty() {
        dir
    } else {
        format!("{}/{}", dir, s)
    }
}

macro_rules! with_path {
    ($op:expr, $path:expr, $arg:expr, $call:expr) => {{
        if !is_monitored() {
            if mutates($op, $arg as i64) && guarded($op, &$path, $arg as i64) {
                set_errno(libc::EACCES);
                return -1;
            }
            return $call as _;
        }
        let path = $path;
        if guarded($op, &path, $arg as i64) && !with_monitor(|m| m.root.is_some()).unwrap_or(false) {
            set_errno(libc::EACCES);
            return -1;
        }
        match before($op, Some(&path), -1, $arg as i64) {
            Action::Fail(e) => {
                set_errno(e);
                after($op, Some(&path), -1, $arg as i64, -1, true);
                set_errno(e);
                -1
            }
            _ => {
                let r = $call;
                after($op, Some(&path), -1, $arg as i64, r as i64, false);
                r as _
            }
        }
    }};
}

macro_rules! with_fd {
    ($op:expr, $fd:expr, $arg:expr, $call:expr) => {{
        if !is_monitored() {
            return $call as _;
        }
        match before($op, None, $fd, $arg as i64) {
            Action::Fail(e) => {
                set_errno(e);
                after($op, None, $fd, $arg as i64, -1, true);
                set_errno(e);
                -1
            }
            a => {
                // These are not done by halves.
                if matches!(a, Action::Half) && with_monitor(|m| m.crash_partial).unwrap_or(false) {
                    libc::_exit(CRASH_STATUS);
                }
                let r = $call;
                after($op, None, $fd, $arg as i64, r as i64, false);
                r as _
            }
        }
    }};
}

fn open_op(flags: c_int) -> Op {
    if flags & libc::O_CREAT != 0 {
        Op::Create
    } else {
        Op::Open
    }
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    with_path!(
        open_op(flags),
        at_path(dirfd, path),
        flags,
        libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_uint)
    )
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(fd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(fd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(fd, path, flags, mode)
}

unsafe fn half(n: size_t) -> size_t {
    (n / 2).max(1)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !is_monitored() {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    }
    match before(Op::Read, None, fd, n as i64) {
        Action::Fail(e) => {
            set_errno(e);
            after(Op::Read, None, fd, n as i64, -1, true);
            set_errno(e);
            -1
        }
        a => {
            let k = if matches!(a, Action::Half) { half(n) } else { n };
            let r = libc::syscall(libc::SYS_read, fd, buf, k);
            after(Op::Read, None, fd, n as i64, r, k != n);
            r as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    with_fd!(Op::Read, fd, n, libc::syscall(libc::SYS_pread64, fd, buf, n, off))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    with_fd!(Op::Read, fd, n, libc::syscall(libc::SYS_readv, fd, iov, n))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !is_monitored() {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    match before(Op::Write, None, fd, n as i64) {
        Action::Fail(e) => {
            set_errno(e);
            after(Op::Write, None, fd, n as i64, -1, true);
            set_errno(e);
            -1
        }
        a => {
            let is_half = matches!(a, Action::Half);
            let k = if is_half { half(n) } else { n };
            let r = libc::syscall(libc::SYS_write, fd, buf, k);
            if is_half && with_monitor(|m| m.crash_partial).unwrap_or(false) {
                libc::_exit(CRASH_STATUS);
            }
            after(Op::Write, None, fd, n as i64, r, k != n);
            r as ssize_t
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    with_fd!(Op::Write, fd, n, libc::syscall(libc::SYS_pwrite64, fd, buf, n, off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    with_fd!(Op::Write, fd, n, libc::syscall(libc::SYS_writev, fd, iov, n))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    with_fd!(Op::Write, b, n, libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    with_fd!(Op::Write, b, n, libc::syscall(libc::SYS_sendfile, b, a, o, n))
}

unsafe fn duplicated(old: c_int, new: c_int) -> c_int {
    if new >= 0 && is_monitored() {
        let e = errno();
        with_monitor(|m| {
            if let Some(p) = m.fds.get(&old).cloned() {
                m.fds.insert(new, p);
                m.duplicates.push((old, new));
            }
        });
        set_errno(e);
    }
    new
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    duplicated(fd, libc::syscall(libc::SYS_dup, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    let r = libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        return duplicated(fd, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with_fd!(Op::Close, fd, 0, libc::syscall(libc::SYS_close, fd))
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !is_monitored() {
        if crate::types::in_lib() && !MAY_WAIT.load(std::sync::atomic::Ordering::SeqCst) && GUARD.get().is_some() && op & libc::LOCK_NB == 0 {
            // Nobody else opens files of the scratch directory: waiting would be forever.
            let k = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB) as c_int;
            if k == -1 && errno() == libc::EWOULDBLOCK {
                guard_event("an operation waits for a file lock that an earlier or the same operation holds".into());
                set_errno(libc::EDEADLK);
            }
            return k;
        }
        return libc::syscall(libc::SYS_flock, fd, op) as c_int;
    }
    match before(Op::Flock, None, fd, op as i64) {
        Action::Fail(e) => {
            set_errno(e);
            after(Op::Flock, None, fd, op as i64, -1, true);
            set_errno(e);
            -1
        }
        _ => {
            let r;
            if crate::sched::active() {
                // Never block in the kernel: wait for the scheduler instead.
                loop {
                    let k = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB);
                    if k == -1 && errno() == libc::EWOULDBLOCK && op & libc::LOCK_NB == 0 {
                        if crate::sched::blocked_on_lock(fd, op) {
                            continue;
                        }
                        set_errno(libc::EDEADLK);
                    }
                    r = k;
                    break;
                }
            } else if with_monitor(|m| m.detect_self_deadlock).unwrap_or(false) {
                let k = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB);
                if k == -1 && errno() == libc::EWOULDBLOCK && op & libc::LOCK_NB == 0 {
                    with_monitor(|m| {
                        let p = m.fds.get(&fd).cloned().unwrap_or_default();
                        m.self_deadlocks.push(p)
                    });
                    set_errno(libc::EDEADLK);
                }
                r = k;
            } else {
                r = libc::syscall(libc::SYS_flock, fd, op);
            }
            after(Op::Flock, None, fd, op as i64, r, false);
            r as c_int
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    with_fd!(Op::Truncate, fd, len, libc::syscall(libc::SYS_ftruncate, fd, len))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    with_fd!(Op::Truncate, fd, len, libc::syscall(libc::SYS_ftruncate, fd, len))
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    with_path!(Op::Truncate, cstr(path), len, libc::syscall(libc::SYS_truncate, path, len))
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    with_fd!(Op::Truncate, fd, len, libc::syscall(libc::SYS_fallocate, fd, mode, off, len))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    with_fd!(Op::Sync, fd, 0, libc::syscall(libc::SYS_fsync, fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    with_fd!(Op::Sync, fd, 0, libc::syscall(libc::SYS_fdatasync, fd))
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    with_fd!(Op::Stat, fd, 0, libc::syscall(libc::SYS_fstat, fd, st))
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    with_path!(Op::Stat, cstr(path), 0, libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    with_path!(
        Op::Stat,
        cstr(path),
        0,
        libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
    )
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(fd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    with_path!(Op::Stat, at_path(fd, path), 0, libc::syscall(libc::SYS_newfstatat, fd, path, st, flags))
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    // std probes for the call with null pointers.
    if path.is_null() || st.is_null() {
        return libc::syscall(libc::SYS_statx, fd, path, flags, mask, st) as c_int;
    }
    if *path == 0 {
        return with_fd!(Op::Stat, fd, 0, libc::syscall(libc::SYS_statx, fd, path, flags, mask, st));
    }
    with_path!(Op::Stat, at_path(fd, path), 0, libc::syscall(libc::SYS_statx, fd, path, flags, mask, st))
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    with_path!(Op::Stat, cstr(path), mode, libc::syscall(libc::SYS_access, path, mode))
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(fd: c_int, path: *const c_char, mode: c_int, _flags: c_int) -> c_int {
    with_path!(Op::Stat, at_path(fd, path), mode, libc::syscall(libc::SYS_faccessat, fd, path, mode))
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    with_path!(Op::Readlink, cstr(path), n, libc::syscall(libc::SYS_readlink, path, buf, n))
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(fd: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    with_path!(Op::Readlink, at_path(fd, path), n, libc::syscall(libc::SYS_readlinkat, fd, path, buf, n))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    with_path!(Op::Unlink, cstr(path), 0, libc::syscall(libc::SYS_unlink, path))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let op = if flags & libc::AT_REMOVEDIR != 0 { Op::Rmdir } else { Op::Unlink };
    with_path!(op, at_path(fd, path), flags, libc::syscall(libc::SYS_unlinkat, fd, path, flags))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    with_path!(Op::Rmdir, cstr(path), 0, libc::syscall(libc::SYS_rmdir, path))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    with_path!(Op::Mkdir, cstr(path), mode, libc::syscall(libc::SYS_mkdir, path, mode as c_uint))
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(fd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    with_path!(Op::Mkdir, at_path(fd, path), mode, libc::syscall(libc::SYS_mkdirat, fd, path, mode as c_uint))
}

unsafe fn two_paths(op: Op, a: String, b: String, call: impl FnOnce() -> i64) -> c_int {
    if !is_monitored() {
        return call() as c_int;
    }
    // Both paths have to be inside.
    for p in [&a, &b] {
        if let Action::Fail(e) = before(op, Some(p), -1, 0) {
            set_errno(e);
            after(op, Some(p), -1, 0, -1, true);
            set_errno(e);
            return -1;
        }
    }
    let r = call();
    after(op, Some(&b), -1, 0, r, false);
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    two_paths(Op::Rename, cstr(a), cstr(b), || libc::syscall(libc::SYS_rename, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char) -> c_int {
    two_paths(Op::Rename, at_path(fa, a), at_path(fb, b), || libc::syscall(libc::SYS_renameat, fa, a, fb, b))
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, f: c_uint) -> c_int {
    two_paths(Op::Rename, at_path(fa, a), at_path(fb, b), || libc::syscall(libc::SYS_renameat2, fa, a, fb, b, f))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    two_paths(Op::Link, cstr(a), cstr(b), || libc::syscall(libc::SYS_link, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fa: c_int, a: *const c_char, fb: c_int, b: *const c_char, f: c_int) -> c_int {
    two_paths(Op::Link, at_path(fa, a), at_path(fb, b), || libc::syscall(libc::SYS_linkat, fa, a, fb, b, f))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    with_path!(Op::Link, cstr(b), 0, libc::syscall(libc::SYS_symlink, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    with_path!(Op::Other, cstr(path), mode, libc::syscall(libc::SYS_chmod, path, mode as c_uint))
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    with_path!(Op::Other, cstr(path), 0, libc::syscall(libc::SYS_chdir, path))
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(fd: c_int, path: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
    if path.is_null() {
        return libc::syscall(libc::SYS_utimensat, fd, path, t, f) as c_int;
    }
    with_path!(Op::Other, at_path(fd, path), 0, libc::syscall(libc::SYS_utimensat, fd, path, t, f))
}

unsafe fn next(name: &'static str) -> *mut c_void {
    let n = CString::new(name).unwrap();
    let p = libc::dlsym(libc::RTLD_NEXT, n.as_ptr());
    assert!(!p.is_null());
    p
}

macro_rules! real {
    ($name:expr, $ty:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = next($name) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let f = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR);
    if !is_monitored() {
        return f(path);
    }
    let p = cstr(path);
    match before(Op::Opendir, Some(&p), -1, 0) {
        Action::Fail(e) => {
            set_errno(e);
            after(Op::Opendir, Some(&p), -1, 0, -1, true);
            set_errno(e);
            std::ptr::null_mut()
        }
        _ => {
            let d = f(path);
            after(Op::Opendir, Some(&p), -1, 0, if d.is_null() { -1 } else { 0 }, false);
            if !d.is_null() {
                let fd = libc::dirfd(d);
                with_monitor(|m| m.fds.insert(fd, p));
            }
            d
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    let f = real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int);
    if is_monitored() {
        let fd = libc::dirfd(d);
        with_monitor(|m| m.fds.remove(&fd));
    }
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let f = real!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);
    if !is_monitored() {
        return f(d);
    }
    match before(Op::Readdir, None, libc::dirfd(d), 0) {
        Action::Fail(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        _ => {
            // The caller tells the end of the directory from an error by errno.
            set_errno(0);
            f(d)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let f = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    if !is_monitored() {
        return f(path, out);
    }
    let p = cstr(path);
    match before(Op::Stat, Some(&p), -1, 0) {
        Action::Fail(e) => {
            set_errno(e);
            after(Op::Stat, Some(&p), -1, 0, -1, true);
            set_errno(e);
            std::ptr::null_mut()
        }
        _ => {
            let r = f(path, out);
            after(Op::Stat, Some(&p), -1, 0, if r.is_null() { -1 } else { 0 }, false);
            r
        }
    }
}
