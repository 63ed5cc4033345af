//! System-call interposition: every file operation the library makes (through std or fs-err) is
//! resolved to the functions below, in the same process. While a `Monitor` is installed on the
//! current thread it sees each event before it happens and decides what to do with it.
use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int};
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Open,
    Read,
    Write,
    Seek,
    Close,
    Stat,
    Mkdir,
    Rename,
    Link,
    Unlink,
    Opendir,
    Readdir,
    Sync,
    Truncate,
    Utime,
    Chmod,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: K,
    pub path: Vec<u8>,
    pub path2: Vec<u8>,
    pub fd: i32,
    pub len: usize,
    pub flags: i32,
    /// the file lies under the scratch root of this worker
    pub in_root: bool,
}

impl Ev {
    pub fn mutates(&self) -> bool {
        match self.kind {
            K::Open => {
                self.flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0
            }
            K::Write | K::Mkdir | K::Rename | K::Link | K::Unlink | K::Truncate | K::Utime | K::Chmod => true,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self.kind);
        if !self.path.is_empty() {
            let p = String::from_utf8_lossy(&self.path);
            let short: Vec<&str> = p.rsplit('/').take(3).collect();
            s += &format!("({})", short.into_iter().rev().collect::<Vec<_>>().join("/"));
        }
        if self.len > 0 {
            s += &format!("[{}]", self.len);
        }
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Pass,
    /// fail with this errno without doing anything
    Fail(i32),
    /// transfer at most this many bytes
    Short(usize),
    /// end the process here, before the call takes effect
    Crash,
    /// transfer this many bytes, then end the process
    CrashPartial(usize),
    /// let the call take effect, then end the process
    CrashAfter,
}

pub const CRASH_CODE: i32 = 77;

pub trait Monitor {
    fn before(&mut self, ev: &Ev) -> Act;
}

thread_local! {
    static MON: Cell<Option<*mut dyn Monitor>> = const { Cell::new(None) };
}

/// Runs `f` with the monitor installed on this thread.
pub fn monitored<R>(m: &mut dyn Monitor, f: impl FnOnce() -> R) -> R {
    struct Restore(Option<*mut dyn Monitor>);
    impl Drop for Restore {
        fn drop(&mut self) {
            let p = self.0;
            MON.with(|c| c.set(p));
        }
    }
    let ptr: *mut dyn Monitor = unsafe { std::mem::transmute(m as *mut (dyn Monitor + '_)) };
    let _r = Restore(MON.with(|c| c.replace(Some(ptr))));
    f()
}

static ROOT: OnceLock<Vec<u8>> = OnceLock::new();

pub fn set_root(p: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    let _ = ROOT.set(p.as_os_str().as_bytes().to_vec());
}

const MAXFD: usize = 65536;
static FDS: [AtomicU8; MAXFD] = [const { AtomicU8::new(0) }; MAXFD];

fn fd_in_root(fd: i32) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && FDS[fd as usize].load(Ordering::Relaxed) == 1
}
#[allow(dead_code)]
fn set_fd(fd: i32, v: bool) {
    if fd >= 0 && (fd as usize) < MAXFD {
        FDS[fd as usize].store(v as u8, Ordering::Relaxed);
    }
}

#[allow(dead_code)]
fn path_in_root(p: &[u8], dirfd: i32) -> bool {
    if p.first() == Some(&b'/') {
        ROOT.get().map_or(false, |r| p.starts_with(r))
    } else {
        dirfd >= 0 && fd_in_root(dirfd)
    }
}

thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// System calls the current operation may still make; returns the previous setting.
pub fn set_event_budget(n: u64) -> u64 {
    BUDGET.with(|b| b.replace(n))
}

#[allow(dead_code)]
fn gate(ev: impl FnOnce() -> Ev) -> Act {
    // what the monitor itself does (futex waits, file operations) must not show in errno
    struct Errno(i32);
    impl Drop for Errno {
        fn drop(&mut self) {
            set_errno(self.0);
        }
    }
    let _errno = Errno(unsafe { *libc::__errno_location() });
    let _ = BUDGET.try_with(|b| {
        let n = b.get();
        if n != u64::MAX {
            if n == 0 {
                crate::flight::event_budget_hit();
            }
            b.set(n - 1);
        }
    });
    let m = match MON.try_with(|c| c.take()) {
        Ok(Some(m)) => m,
        _ => return Act::Pass,
    };
    struct Back(*mut dyn Monitor);
    impl Drop for Back {
        fn drop(&mut self) {
            let p = self.0;
            MON.with(|c| c.set(Some(p)));
        }
    }
    let back = Back(m);
    let act = unsafe { (*back.0).before(&ev()) };
    drop(back);
    act
}

#[allow(dead_code)]
unsafe fn cstr(p: *const c_char) -> Vec<u8> {
    if p.is_null() {
        Vec::new()
    } else {
        CStr::from_ptr(p).to_bytes().to_vec()
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

#[cfg(not(feature = "plain"))]
pub mod interpose {
    use super::*;
    use libc::{mode_t, off64_t, size_t, ssize_t};
    use std::os::raw::{c_uint, c_void};
    use std::sync::atomic::AtomicUsize;
    use std::sync::Mutex;

    macro_rules! gated {
        ($ev:expr, $fail:expr, $short:ident => $call:expr) => {{
            let act = gate(|| $ev);
            match act {
                Act::Fail(e) => {
                    set_errno(e);
                    return $fail;
                }
                Act::Crash => libc::_exit(CRASH_CODE),
                _ => {}
            }
            #[allow(unused_variables)]
            let $short: usize = match act {
                Act::Short(n) | Act::CrashPartial(n) => n,
                _ => usize::MAX,
            };
            let r = $call;
            match act {
                Act::CrashAfter | Act::CrashPartial(_) => libc::_exit(CRASH_CODE),
                _ => {}
            }
            r
        }};
    }

    fn ev(kind: K) -> Ev {
        Ev { kind, path: vec![], path2: vec![], fd: -1, len: 0, flags: 0, in_root: false }
    }
    unsafe fn pev(kind: K, dirfd: c_int, p: *const c_char, flags: i32) -> Ev {
        let path = cstr(p);
        let in_root = path_in_root(&path, dirfd);
        Ev { path, flags, in_root, ..ev(kind) }
    }
    fn fev(kind: K, fd: c_int, len: usize) -> Ev {
        Ev { fd, len, in_root: fd_in_root(fd), ..ev(kind) }
    }

    unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        gated!(pev(K::Open, dirfd, p, flags), -1, _s => {
            let r = libc::syscall(libc::SYS_openat, dirfd, p, flags, mode as c_uint) as c_int;
            if r >= 0 {
                let e = *libc::__errno_location();
                set_fd(r, path_in_root(CStr::from_ptr(p).to_bytes(), dirfd));
                set_errno(e);
            }
            r
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(d, p, flags | libc::O_LARGEFILE, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
        gated!(fev(K::Read, fd, n), -1, s => libc::syscall(libc::SYS_read, fd, buf, n.min(s)) as ssize_t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
        gated!(fev(K::Read, fd, n), -1, s => libc::syscall(libc::SYS_pread64, fd, buf, n.min(s), off) as ssize_t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
        gated!(fev(K::Read, fd, (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum()), -1, s => {
            if s == usize::MAX {
                libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t
            } else {
                libc::syscall(libc::SYS_read, fd, (*iov).iov_base, (*iov).iov_len.min(s)) as ssize_t
            }
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
        if fd <= 2 {
            return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
        }
        gated!(fev(K::Write, fd, n), -1, s => libc::syscall(libc::SYS_write, fd, buf, n.min(s)) as ssize_t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        gated!(fev(K::Write, fd, n), -1, s => libc::syscall(libc::SYS_pwrite64, fd, buf, n.min(s), off) as ssize_t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
        if fd <= 2 {
            return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
        }
        gated!(fev(K::Write, fd, (0..n as usize).map(|i| (*iov.add(i)).iov_len).sum()), -1, s => {
            if s == usize::MAX {
                libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
            } else {
                libc::syscall(libc::SYS_write, fd, (*iov).iov_base, (*iov).iov_len.min(s)) as ssize_t
            }
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
        gated!(fev(K::Seek, fd, 0), -1, _s => libc::syscall(libc::SYS_lseek, fd, off, wh) as off64_t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
        lseek64(fd, off, wh)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        gated!(fev(K::Close, fd, 0), -1, _s => {
            set_fd(fd, false);
            libc::syscall(libc::SYS_close, fd) as c_int
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
        gated!({
            let mut e = pev(K::Stat, d, p, flags);
            if e.path.is_empty() { e.fd = d; e.in_root = fd_in_root(d); }
            e
        }, -1, _s => libc::syscall(libc::SYS_statx, d, p, flags, mask, buf) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
        gated!(pev(K::Mkdir, -1, p, 0), -1, _s => libc::syscall(libc::SYS_mkdir, p, mode as c_uint) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
        gated!(pev(K::Mkdir, d, p, 0), -1, _s => libc::syscall(libc::SYS_mkdirat, d, p, mode as c_uint) as c_int)
    }
    unsafe fn two(kind: K, a: *const c_char, b: *const c_char) -> Ev {
        let mut e = pev(kind, -1, a, 0);
        e.path2 = cstr(b);
        e.in_root |= path_in_root(&e.path2, -1);
        e
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
        gated!(two(K::Rename, a, b), -1, _s => libc::syscall(libc::SYS_rename, a, b) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
        gated!(two(K::Rename, a, b), -1, _s => libc::syscall(libc::SYS_renameat, d1, a, d2, b) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int {
        gated!(two(K::Rename, a, b), -1, _s => libc::syscall(libc::SYS_renameat2, d1, a, d2, b, f) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
        gated!(two(K::Link, a, b), -1, _s => libc::syscall(libc::SYS_link, a, b) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
        gated!(two(K::Link, a, b), -1, _s => libc::syscall(libc::SYS_linkat, d1, a, d2, b, f) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
        gated!(two(K::Link, a, b), -1, _s => libc::syscall(libc::SYS_symlink, a, b) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
        gated!(pev(K::Unlink, -1, p, 0), -1, _s => libc::syscall(libc::SYS_unlink, p) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
        gated!(pev(K::Unlink, d, p, 0), -1, _s => libc::syscall(libc::SYS_unlinkat, d, p, f) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
        gated!(pev(K::Unlink, -1, p, 0), -1, _s => libc::syscall(libc::SYS_rmdir, p) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
        gated!(fev(K::Sync, fd, 0), -1, _s => libc::syscall(libc::SYS_fsync, fd) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
        gated!(fev(K::Sync, fd, 0), -1, _s => libc::syscall(libc::SYS_fdatasync, fd) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
        gated!(fev(K::Truncate, fd, 0), -1, _s => libc::syscall(libc::SYS_ftruncate, fd, n) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
        gated!({
            let mut e = pev(K::Utime, d, p, f);
            if e.path.is_empty() { e.fd = d; e.in_root = fd_in_root(d); }
            e
        }, -1, _s => libc::syscall(libc::SYS_utimensat, d, p, t, f) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
        gated!(fev(K::Utime, fd, 0), -1, _s => libc::syscall(libc::SYS_utimensat, fd, 0usize, t, 0) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
        gated!(pev(K::Chmod, -1, p, 0), -1, _s => libc::syscall(libc::SYS_chmod, p, m as c_uint) as c_int)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
        gated!(fev(K::Chmod, fd, 0), -1, _s => libc::syscall(libc::SYS_fchmod, fd, m as c_uint) as c_int)
    }

    static REAL_OPENDIR: AtomicUsize = AtomicUsize::new(0);
    static REAL_READDIR: AtomicUsize = AtomicUsize::new(0);
    static REAL_CLOSEDIR: AtomicUsize = AtomicUsize::new(0);
    static DIRS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

    unsafe fn real(slot: &AtomicUsize, name: &CStr) -> usize {
        let mut p = slot.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
            assert!(p != 0);
            slot.store(p, Ordering::Relaxed);
        }
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
        gated!(pev(K::Opendir, -1, p, 0), std::ptr::null_mut(), _s => {
            let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(real(&REAL_OPENDIR, c"opendir"));
            let d = f(p);
            if !d.is_null() && path_in_root(CStr::from_ptr(p).to_bytes(), -1) {
                DIRS.lock().unwrap().push(d as usize);
            }
            d
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
        gated!({
            let mut e = ev(K::Readdir);
            e.in_root = DIRS.lock().unwrap().contains(&(d as usize));
            e
        }, std::ptr::null_mut(), _s => {
            let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(real(&REAL_READDIR, c"readdir64"));
            f(d)
        })
    }
    #[no_mangle]
    pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
        DIRS.lock().unwrap().retain(|x| *x != d as usize);
        let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(real(&REAL_CLOSEDIR, c"closedir"));
        f(d)
    }
}

/// Counts events, keeps the log if wanted; the base of most other monitors.
#[derive(Default)]
pub struct Log {
    pub n: usize,
    pub keep: bool,
    pub events: Vec<Ev>,
}

impl Monitor for Log {
    fn before(&mut self, ev: &Ev) -> Act {
        if ev.in_root {
            self.n += 1;
        }
        if self.keep {
            self.events.push(ev.clone());
        }
        Act::Pass
    }
}
