//! Interposed system call wrappers. The executable's own definitions of these
//! libc symbols take precedence, so that every file operation of the code
//! under test can be observed, and made to fail, at the system call boundary
//! without any change to that code.
//!
//! Only descriptors opened below a tracked scratch directory are considered.

use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Fail with this errno
    Errno(i32),
    /// Transfer at most this many bytes
    Short(usize),
}

#[derive(Clone, Debug)]
pub struct SysEv {
    pub call: &'static str,
    pub tag: u8,
    pub fd: i32,
    pub off: i64,
    pub req: i64,
    pub ret: i64,
    pub flt: Option<Fault>,
    pub tid: u64,
}

/// A descriptor opened with O_TMPFILE (or created with O_EXCL)
pub const TAG_TMP: u8 = 1;
/// Any other descriptor below the tracked directory
pub const TAG_FILE: u8 = 2;

const MAXFD: usize = 65536;
static TAGS: [AtomicU8; MAXFD] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU8 = AtomicU8::new(0);
    [Z; MAXFD]
};
static ENABLED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static STATE: Mutex<State> = Mutex::new(State {
    prefix: Vec::new(),
    log: Vec::new(),
    plan: Vec::new(),
    hits: 0,
});

type Hook = Arc<dyn Fn(bool, &SysEv) + Send + Sync>;
static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
type Policy = Box<dyn FnMut(&SysEv) -> Option<Fault> + Send>;
static POLICY: Mutex<Option<Policy>> = Mutex::new(None);
static HOOKED: AtomicBool = AtomicBool::new(false);

struct State {
    prefix: Vec<u8>,
    log: Vec<SysEv>,
    /// (call index, fault), the call index starting from 0
    plan: Vec<(usize, Fault)>,
    hits: usize,
}

thread_local! {
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}

/// Run without observation on this thread.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_HOOK.with(|c| c.replace(true));
    let r = f();
    IN_HOOK.with(|c| c.set(was));
    r
}

static PERTURB: AtomicU64 = AtomicU64::new(0);

/// Delay calls a little, differently each time (0: no longer).
pub fn perturb(seed: u64) {
    PERTURB.store(seed, SeqCst);
}

fn disturb() {
    let p = PERTURB.load(SeqCst);
    if p != 0 {
        let n = PERTURB.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
        let z = (n ^ (n >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 40;
        match z % 4 {
            0 => std::thread::sleep(std::time::Duration::from_micros(z % 50)),
            1 | 2 => std::thread::yield_now(),
            _ => {}
        }
    }
}

pub fn tid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}

/// Start observing (with a clean log and no faults) files below `dir`.
pub fn start(dir: &std::path::Path) {
    let mut s = STATE.lock().unwrap();
    use std::os::unix::ffi::OsStrExt;
    s.prefix = dir.as_os_str().as_bytes().to_vec();
    s.log.clear();
    s.plan.clear();
    s.hits = 0;
    COUNT.store(0, SeqCst);
    ENABLED.store(true, SeqCst);
}

/// Set the faults to inject, by index of tracked call from `start`.
pub fn plan(p: &[(usize, Fault)]) {
    STATE.lock().unwrap().plan = p.to_vec();
}

/// Number of tracked descriptors open now
pub fn open_count() -> usize {
    TAGS.iter().filter(|t| t.load(SeqCst) != 0).count()
}

/// Number of tracked calls since start
pub fn count() -> usize {
    COUNT.load(SeqCst)
}

/// Faults injected since start.
pub fn hits() -> usize {
    STATE.lock().unwrap().hits
}

pub fn take() -> Vec<SysEv> {
    std::mem::take(&mut STATE.lock().unwrap().log)
}

pub fn stop() -> Vec<SysEv> {
    ENABLED.store(false, SeqCst);
    take()
}

/// Install a function called before (true) and after (false) each call.
pub fn hook(h: Option<Hook>) {
    HOOKED.store(h.is_some(), SeqCst);
    *HOOK.lock().unwrap() = h;
}

fn call_hook(before: bool, ev: &SysEv) {
    if HOOKED.load(SeqCst) {
        quiet(|| {
            let h = HOOK.lock().unwrap().clone();
            if let Some(h) = h {
                h(before, ev);
            }
        });
    }
}

/// Install a function deciding on the fault of each call not in the plan.
pub fn policy(p: Option<Policy>) {
    *POLICY.lock().unwrap() = p;
}

/// Track an already open file.
pub fn track_fd(f: &std::fs::File) {
    use std::os::unix::io::AsRawFd;
    TAGS[f.as_raw_fd() as usize].store(TAG_FILE, SeqCst);
}

fn tag(fd: c_int) -> u8 {
    if fd < 0 || fd as usize >= MAXFD {
        return 0;
    }
    TAGS[fd as usize].load(SeqCst)
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn get_errno() -> i32 {
    *libc::__errno_location()
}

unsafe fn ret(r: i64) -> i64 {
    r
}

/// Perform a tracked call. `f` gets the permitted transfer size.
unsafe fn tracked(
    call: &'static str,
    t: u8,
    fd: c_int,
    off: i64,
    req: i64,
    f: impl FnOnce(i64) -> i64,
) -> i64 {
    disturb();
    let ix = COUNT.fetch_add(1, SeqCst);
    let flt = {
        let mut s = STATE.lock().unwrap();
        let flt = s.plan.iter().find(|p| p.0 == ix).map(|p| p.1);
        if flt.is_some() {
            s.hits += 1;
        }
        flt
    };
    let mut ev = SysEv { call, tag: t, fd, off, req, ret: 0, flt, tid: tid() };
    if flt.is_none() {
        if let Some(p) = POLICY.lock().unwrap().as_mut() {
            ev.flt = quiet(|| p(&ev));
        }
        if ev.flt.is_some() {
            STATE.lock().unwrap().hits += 1;
        }
    }
    let flt = ev.flt;
    call_hook(true, &ev);
    let (r, e) = match flt {
        Some(Fault::Errno(e)) => (-1, e),
        Some(Fault::Short(n)) => {
            let r = ret(f(req.min(n as i64)));
            (r, get_errno())
        }
        None => {
            let r = ret(f(req));
            (r, get_errno())
        }
    };
    ev.ret = if r < 0 { -(e as i64) } else { r };
    call_hook(false, &ev);
    STATE.lock().unwrap().log.push(ev);
    disturb();
    set_errno(e);
    r
}

fn active() -> bool {
    ENABLED.load(SeqCst) && !IN_HOOK.with(|c| c.get())
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = |_: i64| {
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint)
            as i64
    };
    if active() && !path.is_null() {
        let p = CStr::from_ptr(path).to_bytes();
        let m = {
            let s = STATE.lock().unwrap();
            !s.prefix.is_empty() && p.starts_with(&s.prefix)
        };
        if m {
            let t = if flags & libc::O_TMPFILE == libc::O_TMPFILE || flags & libc::O_EXCL != 0 {
                TAG_TMP
            } else {
                TAG_FILE
            };
            let fd = tracked("open", t, -1, 0, 0, real) as c_int;
            if fd >= 0 && (fd as usize) < MAXFD {
                TAGS[fd as usize].store(t, SeqCst);
            }
            return fd;
        }
    }
    real(0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < MAXFD {
        TAGS[fd as usize].store(0, SeqCst);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}

unsafe fn is_tracked(fd: c_int) -> Option<u8> {
    let t = tag(fd);
    if t != 0 && active() {
        Some(t)
    } else {
        None
    }
}

/// Current size of an open file
pub fn size(fd: c_int) -> i64 {
    unsafe {
        let mut st: libc::stat64 = std::mem::zeroed();
        libc::fstat64(fd, &mut st);
        st.st_size
    }
}

unsafe fn pos(fd: c_int) -> i64 {
    libc::syscall(libc::SYS_lseek, fd, 0 as off64_t, libc::SEEK_CUR) as i64
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let f = |k: i64| libc::syscall(libc::SYS_read, fd, buf, k as size_t) as i64;
    match is_tracked(fd) {
        Some(t) => tracked("read", t, fd, pos(fd), n as i64, f) as ssize_t,
        None => f(n as i64) as ssize_t,
    }
}

static SPARSE: AtomicBool = AtomicBool::new(false);

/// Leave holes where zeros are written, in much of a file at once.
pub fn sparse(on: bool) {
    SPARSE.store(on, SeqCst);
}

unsafe fn zeros(fd: c_int, buf: *const c_void, n: size_t) -> bool {
    if n < 4096 || fd <= 2 || !SPARSE.load(SeqCst) {
        return false;
    }
    let (a, b, c) = std::slice::from_raw_parts(buf as *const u8, n).align_to::<u128>();
    b.iter().all(|x| *x == 0) && a.iter().chain(c).all(|x| *x == 0)
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t) -> i64 {
    if zeros(fd, buf, n)
        && libc::syscall(libc::SYS_lseek, fd, n as off64_t, libc::SEEK_CUR) as i64 >= 0
    {
        return n as i64;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as i64
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let f = |k: i64| do_write(fd, buf, k as size_t);
    match is_tracked(fd) {
        Some(t) => tracked("write", t, fd, pos(fd), n as i64, f) as ssize_t,
        None => f(n as i64) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, c: c_int) -> ssize_t {
    match is_tracked(fd) {
        Some(t) => {
            let vs = std::slice::from_raw_parts(iov, c as usize);
            let total: i64 = vs.iter().map(|v| v.iov_len as i64).sum();
            tracked("write", t, fd, pos(fd), total, |k| {
                if k >= total {
                    libc::syscall(libc::SYS_writev, fd, iov, c) as i64
                } else {
                    let v = vs.iter().find(|v| v.iov_len > 0).unwrap();
                    libc::syscall(libc::SYS_write, fd, v.iov_base, v.iov_len.min(k as usize))
                        as i64
                }
            }) as ssize_t
        }
        None => {
            if c > 0 && zeros(fd, (*iov).iov_base, (*iov).iov_len) {
                return do_write(fd, (*iov).iov_base, (*iov).iov_len) as ssize_t;
            }
            libc::syscall(libc::SYS_writev, fd, iov, c) as ssize_t
        }
    }
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let f = |k: i64| libc::syscall(libc::SYS_pread64, fd, buf, k as size_t, off) as i64;
    match is_tracked(fd) {
        Some(t) => tracked("read", t, fd, off, n as i64, f) as ssize_t,
        None => f(n as i64) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pread(fd, b, n, o)
}

#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pread(fd, b, n, o)
}

unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let f = |k: i64| {
        if zeros(fd, buf, k as size_t) {
            return k;
        }
        libc::syscall(libc::SYS_pwrite64, fd, buf, k as size_t, off) as i64
    };
    match is_tracked(fd) {
        Some(t) => tracked("write", t, fd, off, n as i64, f) as ssize_t,
        None => f(n as i64) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pwrite(fd, b, n, o)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pwrite(fd, b, n, o)
}

unsafe fn do_lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    let f = |_: i64| libc::syscall(libc::SYS_lseek, fd, off, wh) as i64;
    match is_tracked(fd) {
        Some(t) => tracked("lseek", t, fd, off, 0, f),
        None => f(0),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}

unsafe fn do_ftruncate(fd: c_int, len: off64_t) -> c_int {
    let f = |_: i64| libc::syscall(libc::SYS_ftruncate, fd, len) as i64;
    match is_tracked(fd) {
        Some(t) => tracked("ftruncate", t, fd, len, 0, f) as c_int,
        None => f(0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    do_ftruncate(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    do_ftruncate(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fi: c_int,
    oi: *mut off64_t,
    fo: c_int,
    oo: *mut off64_t,
    n: size_t,
    flags: libc::c_uint,
) -> ssize_t {
    if is_tracked(fi).is_some() || is_tracked(fo).is_some() {
        // Make std use the ordinary calls, which are observed.
        set_errno(libc::ENOSYS);
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, fi, oi, fo, oo, n, flags) as ssize_t
}

unsafe fn do_mmap(
    a: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off64_t,
) -> *mut c_void {
    let f = |_: i64| libc::syscall(libc::SYS_mmap, a, len, prot, flags, fd, off) as i64;
    if fd >= 0 {
        if let Some(t) = is_tracked(fd) {
            return tracked("mmap", t, fd, off, len as i64, f) as *mut c_void;
        }
    }
    f(0) as *mut c_void
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(
    a: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off64_t,
) -> *mut c_void {
    do_mmap(a, len, prot, flags, fd, off)
}

#[no_mangle]
pub unsafe extern "C" fn mmap(
    a: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off64_t,
) -> *mut c_void {
    do_mmap(a, len, prot, flags, fd, off)
}

