//! Interposed file system calls of this process: everything the library does to
//! files under a watched directory can be delayed, recorded or made to fail.
//!
//! The functions below take the place of the C library's (the executable's
//! definitions win), so the library under test runs unchanged.
#![allow(clippy::missing_safety_doc, dead_code, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use crate::util::Rng;
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

const DELAY: u32 = 1;
const RECORD: u32 = 2;
const FAULT: u32 = 4;
static MODE: AtomicU32 = AtomicU32::new(0);
static ROOT: Mutex<Option<Vec<u8>>> = Mutex::new(None);
const NFD: usize = 4096;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicBool = AtomicBool::new(false);
static WATCHED: [AtomicBool; NFD] = [Z; NFD];
static FDS: Mutex<Option<HashMap<c_int, Fd>>> = Mutex::new(None);

thread_local! {
    /// set while the interposer or the harness itself works
    static OWN: Cell<bool> = const { Cell::new(false) };
}
/// The harness's own file accesses, invisible to the interposer.
pub fn own<T>(f: impl FnOnce() -> T) -> T {
    let old = OWN.with(|o| o.replace(true));
    let r = f();
    OWN.with(|o| o.set(old));
    r
}
fn is_own() -> bool {
    OWN.try_with(|o| o.get()).unwrap_or(true)
}

#[derive(Clone, Debug)]
struct Fd {
    path: PathBuf,
    dir: bool,
}

// ---------------------------------------------------------------- recording
#[derive(Clone, Debug)]
pub enum Op {
    /// a new empty file
    Create(PathBuf, u64),
    Truncate(u64, u64),
    Write(u64, u64, Vec<u8>),
    /// a file (data and size) made durable
    Sync(u64),
    SyncDir(PathBuf),
    Rename(PathBuf, PathBuf),
    Link(PathBuf, PathBuf),
    Unlink(PathBuf),
    Mkdir(PathBuf),
    Rmdir(PathBuf),
    /// put in by the harness: something was acknowledged to the caller
    Mark(usize),
}
#[derive(Default)]
struct Rec {
    log: Vec<Op>,
    ino: HashMap<u64, u64>,
    next: u64,
}
static REC: Mutex<Option<Rec>> = Mutex::new(None);

pub fn mark(n: usize) {
    if let Some(r) = REC.lock().unwrap().as_mut() {
        r.log.push(Op::Mark(n));
    }
}
pub fn log_len() -> usize {
    REC.lock().unwrap().as_ref().map(|r| r.log.len()).unwrap_or(0)
}

/// Starts recording below `root`; the files that are there get ids by `id_of`.
pub fn record_start(root: &Path, ids: &HashMap<u64, u64>) {
    let next = ids.values().max().copied().unwrap_or(0) + 1;
    *REC.lock().unwrap() = Some(Rec { log: vec![], ino: ids.clone(), next });
    set_root(root);
    MODE.fetch_or(RECORD, SeqCst);
}
pub fn record_stop() -> Vec<Op> {
    MODE.fetch_and(!RECORD, SeqCst);
    REC.lock().unwrap().take().map(|r| r.log).unwrap_or_default()
}
pub fn set_root(root: &Path) {
    use std::os::unix::ffi::OsStrExt;
    *ROOT.lock().unwrap() = Some(root.as_os_str().as_bytes().to_vec());
}

// ------------------------------------------------------------------- delays
static DELAY_PM: AtomicU64 = AtomicU64::new(0);
static DELAY_US: AtomicU64 = AtomicU64::new(0);
static DELAY_RNG: AtomicU64 = AtomicU64::new(1);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
/// Each call sleeps with probability pm/1000 for up to `us` microseconds.
pub fn delays_start(root: &Path, pm: u64, us: u64, seed: u64) {
    set_root(root);
    DELAY_PM.store(pm, SeqCst);
    DELAY_US.store(us, SeqCst);
    DELAY_RNG.store(seed | 1, SeqCst);
    MODE.fetch_or(DELAY, SeqCst);
}
pub fn delays_stop() {
    MODE.fetch_and(!DELAY, SeqCst);
}
fn maybe_delay() {
    let n = DELAY_RNG.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
    let mut r = Rng::new(n);
    if r.next() % 1000 < DELAY_PM.load(SeqCst) {
        let us = r.next() % (DELAY_US.load(SeqCst) + 1);
        DELAYS.fetch_add(1, SeqCst);
        unsafe {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: (us * 1000) as i64 };
            libc::nanosleep(&ts, std::ptr::null_mut());
        }
    }
}

// ------------------------------------------------------------------- faults
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Call {
    Open,
    Read,
    Write,
    Trunc,
    Sync,
    Rename,
    Link,
    Unlink,
    Mkdir,
    Rmdir,
    Stat,
    Opendir,
    Readdir,
    Seek,
    Lock,
}
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// the how manyeth matching call is hit, from 0
    pub at: usize,
    pub only: Option<Call>,
    /// 0 means: cut short instead of failed (reads and writes)
    pub errno: i32,
    /// how many matching calls in a row are hit
    pub times: usize,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
static SEEN: AtomicUsize = AtomicUsize::new(0);
static HITS: Mutex<Vec<(Call, String)>> = Mutex::new(vec![]);
static CALLS: Mutex<Vec<Call>> = Mutex::new(vec![]);
/// what could not be brought to the disk and still is not there
static UNSYNCED: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);

/// Files and directories whose last fsync failed, as far as they still exist; to be called after faults_stop.
pub fn unsynced() -> Vec<PathBuf> {
    own(|| {
        let mut v = std::mem::take(&mut *UNSYNCED.lock().unwrap());
        v.retain(|p| p.exists());
        v
    })
}
fn moved(a: &Path, b: &Path) {
    own(|| {
        let mut g = UNSYNCED.lock().unwrap();
        g.retain(|p| !p.starts_with(b));
        for p in g.iter_mut() {
            if let Ok(rest) = p.strip_prefix(a) {
                *p = if rest.as_os_str().is_empty() { b.to_path_buf() } else { b.join(rest) };
            }
        }
    })
}

pub fn faults_start(root: &Path, plan: Option<Plan>) {
    set_root(root);
    *PLAN.lock().unwrap() = plan;
    SEEN.store(0, SeqCst);
    HITS.lock().unwrap().clear();
    UNSYNCED.lock().unwrap().clear();
    CALLS.lock().unwrap().clear();
    MODE.fetch_or(FAULT, SeqCst);
}
/// What was hit, and all calls seen.
pub fn faults_stop() -> (Vec<(Call, String)>, Vec<Call>) {
    MODE.fetch_and(!FAULT, SeqCst);
    *PLAN.lock().unwrap() = None;
    (std::mem::take(&mut *HITS.lock().unwrap()), std::mem::take(&mut *CALLS.lock().unwrap()))
}
/// Some(errno) if this call is to fail; Some(0): to be cut short.
fn fault(c: Call, what: impl FnOnce() -> String) -> Option<i32> {
    own(|| {
        CALLS.lock().unwrap().push(c);
        let p = (*PLAN.lock().unwrap())?;
        if c == Call::Seek {
            return None;
        }
        if let Some(o) = p.only {
            if o != c {
                return None;
            }
        }
        let n = SEEN.fetch_add(1, SeqCst);
        if n < p.at || n >= p.at.saturating_add(p.times) {
            return None;
        }
        if p.errno == 0 && !matches!(c, Call::Read | Call::Write) {
            return None;
        }
        if p.errno == libc::EINTR && !matches!(c, Call::Open | Call::Read | Call::Write | Call::Sync | Call::Trunc | Call::Lock) {
            return None;
        }
        HITS.lock().unwrap().push((c, what()));
        // only what such a call can fail with
        let paths = matches!(c, Call::Open | Call::Opendir | Call::Stat | Call::Mkdir | Call::Rename | Call::Link | Call::Unlink | Call::Rmdir);
        let grows = matches!(c, Call::Open | Call::Write | Call::Trunc | Call::Sync | Call::Mkdir | Call::Rename | Call::Link);
        Some(match p.errno {
            libc::EACCES if !paths => libc::EIO,
            libc::EMFILE if !matches!(c, Call::Open | Call::Opendir) => libc::EIO,
            libc::ENOSPC if !grows => libc::EIO,
            e => e,
        })
    })
}

// ------------------------------------------------------------ raw calls etc.
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn get_errno() -> i32 {
    unsafe { *libc::__errno_location() }
}
macro_rules! sys {
    ($n:expr $(, $a:expr)*) => { libc::syscall($n $(, $a)*) };
}
unsafe fn abs(dirfd: c_int, p: *const c_char) -> Option<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_bytes();
    let path = Path::new(std::ffi::OsStr::from_bytes(s));
    let full = if path.is_absolute() {
        path.to_path_buf()
    } else if dirfd == libc::AT_FDCWD {
        return None;
    } else {
        FDS.lock().unwrap().as_ref()?.get(&dirfd)?.path.join(path)
    };
    let root = ROOT.lock().unwrap();
    let root = root.as_ref()?;
    if full.as_os_str().as_bytes().starts_with(root) {
        Some(full)
    } else {
        None
    }
}
/// The path if calls on it are of interest now.
unsafe fn watch(dirfd: c_int, p: *const c_char) -> Option<PathBuf> {
    if MODE.load(SeqCst) == 0 || is_own() {
        return None;
    }
    let r = own(|| abs(dirfd, p));
    if r.is_some() && MODE.load(SeqCst) & DELAY != 0 {
        maybe_delay();
    }
    r
}
unsafe fn watch_fd(fd: c_int) -> bool {
    if fd < 0 || fd as usize >= NFD || !WATCHED[fd as usize].load(SeqCst) || MODE.load(SeqCst) == 0 || is_own() {
        return false;
    }
    if MODE.load(SeqCst) & DELAY != 0 {
        maybe_delay();
    }
    true
}
fn faulting() -> bool {
    MODE.load(SeqCst) & FAULT != 0
}
fn recording() -> bool {
    MODE.load(SeqCst) & RECORD != 0
}
fn fd_name(fd: c_int) -> String {
    FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd)).map(|f| f.path.to_string_lossy().to_string()).unwrap_or_default()
}
fn fd_set(fd: c_int, f: Fd) {
    if fd >= 0 && (fd as usize) < NFD {
        own(|| FDS.lock().unwrap().get_or_insert_with(HashMap::new).insert(fd, f));
        WATCHED[fd as usize].store(true, SeqCst);
    }
}
unsafe fn ino_of(fd: c_int) -> u64 {
    let mut st: libc::stat64 = std::mem::zeroed();
    if sys!(libc::SYS_fstat, fd, &mut st as *mut _) != 0 {
        return 0;
    }
    st.st_ino
}
/// Runs a changing call and notes it, as one step.
unsafe fn noted(call: impl FnOnce() -> i64, note: impl FnOnce(&mut Rec, i64)) -> i64 {
    own(|| {
        if !recording() {
            return call();
        }
        let mut g = REC.lock().unwrap();
        let r = call();
        let e = get_errno();
        if r >= 0 {
            if let Some(rec) = g.as_mut() {
                note(rec, r);
            }
        }
        drop(g);
        set_errno(e);
        r
    })
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let raw = || sys!(libc::SYS_openat, dirfd, path, flags, mode);
    let p = match watch(dirfd, path) {
        None => return raw() as c_int,
        Some(p) => p,
    };
    if faulting() {
        if let Some(e) = fault(Call::Open, || p.to_string_lossy().to_string()) {
            set_errno(e);
            return -1;
        }
    }
    let existed = recording() && flags & libc::O_CREAT != 0 && own(|| std::fs::symlink_metadata(&p).is_ok());
    // whether it existed is asked outside the lock; two creators of one path do not occur in recorded runs
    let r = noted(raw, |rec, fd| {
        let fd = fd as c_int;
        if flags & libc::O_DIRECTORY != 0 {
            return;
        }
        let ino = ino_of(fd);
        if flags & libc::O_CREAT != 0 && !existed {
            let id = rec.next;
            rec.next += 1;
            rec.ino.insert(ino, id);
            rec.log.push(Op::Create(p.clone(), id));
        } else if flags & libc::O_TRUNC != 0 {
            if let Some(id) = rec.ino.get(&ino) {
                let id = *id;
                rec.log.push(Op::Truncate(id, 0));
            }
        }
    }) as c_int;
    if r >= 0 {
        let mut st: libc::stat64 = std::mem::zeroed();
        let dir = sys!(libc::SYS_fstat, r, &mut st as *mut _) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFDIR;
        fd_set(r, Fd { path: p, dir });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    forget(fd);
    sys!(libc::SYS_close, fd) as c_int
}
fn forget(fd: c_int) {
    if fd >= 0 && (fd as usize) < NFD && WATCHED[fd as usize].load(SeqCst) {
        WATCHED[fd as usize].store(false, SeqCst);
        own(|| FDS.lock().unwrap().as_mut().map(|m| m.remove(&fd)));
    }
}
unsafe fn dup_note(fd: c_int, new: c_int) {
    if new >= 0 && fd >= 0 && (fd as usize) < NFD && WATCHED[fd as usize].load(SeqCst) {
        if let Some(f) = own(|| FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd).cloned())) {
            fd_set(new, f);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let r = sys!(libc::SYS_dup, fd) as c_int;
    dup_note(fd, r);
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = sys!(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        dup_note(fd, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if watch_fd(fd) && faulting() {
        if let Some(e) = fault(Call::Read, || fd_name(fd)) {
            if e != 0 {
                set_errno(e);
                return -1;
            }
            n = n.min(1);
        }
    }
    sys!(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let mut n = n;
    if !watch_fd(fd) {
        return sys!(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    if faulting() {
        if let Some(e) = fault(Call::Write, || fd_name(fd)) {
            if e != 0 {
                set_errno(e);
                return -1;
            }
            n = n.div_ceil(2);
        }
    }
    noted(
        || sys!(libc::SYS_write, fd, buf, n),
        |rec, r| {
            let end = sys!(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as u64;
            if let Some(id) = rec.ino.get(&ino_of(fd)) {
                let id = *id;
                let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
                rec.log.push(Op::Write(id, end - r as u64, data));
            }
        },
    ) as ssize_t
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    if !watch_fd(fd) {
        return sys!(nr, fd) as c_int;
    }
    if faulting() {
        let e = fault(Call::Sync, || fd_name(fd));
        own(|| {
            if let Some(f) = FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd).cloned()) {
                let mut g = UNSYNCED.lock().unwrap();
                g.retain(|p| *p != f.path);
                if e.is_some() {
                    g.push(f.path);
                }
            }
        });
        if let Some(e) = e {
            set_errno(e);
            return -1;
        }
    }
    let f = own(|| FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd).cloned()));
    noted(
        || sys!(nr, fd),
        |rec, _| {
            if let Some(f) = f {
                if f.dir {
                    rec.log.push(Op::SyncDir(f.path));
                } else if let Some(id) = rec.ino.get(&ino_of(fd)) {
                    let id = *id;
                    rec.log.push(Op::Sync(id));
                }
            }
        },
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !watch_fd(fd) {
        return sys!(libc::SYS_ftruncate, fd, len) as c_int;
    }
    if faulting() {
        if let Some(e) = fault(Call::Trunc, || fd_name(fd)) {
            set_errno(e);
            return -1;
        }
    }
    noted(
        || sys!(libc::SYS_ftruncate, fd, len),
        |rec, _| {
            if let Some(id) = rec.ino.get(&ino_of(fd)) {
                let id = *id;
                rec.log.push(Op::Truncate(id, len as u64));
            }
        },
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if watch_fd(fd) && faulting() {
        if let Some(e) = fault(Call::Seek, || fd_name(fd)) {
            set_errno(e);
            return -1;
        }
    }
    sys!(libc::SYS_lseek, fd, off, whence) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if watch_fd(fd) && faulting() && op & libc::LOCK_UN == 0 {
        if let Some(e) = fault(Call::Lock, || fd_name(fd)) {
            set_errno(e);
            return -1;
        }
    }
    sys!(libc::SYS_flock, fd, op) as c_int
}
unsafe fn path_call(c: Call, p: &Path) -> Option<c_int> {
    if faulting() {
        if let Some(e) = fault(c, || p.to_string_lossy().to_string()) {
            set_errno(e);
            return Some(-1);
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (pa, pb) = match (watch(libc::AT_FDCWD, a), own(|| abs(libc::AT_FDCWD, b))) {
        (Some(x), Some(y)) => (x, y),
        _ => return sys!(libc::SYS_rename, a, b) as c_int,
    };
    if let Some(r) = path_call(Call::Rename, &pb) {
        return r;
    }
    let (qa, qb) = (pa.clone(), pb.clone());
    let r = noted(|| sys!(libc::SYS_rename, a, b), |rec, _| rec.log.push(Op::Rename(pa, pb))) as c_int;
    if r == 0 && faulting() {
        moved(&qa, &qb);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, flags: c_int) -> c_int {
    let (pa, pb) = match (watch(ad, a), own(|| abs(bd, b))) {
        (Some(x), Some(y)) => (x, y),
        _ => return sys!(libc::SYS_linkat, ad, a, bd, b, flags) as c_int,
    };
    if let Some(r) = path_call(Call::Link, &pb) {
        return r;
    }
    noted(|| sys!(libc::SYS_linkat, ad, a, bd, b, flags), |rec, _| rec.log.push(Op::Link(pa, pb))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, flags: c_int) -> c_int {
    let p = match watch(d, a) {
        Some(p) => p,
        None => return sys!(libc::SYS_unlinkat, d, a, flags) as c_int,
    };
    let dir = flags & libc::AT_REMOVEDIR != 0;
    if faulting() {
        own(|| UNSYNCED.lock().unwrap().retain(|q| *q != p));
    }
    if let Some(r) = path_call(if dir { Call::Rmdir } else { Call::Unlink }, &p) {
        return r;
    }
    noted(|| sys!(libc::SYS_unlinkat, d, a, flags), |rec, _| rec.log.push(if dir { Op::Rmdir(p) } else { Op::Unlink(p) })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, a, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, a, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    let p = match watch(libc::AT_FDCWD, a) {
        Some(p) => p,
        None => return sys!(libc::SYS_mkdir, a, mode) as c_int,
    };
    if let Some(r) = path_call(Call::Mkdir, &p) {
        return r;
    }
    noted(|| sys!(libc::SYS_mkdir, a, mode), |rec, _| rec.log.push(Op::Mkdir(p))) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, a: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if !a.is_null() && *a != 0 {
        if let Some(p) = watch(d, a) {
            if let Some(r) = path_call(Call::Stat, &p) {
                return r;
            }
        }
    } else if watch_fd(d) && faulting() {
        if let Some(e) = fault(Call::Stat, || fd_name(d)) {
            set_errno(e);
            return -1;
        }
    }
    sys!(libc::SYS_statx, d, a, flags, mask, buf) as c_int
}

unsafe fn next(cache: &AtomicUsize, name: &[u8]) -> usize {
    let p = cache.load(SeqCst);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    if p == 0 {
        libc::abort();
    }
    cache.store(p, SeqCst);
    p
}
static DIRS: Mutex<Option<HashMap<usize, PathBuf>>> = Mutex::new(None);
#[no_mangle]
pub unsafe extern "C" fn opendir(a: *const c_char) -> *mut libc::DIR {
    static C: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(&C, b"opendir\0"));
    if let Some(p) = watch(libc::AT_FDCWD, a) {
        if path_call(Call::Opendir, &p).is_some() {
            return std::ptr::null_mut();
        }
        let r = real(a);
        if !r.is_null() {
            own(|| DIRS.lock().unwrap().get_or_insert_with(HashMap::new).insert(r as usize, p));
        }
        return r;
    }
    real(a)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    static C: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(&C, b"readdir64\0"));
    if MODE.load(SeqCst) != 0 && !is_own() {
        if let Some(p) = own(|| DIRS.lock().unwrap().as_ref().and_then(|m| m.get(&(d as usize)).cloned())) {
            if MODE.load(SeqCst) & DELAY != 0 {
                maybe_delay();
            }
            if path_call(Call::Readdir, &p).is_some() {
                return std::ptr::null_mut();
            }
        }
    }
    real(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    static C: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(&C, b"closedir\0"));
    own(|| DIRS.lock().unwrap().as_mut().map(|m| m.remove(&(d as usize))));
    // it closes the file descriptor without calling close()
    forget(libc::dirfd(d));
    real(d)
}
