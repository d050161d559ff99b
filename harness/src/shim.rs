//! Interposed file-system calls: the definitions below take precedence over libc's for everything linked into this
//! program (the standard library and sled included). They pass every call on, and, once `start` was called, append
//! what was done to files below one directory to a journal, in the order in which it took effect. `fail_from` makes
//! all journalled calls from a given one on fail with an I/O error instead.
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::io::Write as _;
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static OPS: AtomicU64 = AtomicU64::new(0);
static FAIL_FROM: AtomicU64 = AtomicU64::new(u64::MAX);

struct J {
    root: Vec<u8>,
    out: std::mem::ManuallyDrop<std::fs::File>,
}
static JOURNAL: Mutex<Option<J>> = Mutex::new(None);

pub const WRITE: u8 = 1;
pub const TRUNCATE: u8 = 2;
pub const SYNC: u8 = 3;
pub const RENAME: u8 = 4;
pub const UNLINK: u8 = 5;
pub const MARK: u8 = 6;

/// Journals everything below `root` (an absolute path) to the file `to` outside of it.
pub fn start(root: &str, to: &str) {
    let c = std::ffi::CString::new(to).unwrap();
    let fd = unsafe { libc::open(c.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o600) };
    assert!(fd >= 0);
    let out = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    *JOURNAL.lock().unwrap() = Some(J { root: root.as_bytes().to_vec(), out });
    ON.store(true, Ordering::SeqCst);
}

pub fn fail_from(k: u64) {
    FAIL_FROM.store(k, Ordering::SeqCst);
}

pub fn ops() -> u64 {
    OPS.load(Ordering::SeqCst)
}

pub fn mark(data: &[u8]) {
    let mut j = JOURNAL.lock().unwrap();
    if let Some(j) = j.as_mut() {
        put(j, MARK, b"", 0, data);
    }
}

fn put(j: &mut J, kind: u8, path: &[u8], off: u64, data: &[u8]) {
    let mut b = vec![kind];
    b.extend_from_slice(&(path.len() as u32).to_le_bytes());
    b.extend_from_slice(path);
    b.extend_from_slice(&off.to_le_bytes());
    b.extend_from_slice(&(data.len() as u32).to_le_bytes());
    b.extend_from_slice(data);
    let _ = j.out.write_all(&b);
}

pub struct Op {
    pub kind: u8,
    pub path: String,
    pub off: u64,
    pub data: Vec<u8>,
}

pub fn read_journal(b: &[u8]) -> Vec<Op> {
    let mut v = Vec::new();
    let mut i = 0;
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    while i + 17 <= b.len() {
        let kind = b[i];
        let n = u32at(i + 1);
        let path = String::from_utf8_lossy(&b[i + 5..i + 5 + n]).into_owned();
        i += 5 + n;
        let mut o = [0; 8];
        o.copy_from_slice(&b[i..i + 8]);
        let m = u32at(i + 8);
        i += 12;
        if i + m > b.len() {
            break;
        }
        v.push(Op { kind, path, off: u64::from_le_bytes(o), data: b[i..i + m].to_vec() });
        i += m;
    }
    v
}

fn path_of(fd: c_int, root: &[u8]) -> Option<Vec<u8>> {
    let link = format!("/proc/self/fd/{}\0", fd);
    let mut buf = vec![0u8; 4096];
    let n = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if n <= 0 {
        return None;
    }
    buf.truncate(n as usize);
    below(&buf, root)
}

fn below(p: &[u8], root: &[u8]) -> Option<Vec<u8>> {
    let rest = p.strip_prefix(root)?;
    if rest.first() == Some(&b'/') { Some(rest[1..].to_vec()) } else { None }
}

/// Runs `call` and journals it if it concerns the watched directory.
fn via(fd: c_int, kind: u8, off: impl FnOnce() -> u64, data: &[u8], call: impl FnOnce() -> i64) -> i64 {
    if !ON.load(Ordering::Relaxed) {
        return call();
    }
    let mut j = match JOURNAL.try_lock() {
        Ok(j) => j,
        Err(_) if fd_is_journal(fd) => return call(),
        Err(_) => match JOURNAL.lock() { Ok(j) => j, Err(_) => return call() },
    };
    let path = match j.as_ref().and_then(|j| path_of(fd, &j.root)) {
        Some(p) => p,
        None => { drop(j); return call() }
    };
    let k = OPS.fetch_add(1, Ordering::SeqCst);
    if k >= FAIL_FROM.load(Ordering::SeqCst) {
        unsafe { *libc::__errno_location() = libc::EIO };
        return -1;
    }
    let off = off();
    let r = call();
    let e = unsafe { *libc::__errno_location() };
    if r >= 0 {
        let data = if kind == WRITE { &data[..r as usize] } else { data };
        put(j.as_mut().unwrap(), kind, &path, off, data);
    }
    unsafe { *libc::__errno_location() = e };
    r
}

fn fd_is_journal(fd: c_int) -> bool {
    // only reached while this or another thread writes the journal itself
    let link = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 512];
    let n = unsafe { libc::syscall(libc::SYS_readlink, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    n > 0 && buf[..n as usize].ends_with(b".journal")
}

fn via_path(kind: u8, p: *const c_char, q: *const c_char, call: impl FnOnce() -> i64) -> i64 {
    if !ON.load(Ordering::Relaxed) {
        return call();
    }
    let mut j = match JOURNAL.lock() { Ok(j) => j, Err(_) => return call() };
    let cwd = std::env::current_dir().unwrap();
    let abs = |p: *const c_char| -> Vec<u8> {
        use std::os::unix::ffi::{OsStrExt, OsStringExt};
        let s = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
        cwd.join(std::ffi::OsStr::from_bytes(s)).into_os_string().into_vec()
    };
    let root = j.as_ref().unwrap().root.clone();
    let (a, b) = (below(&abs(p), &root), if q.is_null() { Some(vec![]) } else { below(&abs(q), &root) });
    let (a, b) = match (a, b) { (Some(a), Some(b)) => (a, b), _ => { drop(j); return call() } };
    let k = OPS.fetch_add(1, Ordering::SeqCst);
    if k >= FAIL_FROM.load(Ordering::SeqCst) {
        unsafe { *libc::__errno_location() = libc::EIO };
        return -1;
    }
    let r = call();
    let e = unsafe { *libc::__errno_location() };
    if r >= 0 {
        put(j.as_mut().unwrap(), kind, &a, 0, &b);
    }
    unsafe { *libc::__errno_location() = e };
    r
}

unsafe fn slice<'a>(buf: *const c_void, n: size_t) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(buf as *const u8, n) }
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let call = || libc::syscall(libc::SYS_write, fd, buf, n);
    if !ON.load(Ordering::Relaxed) || fd_is_journal(fd) {
        return call() as ssize_t;
    }
    via(fd, WRITE, || libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as u64, slice(buf, n), call) as ssize_t
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    via(fd, WRITE, || off as u64, slice(buf, n), || libc::syscall(libc::SYS_pwrite64, fd, buf, n, off)) as ssize_t
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    via(fd, TRUNCATE, || len as u64, &[], || libc::syscall(libc::SYS_ftruncate, fd, len)) as c_int
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    via(fd, SYNC, || 0, &[], || libc::syscall(libc::SYS_fsync, fd)) as c_int
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    via(fd, SYNC, || 0, &[], || libc::syscall(libc::SYS_fdatasync, fd)) as c_int
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: off64_t, n: off64_t, flags: c_uint) -> c_int {
    via(fd, SYNC, || 0, &[], || libc::syscall(libc::SYS_sync_file_range, fd, off, n, flags)) as c_int
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    via_path(RENAME, a, b, || libc::syscall(libc::SYS_rename, a, b)) as c_int
}

#[cfg_attr(not(any(miri, vh_san)), no_mangle)]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    via_path(UNLINK, a, std::ptr::null(), || libc::syscall(libc::SYS_unlink, a)) as c_int
}
