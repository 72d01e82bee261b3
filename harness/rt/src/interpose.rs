//! Overrides of libc entry points in this binary: virtual clock, deterministic randomness,
//! numbered mutating file-system calls (crash points), path containment.
//! Everything is off by default; then each function is a plain system call.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions, unknown_lints)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off_t, size_t, ssize_t, timespec};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

// ---------------------------------------------------------------- clock
pub const BASE_REAL: i64 = 1_800_000_000;
pub const BASE_MONO: i64 = 1_000_000_000;
static VT_ON: AtomicBool = AtomicBool::new(false);
static VT_NS: AtomicU64 = AtomicU64::new(0);
/// > 0: the clock runs by itself at this multiple of real time (parallel properties).
static VT_SPEED: AtomicI64 = AtomicI64::new(0);
static VT_REAL0: AtomicI64 = AtomicI64::new(0);

pub fn vt_set(ns: u64) { VT_SPEED.store(0, SeqCst); VT_NS.store(ns, SeqCst); VT_ON.store(true, SeqCst); }
pub fn vt_run(speed: i64) {
    VT_NS.store(0, SeqCst);
    VT_REAL0.store(real_mono_ns(), SeqCst);
    VT_SPEED.store(speed, SeqCst);
    VT_ON.store(true, SeqCst);
}
pub fn vt_off() { VT_ON.store(false, SeqCst); VT_SPEED.store(0, SeqCst); }
pub fn vt_now() -> u64 {
    let sp = VT_SPEED.load(SeqCst);
    if sp > 0 { ((real_mono_ns() - VT_REAL0.load(SeqCst)) * sp) as u64 } else { VT_NS.load(SeqCst) }
}
/// Unix milliseconds of the virtual clock.
pub fn vt_unix_ms() -> u64 { BASE_REAL as u64 * 1000 + vt_now() / 1_000_000 }

pub fn real_mono_ns() -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut timespec) -> c_int {
    if VT_ON.load(SeqCst) {
        let base = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(BASE_REAL),
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => Some(BASE_MONO),
            _ => None,
        };
        if let Some(b) = base {
            let v = vt_now();
            (*tp).tv_sec = b + (v / 1_000_000_000) as i64;
            (*tp).tv_nsec = (v % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, tp) as c_int
}

// ---------------------------------------------------------------- randomness
thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}
pub fn seed_thread(seed: u64) { RNG.with(|r| r.set(seed | 1)); }
/// Threads that were not seeded themselves draw from here (0: real randomness).
static PROC_SEED: AtomicU64 = AtomicU64::new(0);
pub fn seed_process(seed: u64) { PROC_SEED.store(seed | 1, SeqCst); }
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let done = RNG.with(|r| {
        let mut s = r.get();
        if s == 0 {
            let p = PROC_SEED.load(SeqCst);
            if p == 0 { return false; }
            s = PROC_SEED.fetch_add(0x51ed270b76d2a1c5, SeqCst) | 1;
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for ch in out.chunks_mut(8) {
            let v = splitmix(&mut s).to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()]);
        }
        r.set(if s == 0 { 1 } else { s });
        true
    });
    if done { return len as ssize_t; }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t
}

// ---------------------------------------------------------------- file system
#[derive(Clone, Debug)]
pub struct FsEvent { pub op: &'static str, pub path: String, pub refused: bool }

/// Where and how the disk image was taken.
#[derive(Clone, Debug)]
pub struct Snap { pub dir: String, pub at_write: u64, pub vt: u64, pub marks: [u64; 4], pub torn: bool, pub op: &'static str, pub path: String }

struct FsState {
    root: String,               // everything mutating must stay below this
    guard: bool,
    trace: Option<Vec<FsEvent>>,
    escapes: Vec<FsEvent>,
    // crash points
    data: String,
    snap_base: String,
    gaps: Vec<(u64, Option<u16>)>, // (writes until the next image, torn fraction /65536)
    next: usize,
    since: u64,
    count: u64,
    snaps: Vec<Snap>,
}
static FS_ON: AtomicBool = AtomicBool::new(false);
static FS: Mutex<FsState> = Mutex::new(FsState {
    root: String::new(), guard: false, trace: None, escapes: Vec::new(), data: String::new(), snap_base: String::new(),
    gaps: Vec::new(), next: 0, since: 0, count: 0, snaps: Vec::new(),
});
/// Progress marks of the running history (operations started / confirmed ...), stored with each image.
pub static MARKS: [AtomicU64; 4] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

fn fs() -> std::sync::MutexGuard<'static, FsState> { FS.lock().unwrap_or_else(|e| e.into_inner()) }

pub fn fs_start(root: &str) {
    let mut f = fs();
    f.root = root.to_string(); f.guard = true; f.trace = None; f.escapes.clear();
    f.gaps.clear(); f.next = 0; f.since = 0; f.count = 0; f.snaps.clear();
    drop(f);
    FS_ON.store(true, SeqCst);
}
pub fn fs_trace() { fs().trace = Some(Vec::new()); }
pub fn fs_take_trace() -> Vec<FsEvent> { fs().trace.replace(Vec::new()).unwrap_or_default() }
pub fn fs_crash_points(data: &str, snap_base: &str, gaps: Vec<(u64, Option<u16>)>) {
    let mut f = fs();
    f.data = data.to_string(); f.snap_base = snap_base.to_string(); f.gaps = gaps; f.next = 0; f.since = 0; f.count = 0; f.snaps.clear();
}
pub fn fs_take_snaps() -> (Vec<Snap>, u64) {
    let mut f = fs();
    let c = f.count;
    f.gaps.clear();
    (std::mem::take(&mut f.snaps), c)
}
pub fn fs_escapes() -> Vec<FsEvent> { std::mem::take(&mut fs().escapes) }
pub fn fs_stop() { FS_ON.store(false, SeqCst); }

/// Run harness code whose own file accesses must not be seen by the hooks.
pub fn unhooked<T>(f: impl FnOnce() -> T) -> T {
    let old = IN_HOOK.with(|h| h.replace(true));
    let r = f();
    IN_HOOK.with(|h| h.set(old));
    r
}
pub fn in_hook() -> bool { IN_HOOK.with(|h| h.get()) }
fn active() -> bool { FS_ON.load(SeqCst) && !IN_HOOK.with(|h| h.get()) }

fn fd_path(fd: c_int) -> String {
    let mut buf = [0u8; 4096];
    let p = format!("/proc/self/fd/{}\0", fd);
    let n = unsafe { libc::syscall(libc::SYS_readlink, p.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if n <= 0 { return String::new(); }
    String::from_utf8_lossy(&buf[..n as usize]).into_owned()
}
fn cwd() -> String {
    let mut buf = [0u8; 4096];
    let n = unsafe { libc::syscall(libc::SYS_getcwd, buf.as_mut_ptr(), buf.len()) };
    if n <= 1 { return "/".into(); }
    String::from_utf8_lossy(&buf[..(n - 1) as usize]).into_owned()
}
pub fn normalize(p: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c { "" | "." => {} ".." => { out.pop(); } x => out.push(x) }
    }
    format!("/{}", out.join("/"))
}
unsafe fn resolve(dirfd: c_int, path: *const c_char) -> String {
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if p.starts_with('/') { return normalize(&p); }
    let base = if dirfd == libc::AT_FDCWD { cwd() } else { fd_path(dirfd) };
    normalize(&format!("{}/{}", base, p))
}
fn inside(root: &str, p: &str) -> bool { p == root || (p.starts_with(root) && p.as_bytes().get(root.len()) == Some(&b'/')) }

/// Decide a path-mutating call. Returns true when it must be refused.
fn path_event(op: &'static str, path: String) -> bool {
    let mut f = fs();
    let bad = f.guard && !inside(&f.root, &path) && path != "/dev/null";
    let ev = FsEvent { op, path, refused: bad };
    if bad { f.escapes.push(ev.clone()); }
    if let Some(t) = f.trace.as_mut() { t.push(ev); }
    bad
}
fn refuse() -> c_int { unsafe { *libc::__errno_location() = libc::EACCES }; -1 }

fn copy_tree(src: &std::path::Path, dst: &std::path::Path) {
    let _ = std::fs::create_dir_all(dst);
    let Ok(rd) = std::fs::read_dir(src) else { return };
    for e in rd.flatten() {
        let (s, d) = (e.path(), dst.join(e.file_name()));
        let Ok(md) = std::fs::symlink_metadata(&s) else { continue };
        if md.is_dir() { copy_tree(&s, &d); }
        else if md.is_file() {
            if let Ok(data) = std::fs::read(&s) { let _ = std::fs::write(&d, data); }
        }
        copy_mtime(&md, &d);
    }
}
fn copy_mtime(md: &std::fs::Metadata, d: &std::path::Path) {
    use std::os::unix::fs::MetadataExt;
    let ts = [timespec { tv_sec: md.atime(), tv_nsec: md.atime_nsec() }, timespec { tv_sec: md.mtime(), tv_nsec: md.mtime_nsec() }];
    let c = std::ffi::CString::new(d.to_string_lossy().as_bytes()).unwrap();
    unsafe { libc::syscall(libc::SYS_utimensat, libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0) };
}
/// Copy a data directory as it is now (a stop of the server at this moment).
pub fn image(src: &str, dst: &str) {
    unhooked(|| {
        let _g = fs();
        let _ = std::fs::remove_dir_all(dst);
        copy_tree(std::path::Path::new(src), std::path::Path::new(dst));
    })
}

/// Called with the FS lock held around a mutating call on `path`.
fn crash_point(f: &mut FsState, op: &'static str, path: &str, torn: Option<(&[u8], i64)>) {
    if f.gaps.is_empty() || !inside(&f.data, path) { return; }
    f.count += 1;
    if f.next >= f.gaps.len() { return; }
    if f.since < f.gaps[f.next].0 { f.since += 1; return; }
    f.since = 0;
    let frac = f.gaps[f.next].1;
    let dir = format!("{}{}", f.snap_base, f.next);
    f.next += 1;
    let _ = std::fs::remove_dir_all(&dir);
    copy_tree(std::path::Path::new(&f.data), std::path::Path::new(&dir));
    let mut was_torn = false;
    if let (Some(fr), Some((bytes, off))) = (frac, torn) {
        let n = (bytes.len() as u64 * fr as u64 / 65536) as usize;
        if n > 0 {
            was_torn = true;
            let rel = &path[f.data.len()..];
            let target = format!("{}{}", dir, rel);
            use std::os::unix::fs::FileExt;
            if let Ok(file) = std::fs::OpenOptions::new().write(true).open(&target) {
                let at = if off < 0 { file.metadata().map(|m| m.len()).unwrap_or(0) } else { off as u64 };
                let _ = file.write_all_at(&bytes[..n], at);
            }
        }
    }
    let marks = [0, 1, 2, 3].map(|i| MARKS[i].load(SeqCst));
    let snap = Snap { dir, at_write: f.count, vt: vt_now(), marks, torn: was_torn, op, path: path.to_string() };
    f.snaps.push(snap);
}

fn crashing() -> bool { !fs().gaps.is_empty() }

fn set_vmtime(fd: c_int) {
    if !VT_ON.load(SeqCst) { return; }
    let v = vt_now();
    let t = timespec { tv_sec: BASE_REAL + (v / 1_000_000_000) as i64, tv_nsec: (v % 1_000_000_000) as i64 };
    let ts = [t, t];
    unsafe { libc::syscall(libc::SYS_utimensat, fd, std::ptr::null::<c_char>(), ts.as_ptr(), 0) };
}

const WRITE_FLAGS: c_int = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC;
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() && flags & WRITE_FLAGS != 0 {
        return unhooked(|| {
            let p = resolve(dirfd, path);
            if path_event("open", p.clone()) { return refuse(); }
            let mutates = flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
            let mut f = fs();
            let mut created = false;
            if mutates {
                let exists = std::fs::symlink_metadata(&p).is_ok();
                created = !exists;
                if !exists || flags & libc::O_TRUNC != 0 { crash_point(&mut f, "open", &p, None); }
            }
            let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_uint) as c_int;
            if fd >= 0 && created { set_vmtime(fd); }
            fd
        });
    }
    libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_uint) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(d, p, flags, mode) }

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off_t>) -> ssize_t {
    let raw = || match off {
        None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
    };
    if fd > 2 && active() {
        return unhooked(|| {
            if !crashing() {
                let r = raw();
                if r > 0 && off.is_none() { set_vmtime(fd); }
                return r;
            }
            let p = fd_path(fd);
            let mut f = fs();
            if p.starts_with('/') {
                let at = off.unwrap_or_else(|| {
                    let fl = libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL) as c_int;
                    if fl & libc::O_APPEND != 0 { -1 } else { libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as off_t }
                });
                let bytes = std::slice::from_raw_parts(buf as *const u8, n);
                crash_point(&mut f, "write", &p, Some((bytes, at)));
            }
            let r = raw();
            if r > 0 { set_vmtime(fd); }
            r
        });
    }
    raw()
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t { do_write(fd, buf, n, None) }
#[no_mangle] pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t { do_write(fd, buf, n, Some(o)) }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t { do_write(fd, buf, n, Some(o)) }

unsafe fn do_ftruncate(fd: c_int, len: off_t) -> c_int {
    if active() && crashing() {
        return unhooked(|| {
            let p = fd_path(fd);
            let mut f = fs();
            crash_point(&mut f, "ftruncate", &p, None);
            libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
        });
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int { do_ftruncate(fd, len) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int { do_ftruncate(fd, len) }

unsafe fn path_op(op: &'static str, dirfd: c_int, path: *const c_char, raw: impl FnOnce() -> c_int) -> c_int {
    if active() {
        return unhooked(|| {
            let p = resolve(dirfd, path);
            if path_event(op, p.clone()) { return refuse(); }
            let mut f = fs();
            crash_point(&mut f, op, &p, None);
            raw()
        });
    }
    raw()
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    path_op("unlink", libc::AT_FDCWD, p, || libc::syscall(libc::SYS_unlink, p) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    path_op("rmdir", libc::AT_FDCWD, p, || libc::syscall(libc::SYS_rmdir, p) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    path_op("unlinkat", d, p, || libc::syscall(libc::SYS_unlinkat, d, p, fl) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    path_op("mkdir", libc::AT_FDCWD, p, || libc::syscall(libc::SYS_mkdir, p, m as c_uint) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    path_op("mkdir", d, p, || libc::syscall(libc::SYS_mkdirat, d, p, m as c_uint) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn truncate(p: *const c_char, len: off_t) -> c_int {
    path_op("truncate", libc::AT_FDCWD, p, || libc::syscall(libc::SYS_truncate, p, len) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn truncate64(p: *const c_char, len: off_t) -> c_int {
    path_op("truncate", libc::AT_FDCWD, p, || libc::syscall(libc::SYS_truncate, p, len) as c_int)
}
unsafe fn two_path(op: &'static str, d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, raw: impl FnOnce() -> c_int) -> c_int {
    if active() {
        return unhooked(|| {
            let (p, q) = (resolve(d1, a), resolve(d2, b));
            let bad = path_event(op, p);
            if path_event(op, q.clone()) || bad { return refuse(); }
            let mut f = fs();
            crash_point(&mut f, op, &q, None);
            raw()
        });
    }
    raw()
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    two_path("rename", libc::AT_FDCWD, a, libc::AT_FDCWD, b, || libc::syscall(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    two_path("rename", d1, a, d2, b, || libc::syscall(libc::SYS_renameat, d1, a, d2, b) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_uint) -> c_int {
    two_path("rename", d1, a, d2, b, || libc::syscall(libc::SYS_renameat2, d1, a, d2, b, fl) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    two_path("link", libc::AT_FDCWD, a, libc::AT_FDCWD, b, || libc::syscall(libc::SYS_link, a, b) as c_int)
}
#[no_mangle] pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    path_op("symlink", libc::AT_FDCWD, b, || libc::syscall(libc::SYS_symlink, a, b) as c_int)
}

// ---------------------------------------------------------------- sockets
/// Port of the last socket put into listening state.
pub static LISTEN_PORT: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, backlog: c_int) -> c_int {
    let r = libc::syscall(libc::SYS_listen, fd, backlog) as c_int;
    if r == 0 {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        if libc::syscall(libc::SYS_getsockname, fd, &mut a, &mut l) == 0 { LISTEN_PORT.store(u16::from_be(a.sin_port) as u64, SeqCst); }
    }
    r
}

/// A nap in real time: virtual time stands still.
pub fn real_nap_us(us: u64) {
    let ts = timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
    unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<timespec>()) };
}
