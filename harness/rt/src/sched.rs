//! Deterministic scheduler for real threads: exactly one registered thread runs at a time, and at basic
//! blocks (calls inserted by the compiler's coverage instrumentation) the running one may be switched out.
//! Blocking system calls of registered threads (futex, epoll_wait, sleeps) are emulated here, so a schedule
//! is a pure function of the seed.
#![allow(clippy::missing_safety_doc)]
use crate::interpose as ip;
use libc::{c_int, c_long, c_void};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst, Ordering::Relaxed};

/// System call without going through the overridden libc entry point.
#[inline(always)]
pub unsafe fn sys6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn gate_wait(g: &AtomicU32) {
    while g.swap(0, SeqCst) == 0 { unsafe { sys6(libc::SYS_futex, g.as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0) }; }
}
fn gate_open(g: &AtomicU32) {
    g.store(1, SeqCst);
    unsafe { sys6(libc::SYS_futex, g.as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0) };
}

const MAX: usize = 128;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Th { Free, Ready, Futex(usize, bool), Done }
struct State {
    th: [Th; MAX],
    frozen: [u32; MAX],
    timed_out: [bool; MAX],
    gen: [u64; MAX],
    n: usize,
    made: usize,
    cur: usize,
    order: u64,
    since: [u64; MAX],
    rng: u64,
    mean: u64,
    freeze: u32,
    switches: u64,
    points: u64,
    deadlock: bool,
}
struct Cell1(UnsafeCell<State>);
unsafe impl Sync for Cell1 {}
static S: Cell1 = Cell1(UnsafeCell::new(State {
    th: [Th::Free; MAX], frozen: [0; MAX], timed_out: [false; MAX], n: 0, made: 0, cur: 0, order: 0, since: [0; MAX], gen: [0; MAX], rng: 1, mean: 100, freeze: 0, switches: 0, points: 0, deadlock: false,
}));
#[allow(clippy::declare_interior_mutable_const)]
const GATE0: AtomicU32 = AtomicU32::new(0);
static GATES: [AtomicU32; MAX] = [GATE0; MAX];
static ON: AtomicBool = AtomicBool::new(false);
static BUDGET: AtomicI64 = AtomicI64::new(0);
static BLOCKED_REAL: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static HOLD: Cell<bool> = const { Cell::new(false) };
}
fn me() -> Option<usize> {
    if !ON.load(Relaxed) { return None; }
    let m = ME.with(|m| m.get());
    if m == usize::MAX { None } else { Some(m) }
}
fn rnd(s: &mut State, n: u64) -> u64 { ip::splitmix(&mut s.rng) % n.max(1) }

unsafe fn new_gap(s: &mut State) {
    // geometric around the mean, sometimes much shorter
    let m = if rnd(s, 4) == 0 { s.mean / 10 + 1 } else { s.mean };
    let g = 1 + rnd(s, 2 * m);
    BUDGET.store(g as i64, Relaxed);
}
/// Pick the next thread to run (the caller is registered and holds the token).
unsafe fn pick(s: &mut State) -> Option<usize> {
    let mut c = [0usize; MAX];
    let mut k = 0;
    for i in 0..s.n { if s.th[i] == Th::Ready { if s.frozen[i] == 0 { c[k] = i; k += 1; } else { s.frozen[i] -= 1; } } }
    if k == 0 {
        for i in 0..s.n { if s.th[i] == Th::Ready { s.frozen[i] = 0; c[k] = i; k += 1; } }
    }
    if k == 0 { return None; }
    let r = rnd(s, k as u64) as usize;
    Some(c[r])
}
unsafe fn switch_to(s: &mut State, next: usize, mine: usize, wait: bool) {
    s.switches += 1;
    new_gap(s);
    s.cur = next;
    if next == mine { return; }
    gate_open(&GATES[next]);
    if wait { gate_wait(&GATES[mine]); }
}
fn guarded<T>(f: impl FnOnce(&mut State) -> T) -> T {
    BUSY.with(|b| b.set(true));
    let r = f(unsafe { &mut *S.0.get() });
    BUSY.with(|b| b.set(false));
    r
}
/// A place where the running thread may be switched out.
#[inline(never)]
fn point(m: usize, may_freeze: bool) {
    guarded(|s| unsafe {
        if may_freeze && s.freeze > 0 && rnd(s, 100) < s.freeze as u64 { let e = rnd(s, 8); s.frozen[m] = 1 + rnd(s, 1 << e) as u32; }
        if let Some(n) = pick(s) { switch_to(s, n, m, true); }
    })
}
/// No preemption of the calling thread (it still gives way when it blocks).
pub fn hold(on: bool) { HOLD.with(|h| h.set(on)) }
/// Give way (a registered thread that has nothing to do).
pub fn give_way() { if let Some(m) = me() { point(m, false); } }

/// Block the calling registered thread until `wake` on the address; true: woken, false: timed out.
unsafe fn block(m: usize, addr: usize, timed: bool) -> bool {
    guarded(|s| {
        s.th[m] = Th::Futex(addr, timed);
        s.order += 1;
        s.since[m] = s.order;
        s.timed_out[m] = false;
        match pick(s) {
            Some(n) => switch_to(s, n, m, true),
            None => {
                // nobody can run: let the oldest timed wait run out
                let mut best: Option<usize> = None;
                for i in 0..s.n { if let Th::Futex(_, true) = s.th[i] { if best.map_or(true, |b| s.since[i] < s.since[b]) { best = Some(i); } } }
                match best {
                    Some(b) => { s.th[b] = Th::Ready; s.timed_out[b] = true; switch_to(s, b, m, true); }
                    None => {
                        s.deadlock = true;
                        let msg = b"DEADLOCK: no registered thread can run\n";
                        sys6(libc::SYS_write, 2, msg.as_ptr() as usize, msg.len(), 0, 0, 0);
                        DEADLOCK.store(true, SeqCst);
                        release_all(s);
                    }
                }
            }
        }
        !s.timed_out[m]
    })
}
pub static DEADLOCK: AtomicBool = AtomicBool::new(false);
/// Give up control: every thread goes on by itself.
unsafe fn release_all(s: &mut State) {
    ON.store(false, SeqCst);
    for i in 0..s.n { if s.th[i] != Th::Done && s.th[i] != Th::Free { gate_open(&GATES[i]); } }
}
unsafe fn wake(addr: usize, n: usize) -> usize {
    guarded(|s| {
        let mut k = 0;
        while k < n {
            let mut best: Option<usize> = None;
            for i in 0..s.n { if let Th::Futex(a, _) = s.th[i] { if a == addr && best.map_or(true, |b| s.since[i] < s.since[b]) { best = Some(i); } } }
            let Some(b) = best else { break };
            s.th[b] = Th::Ready;
            s.frozen[b] = 0;
            k += 1;
        }
        k
    })
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(m) = me() {
            let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { *libc::__errno_location() = libc::EAGAIN; return -1; }
                    if block(m, a, d != 0) || !ON.load(SeqCst) { return 0; }
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let k = wake(a, c);
                    if k == 0 { return sys6(n, a, b, c, d, e, f) as c_long; }
                    return k as c_long;
                }
                _ => {}
            }
        }
    }
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { *libc::__errno_location() = -r as c_int; return -1; }
    r as c_long
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let raw = |t: c_int| {
        let r = sys6(libc::SYS_epoll_pwait, ep as usize, ev as usize, max as usize, t as isize as usize, 0, 8);
        if r < 0 { *libc::__errno_location() = -r as c_int; -1 } else { r as c_int }
    };
    let Some(m) = me() else { return raw(timeout) };
    let mut idle = 0;
    loop {
        let r = raw(0);
        if r != 0 || timeout == 0 { return r; }
        if !ON.load(SeqCst) { return raw(timeout.min(50)); }
        if others_ready(m) { point(m, false); } else if timeout > 0 || idle > 3 { return raw(1); } else { idle += 1; }
    }
}
fn others_ready(m: usize) -> bool { guarded(|s| (0..s.n).any(|i| i != m && s.th[i] == Th::Ready)) }
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match me() { Some(m) => point(m, false), None => { sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0); } }
    0
}
unsafe fn nap(req: *const libc::timespec) -> c_int {
    match me() { Some(m) => { for _ in 0..4 { point(m, false); } 0 } None => { let r = sys6(libc::SYS_nanosleep, req as usize, 0, 0, 0, 0, 0); if r < 0 { *libc::__errno_location() = -r as c_int; -1 } else { 0 } } }
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, _rem: *mut libc::timespec) -> c_int { nap(req) }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(clk: c_int, fl: c_int, req: *const libc::timespec, _rem: *mut libc::timespec) -> c_int {
    if me().is_some() { return nap(req); }
    if fl & libc::TIMER_ABSTIME != 0 { return -sys6(libc::SYS_clock_nanosleep, clk as usize, fl as usize, req as usize, 0, 0, 0) as c_int; }
    nap(req);
    0
}
#[no_mangle] pub unsafe extern "C" fn usleep(us: libc::c_uint) -> c_int {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 };
    nap(&ts)
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot { f: Start, arg: *mut c_void, id: usize, seed: u64 }
extern "C" fn boot(b: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(b as *mut Boot) };
    let (f, arg, id, seed) = (b.f, b.arg, b.id, b.seed);
    drop(b);
    ip::seed_thread(seed);
    gate_wait(&GATES[id]);
    ME.with(|m| m.set(id));
    let r = f(arg);
    if me().is_some() {
        guarded(|s| unsafe {
            s.th[id] = Th::Done;
            ME.with(|m| m.set(usize::MAX));
            match pick(s) { Some(n) => switch_to(s, n, id, false), None => { release_all(s); } }
        });
    }
    ME.with(|m| m.set(usize::MAX));
    r
}
extern "C" { fn dlsym(h: *mut c_void, s: *const libc::c_char) -> *mut c_void; }
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let real: Create = std::mem::transmute(dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    if me().is_none() { return real(t, at, f, arg); }
    let (id, seed) = guarded(|s| {
        let id = match (0..s.n).find(|i| s.th[*i] == Th::Done) { Some(i) => i, None => { s.n += 1; s.n - 1 } };
        s.made += 1;
        if id >= MAX { unsafe { libc::abort() } }
        s.th[id] = Th::Ready;
        s.gen[id] += 1;
        s.frozen[id] = 0;
        GATES[id].store(0, SeqCst);
        (id, ip::splitmix(&mut s.rng))
    });
    let b = Box::into_raw(Box::new(Boot { f, arg, id, seed }));
    let r = real(t, at, boot, b as *mut c_void);
    if r != 0 { drop(Box::from_raw(b)); guarded(|s| s.th[id] = Th::Done); }
    r
}

#[derive(Clone, Copy, Debug)]
pub struct Plan { pub seed: u64, pub mean: u64, pub freeze: u32 }
/// From here on the calling thread and every thread it (transitively) creates are scheduled by `plan`.
pub fn start(plan: Plan) {
    guarded(|s| {
        *s = State { th: [Th::Free; MAX], frozen: [0; MAX], timed_out: [false; MAX], n: 1, made: 1, cur: 0, order: 0, since: [0; MAX], gen: [0; MAX], rng: plan.seed | 1, mean: plan.mean.max(1), freeze: plan.freeze, switches: 0, points: 0, deadlock: false };
        s.th[0] = Th::Ready;
        for g in &GATES { g.store(0, SeqCst); }
        unsafe { new_gap(s) };
    });
    DEADLOCK.store(false, SeqCst);
    ME.with(|m| m.set(0));
    ON.store(true, SeqCst);
}
pub fn set(mean: u64, freeze: u32) { guarded(|s| { s.mean = mean.max(1); s.freeze = freeze; BUDGET.store(1, Relaxed); }) }
/// The calling thread, as `ended` wants it.
pub fn myself() -> Option<(usize, u64)> { me().map(|m| guarded(|s| (m, s.gen[m]))) }
pub fn ended(t: (usize, u64)) -> bool { !ON.load(SeqCst) || guarded(|s| s.gen[t.0] != t.1 || s.th[t.0] == Th::Done) }
pub fn registered() -> bool { me().is_some() }
/// Threads run freely again. Returns (switches, threads).
pub fn stop() -> (u64, usize) {
    let r = guarded(|s| unsafe { let r = (s.switches, s.made); release_all(s); r });
    ME.with(|m| m.set(usize::MAX));
    r
}
/// Whether any registered thread but the caller can run.
pub fn alone() -> bool { me().map_or(true, |m| !others_ready(m)) }

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    if !ON.load(Relaxed) { return; }
    if BUDGET.load(Relaxed) > 0 { 
        // only the token holder and unregistered threads get here; the latter do not count
        if ME.with(|m| m.get()) != usize::MAX && !BUSY.with(|b| b.get()) { BUDGET.store(BUDGET.load(Relaxed) - 1, Relaxed); }
        return;
    }
    let m = ME.with(|m| m.get());
    if m == usize::MAX || BUSY.with(|b| b.get()) || HOLD.with(|h| h.get()) || ip::in_hook() { return; }
    point(m, true);
}
