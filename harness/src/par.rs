//! Parallel phases: client threads calling into one engine under the deterministic scheduler (`sched`),
//! while the runtime's own tasks (writers, timers) run on the case thread.
use crate::eng::{raw_call, Reply, Srv};
use crate::sched;
use crate::sim::{now_ms, sleep_ms};
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

struct Unpark(std::thread::Thread);
impl Wake for Unpark { fn wake(self: Arc<Self>) { self.0.unpark() } }

/// Drive a future on the calling client thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut cx = Context::from_waker(&w);
    let mut f = pin!(f);
    loop {
        match f.as_mut().poll(&mut cx) { Poll::Ready(v) => return v, Poll::Pending => std::thread::park() }
    }
}

/// Order of events: stamped before a call is made and after it has answered.
#[derive(Clone, Default)]
pub struct Clock(Arc<AtomicU64>);
impl Clock { pub fn tick(&self) -> u64 { self.0.fetch_add(1, SeqCst) + 1 } }

/// A client thread's connection.
#[derive(Clone)]
pub struct Cl { pub s: Srv, pub id: String }
impl Cl {
    pub fn new(s: &Srv, id: &str) -> Cl { Cl { s: s.clone(), id: id.to_string() } }
    pub fn raw(&self, op: u8, p: Vec<u8>) -> Reply { block_on(raw_call(self.s.eng.clone(), self.id.clone(), op, p)) }
}

pub type Job<T> = Box<dyn FnOnce() -> T + Send>;

/// Run the jobs in parallel until all have ended. Virtual time stands still while any thread can run,
/// except for the generated `jumps` (after so many rounds of the runtime: let so many ms pass).
pub async fn par<T: Send + 'static>(mean: u64, freeze: u32, jobs: Vec<Job<T>>, jumps: &[(u32, u64)]) -> Result<Vec<T>, String> {
    let n = jobs.len();
    let left = Arc::new(AtomicUsize::new(n));
    let ids: Arc<Mutex<Vec<(usize, u64)>>> = Arc::default();
    let out: Arc<Mutex<Vec<Option<std::thread::Result<T>>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let h = tokio::runtime::Handle::current();
    let mut ths = Vec::new();
    for (i, j) in jobs.into_iter().enumerate() {
        let (left, out, h, ids) = (left.clone(), out.clone(), h.clone(), ids.clone());
        ths.push(std::thread::Builder::new().name(format!("client{i}")).stack_size(1 << 20).spawn(move || {
            let _g = h.enter();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
            out.lock().unwrap_or_else(|e| e.into_inner())[i] = Some(r);
            if let Some(m) = sched::myself() { ids.lock().unwrap_or_else(|e| e.into_inner()).push(m); }
            left.fetch_sub(1, SeqCst);
        }).map_err(|e| e.to_string()).unwrap());
    }
    sched::set(mean, freeze);
    let (mut idle, mut rounds, mut nj) = (0u32, 0u32, 0usize);
    let t0 = now_ms();
    let mut stuck = false;
    while left.load(SeqCst) > 0 {
        tokio::task::yield_now().await;
        rounds += 1;
        if nj < jumps.len() && rounds >= jumps[nj].0 { sleep_ms(jumps[nj].1).await; nj += 1; rounds = 0; }
        if sched::alone() { idle += 1; } else { idle = 0; }
        if idle > 40 {
            idle = 0;
            if nj < jumps.len() { rounds = u32::MAX - 1; continue; }
            if now_ms() - t0 > 600_000 { stuck = true; break; }
            sleep_ms(if now_ms() - t0 < 2000 { 1 } else { 100 }).await;
        } else { sched::give_way(); }
    }
    sched::set(1_000_000_000, 0);
    if stuck || sched::DEADLOCK.load(SeqCst) {
        return Err(if stuck { "a client's request was never answered".into() } else { "deadlock in the server".into() });
    }
    // the threads have nothing left to do but to end
    let ids = std::mem::take(&mut *ids.lock().unwrap_or_else(|e| e.into_inner()));
    for _ in 0..100_000 { if ids.iter().all(|t| sched::ended(*t)) { break; } sched::give_way(); tokio::task::yield_now().await; }
    for t in ths { t.join().ok(); }
    let v = std::mem::take(&mut *out.lock().unwrap_or_else(|e| e.into_inner()));
    let mut r = Vec::new();
    for x in v {
        match x.expect("job result") {
            Ok(t) => r.push(t),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return Err(format!("a client's request panicked: {m}"));
            }
        }
    }
    Ok(r)
}

/// Register the case thread with the scheduler for the whole case.
pub fn world<T>(seed: u64, cx: &mut crate::runner::Cx, f: impl FnOnce(&mut crate::runner::Cx) -> T) -> T {
    sched::start(sched::Plan { seed, mean: 1_000_000_000, freeze: 0 });
    let r = f(cx);
    let (sw, th) = sched::stop();
    cx.add("thread-switches", sw);
    cx.add("threads", th as u64);
    r
}

/// How eagerly threads are switched: mean number of basic blocks between switches, chance (percent) that a
/// switched-out thread is left out for a while.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Sch { pub seed: u32, pub mean: u32, pub freeze: u32 }
pub fn sch() -> impl proptest::strategy::Strategy<Value = Sch> {
    use proptest::prelude::*;
    (any::<u32>(), prop_oneof![Just(3u32), Just(10), Just(40), Just(150), Just(600), Just(2500)], prop_oneof![Just(0u32), Just(20), Just(60)]).prop_map(|(seed, mean, freeze)| Sch { seed, mean, freeze })
}
