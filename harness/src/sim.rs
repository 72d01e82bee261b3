//! Deterministic server life: paused single-thread runtime whose clock drives the process clock.
use crate::interpose as ip;
use std::cell::Cell;
use std::future::Future;
use std::time::Duration;

thread_local! {
    static T0: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static BASE: Cell<u64> = const { Cell::new(0) };
}

fn sync() {
    if let Some(t0) = T0.with(|t| t.get()) {
        let el = tokio::time::Instant::now().saturating_duration_since(t0).as_nanos() as u64;
        ip::vt_set(BASE.with(|b| b.get()) + el);
    }
}

/// While the runtime parks, its clock is ahead of ours: no other thread may run until `sync`.
#[cfg(sched)]
fn hold(on: bool) { crate::sched::hold(on) }
#[cfg(not(sched))]
fn hold(_: bool) {}

pub struct Sim { pub vt: u64 }

impl Sim {
    /// Starts the virtual clock at zero. Call on a fresh thread.
    pub fn new() -> Sim { ip::vt_set(0); Sim { vt: 0 } }
    pub fn at(vt: u64) -> Sim { ip::vt_set(vt); Sim { vt } }

    /// One server life: everything spawned by `fut` dies when it ends.
    pub fn run<F: Future>(&mut self, fut: F) -> F::Output {
        ip::vt_set(self.vt);
        BASE.with(|b| b.set(self.vt));
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .start_paused(true)
            .on_thread_park(|| hold(true))
            .on_thread_unpark(|| { sync(); hold(false) })
            .build()
            .expect("runtime");
        let out = rt.block_on(async {
            T0.with(|t| t.set(Some(tokio::time::Instant::now())));
            sync();
            let r = fut.await;
            sync();
            T0.with(|t| t.set(None));
            r
        });
        self.vt = ip::vt_now();
        drop(rt);
        ip::vt_set(self.vt);
        out
    }
    /// Time that passes while no server runs.
    pub fn down(&mut self, ms: u64) { self.vt += ms * 1_000_000; ip::vt_set(self.vt); }
}

/// Let the server run for `ms` of virtual time, timer by timer.
pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await;
}
/// Jump: all timers in between fire late, at once (a stalled machine).
pub async fn jump_ms(ms: u64) {
    let d = Duration::from_millis(ms);
    ip::vt_set(ip::vt_now() + d.as_nanos() as u64);
    tokio::time::advance(d).await;
    sync();
    settle().await;
}
/// Let everything that is runnable run (no timers longer than 1 ms).
pub async fn settle() {
    for _ in 0..4 { tokio::task::yield_now().await; }
    tokio::time::sleep(Duration::from_millis(1)).await;
}
pub fn now_ms() -> u64 { ip::vt_now() / 1_000_000 }
