//! Runs async code of the client on the instrumented runtime: one thread, virtual time,
//! scheduling and select! order decided by the explorer.
use crate::mc;
use std::future::Future;
use std::time::Duration;
use tokio::verif::{self, Kind};

#[derive(Clone, Copy)]
pub struct RtOpts {
    /// task order is a deviation choice
    pub sched: bool,
    /// select! branch order is a deviation choice
    pub select: bool,
    /// whether the sender of a message goes on before others see it is a deviation choice
    pub preempt: bool,
    pub poll_limit: u64,
}
impl Default for RtOpts {
    fn default() -> Self {
        RtOpts { sched: false, select: false, preempt: false, poll_limit: 200_000 }
    }
}

thread_local! {
    static ON: std::cell::Cell<(bool, bool, bool)> = const { std::cell::Cell::new((false, false, false)) };
}
fn choose(k: Kind, n: u32) -> u32 {
    let (sched, select, preempt) = ON.with(|c| c.get());
    let on = match k {
        Kind::Task => sched,
        Kind::Select => select,
        Kind::Preempt => preempt,
    };
    if on {
        mc::current().deviate(n as usize) as u32
    } else {
        0
    }
}

/// Changes, in the middle of an execution, which decisions are explored from now on.
pub fn decide(o: RtOpts) {
    ON.with(|c| c.set((o.sched, o.select, o.preempt)));
}

/// What happens to file operations still queued when the future finishes.
#[derive(Clone, Copy, PartialEq)]
pub enum Leftover {
    Run,
    Drop,
}

pub fn run<T>(o: RtOpts, f: impl Future<Output = T>) -> T {
    run_with(o, Leftover::Run, f)
}
pub fn run_with<T>(o: RtOpts, left: Leftover, f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    ON.with(|c| c.set((o.sched, o.select, o.preempt)));
    verif::set_chooser(Some(choose));
    verif::set_deferred_blocking(true);
    verif::reset_polls(o.poll_limit);
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            verif::set_chooser(None);
            verif::reset_polls(u64::MAX);
            verif::set_deferred_blocking(false);
        }
    }
    let g = Guard;
    let r = rt.block_on(f);
    match left {
        Leftover::Run => {
            let _e = rt.enter();
            verif::drain_blocking();
        }
        Leftover::Drop => verif::drop_blocking(),
    }
    drop(rt);
    drop(g);
    r
}

/// Lets every task run until nothing can happen without time passing (advances the clock by 1 ms).
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}
/// Lets virtual time pass.
pub async fn pass(d: Duration) {
    tokio::time::sleep(d).await;
}
/// The value of a future that must be ready once everything settled.
pub async fn within<T>(d: Duration, f: impl Future<Output = T>) -> Option<T> {
    tokio::time::timeout(d, f).await.ok()
}
