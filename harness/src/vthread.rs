//! Real OS threads run one at a time under the explorer's control. The switching points are the
//! acquisitions of the instrumented mutexes (`verif_sync`): between two of them a thread touches
//! nothing shared, so every interleaving is equivalent to one that switches only there.
use crate::mc::{self, Ch, Fail};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy)]
enum Is {
    Ready,
    /// waits for the mutex that the probe sees
    Blocked(Probe),
    Done,
}
/// Whether a mutex is free; valid for as long as its thread waits for it.
#[derive(Clone, Copy)]
struct Probe(&'static dyn Fn() -> bool);
// SAFETY: it tries to lock a mutex, which any thread may
unsafe impl Send for Probe {}
unsafe impl Sync for Probe {}
impl std::fmt::Debug for Is {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Is::Ready => "Ready",
            Is::Blocked(_) => "Blocked",
            Is::Done => "Done",
        })
    }
}
struct St {
    current: usize,
    status: Vec<Is>,
    abort: bool,
    fail: Option<Fail>,
    switches: u64,
}
struct Sched {
    st: Mutex<St>,
    cv: Condvar,
    ch: Ch,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
struct Aborted;

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}
impl Sched {
    fn wait_turn(&self, i: usize) {
        let mut s = self.st.lock().unwrap();
        while s.current != i && !s.abort {
            s = self.cv.wait(s).unwrap();
        }
        if s.abort {
            drop(s);
            std::panic::resume_unwind(Box::new(Aborted));
        }
    }
    fn others(&self, s: &St, i: usize) -> Vec<usize> {
        (0..s.status.len()).filter(|j| *j != i && match s.status[*j] {
            Is::Ready => true,
            // everybody else stands still, so nobody takes it in between
            Is::Blocked(p) => (p.0)(),
            Is::Done => false,
        }).collect()
    }
    /// Lets somebody else run because `i` cannot.
    fn give_up(&self, i: usize) {
        let mut s = self.st.lock().unwrap();
        if s.abort {
            return;
        }
        let o = self.others(&s, i);
        if o.is_empty() {
            if s.status.iter().any(|x| matches!(x, Is::Blocked(_))) {
                let msg = format!("no thread can run: {:?}", s.status);
                s.fail.get_or_insert(Fail { key: "deadlock".into(), msg });
                s.abort = true;
            } else {
                s.current = usize::MAX;
            }
        } else {
            s.current = o[self.ch.pick(o.len())];
            s.switches += 1;
        }
        self.cv.notify_all();
    }
}
/// A switching point: the current thread may be preempted (costs a deviation).
pub fn point() {
    let Some((sc, i)) = me() else { return };
    {
        let mut s = sc.st.lock().unwrap();
        if s.abort {
            return;
        }
        let o = sc.others(&s, i);
        if o.is_empty() {
            return;
        }
        let c = sc.ch.deviate(1 + o.len());
        if c == 0 {
            return;
        }
        s.current = o[c - 1];
        s.switches += 1;
        sc.cv.notify_all();
    }
    sc.wait_turn(i);
}
fn before_lock(_: usize, free: &dyn Fn() -> bool) {
    let Some((sc, i)) = me() else { return };
    if std::thread::panicking() {
        return;
    }
    point();
    // SAFETY: only looked at while this thread is blocked below
    let probe = Probe(unsafe { std::mem::transmute::<&dyn Fn() -> bool, &'static dyn Fn() -> bool>(free) });
    loop {
        {
            let mut s = sc.st.lock().unwrap();
            if s.abort {
                drop(s);
                std::panic::resume_unwind(Box::new(Aborted));
            }
            if free() {
                s.status[i] = Is::Ready;
                return;
            }
            s.status[i] = Is::Blocked(probe);
        }
        sc.give_up(i);
        sc.wait_turn(i);
    }
}
/// Runs the threads to their end under every schedule within the explorer's deviation bound.
pub fn run(ch: &Ch, threads: Vec<Box<dyn FnOnce() + Send>>) -> Result<u64, Fail> {
    let _ = nargun::verif::sync::BEFORE_LOCK.set(before_lock);
    let n = threads.len();
    let sc = Arc::new(Sched {
        st: Mutex::new(St { current: ch.pick(n), status: vec![Is::Ready; n], abort: false, fail: None, switches: 0 }),
        cv: Condvar::new(),
        ch: ch.clone(),
    });
    std::thread::scope(|s| {
        for (i, f) in threads.into_iter().enumerate() {
            let sc = sc.clone();
            std::thread::Builder::new()
                .stack_size(1 << 19)
                .spawn_scoped(s, move || {
                    ME.with(|m| *m.borrow_mut() = Some((sc.clone(), i)));
                    mc::take_panics();
                    crate::sys::begin_execution();
                    crate::sys::seed(100 + i as u64);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        sc.wait_turn(i);
                        f()
                    }));
                    crate::sys::end_execution();
                    if let Err(e) = r {
                        if !e.is::<Aborted>() {
                            let p = mc::no_panic().err().unwrap_or(Fail { key: "panic".into(), msg: "a thread panicked".into() });
                            sc.st.lock().unwrap().fail.get_or_insert(p);
                        }
                    }
                    sc.st.lock().unwrap().status[i] = Is::Done;
                    sc.give_up(i);
                    ME.with(|m| *m.borrow_mut() = None);
                })
                .expect("spawn");
        }
    });
    let mut s = sc.st.lock().unwrap();
    match s.fail.take() {
        Some(f) => Err(f),
        None => Ok(s.switches),
    }
}
