//! The explorer: exhaustive enumeration of every choice a scenario makes.
//!
//! A scenario is a closure that calls `pick` (a free choice: every alternative is explored) and
//! `deviate` (a departure from the default: explored up to a bound on the number of departures).
//! Executions are re-run from the start with a prefix of recorded choices (stateless search);
//! `visit` prunes executions that reach a state already explored with at least as much depth left.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
/// Result of one execution: Ok(hash of what was observed).
pub type R = Result<u64, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($m:tt)*) => { if !$c { return Err($crate::mc::Fail { key: $key.to_string(), msg: format!($($m)*) }); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $key:expr, $($m:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err($crate::mc::Fail { key: $key.to_string(), msg: format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) }); } }};
}

pub fn h<T: Hash>(t: T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Step {
    n: u32,
    c: u32,
}

struct State {
    prefix: Vec<Step>,
    trace: Vec<Step>,
    dev_used: u32,
    dev_bound: u32,
    notes: Vec<String>,
    want_notes: bool,
    pruned: bool,
    diverged: Option<String>,
}

/// Handle to the choices of the current execution.
#[derive(Clone)]
pub struct Ch {
    st: Arc<Mutex<State>>,
    visited: Arc<Visited>,
}

struct Visited {
    map: Vec<Mutex<HashMap<u64, u32>>>,
    states: AtomicU64,
    transitions: AtomicU64,
    revisits: AtomicU64,
}
impl Visited {
    fn new() -> Self {
        Self { map: (0..64).map(|_| Mutex::new(HashMap::new())).collect(), states: AtomicU64::new(0), transitions: AtomicU64::new(0), revisits: AtomicU64::new(0) }
    }
}

impl Ch {
    fn choose(&self, n: usize, dev: bool) -> usize {
        assert!(n > 0, "choice with no alternatives");
        if n == 1 {
            return 0;
        }
        let mut s = self.st.lock().unwrap();
        let pos = s.trace.len();
        if dev && s.dev_used >= s.dev_bound {
            if pos < s.prefix.len() {
                // forced default: not recorded, so nothing to compare
            }
            return 0;
        }
        let c = if pos < s.prefix.len() {
            let p = s.prefix[pos];
            if p.n != n as u32 {
                let m = format!("choice {pos}: recorded {} alternatives, replay has {n}", p.n);
                s.diverged.get_or_insert(m);
                p.c.min(n as u32 - 1)
            } else {
                p.c
            }
        } else {
            0
        };
        s.trace.push(Step { n: n as u32, c });
        if dev && c > 0 {
            s.dev_used += 1;
        }
        c as usize
    }
    /// A free choice among n alternatives.
    pub fn pick(&self, n: usize) -> usize {
        self.choose(n, false)
    }
    /// A choice whose alternatives other than 0 cost one deviation.
    pub fn deviate(&self, n: usize) -> usize {
        self.choose(n, true)
    }
    pub fn note(&self, s: impl FnOnce() -> String) {
        let mut st = self.st.lock().unwrap();
        if st.want_notes {
            let t = s();
            st.notes.push(t);
        }
    }
    /// Records that the execution reached a state (hash of everything the future depends on, with
    /// `remaining` steps of depth left). Returns false if the rest was already explored.
    pub fn visit(&self, state: u64, remaining: u32) -> bool {
        let mut s = self.st.lock().unwrap();
        if s.trace.len() < s.prefix.len() {
            return true; // replaying
        }
        let key = h((state, s.dev_bound - s.dev_used));
        let v = &self.visited;
        v.transitions.fetch_add(1, Ordering::Relaxed);
        let mut m = v.map[(key % 64) as usize].lock().unwrap();
        match m.get_mut(&key) {
            Some(r) if *r > remaining => {
                v.revisits.fetch_add(1, Ordering::Relaxed);
                drop(m);
                s.pruned = true;
                false
            }
            Some(r) => {
                *r = remaining + 1;
                true
            }
            None => {
                m.insert(key, remaining + 1);
                v.states.fetch_add(1, Ordering::Relaxed);
                true
            }
        }
    }
}

thread_local! {
    static CUR: RefCell<Option<Ch>> = const { RefCell::new(None) };
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn set_current(c: Option<Ch>) {
    CUR.with(|x| *x.borrow_mut() = c)
}
pub fn current() -> Ch {
    CUR.with(|x| x.borrow().clone()).expect("no current execution")
}
/// Takes the panics recorded on this thread since the last call.
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn panic_count() -> usize {
    PANICS.with(|p| p.borrow().len())
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        let _ = PANICS.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.push(format!("{msg} @ {loc}"));
            }
        });
    }));
}
/// Turns the first recorded panic of this thread into a failure.
pub fn no_panic() -> Result<(), Fail> {
    let p = take_panics();
    match p.into_iter().next() {
        None => Ok(()),
        Some(p) => Err(panic_fail(&p)),
    }
}
fn panic_fail(p: &str) -> Fail {
    let mut k: String = p.split(" @ ").next().unwrap_or("").chars().take(70).collect();
    let file = p.rsplit(" @ ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    k.retain(|c| !c.is_ascii_digit());
    let kind = if p.contains("VERIF-LIVELOCK") { "livelock" } else { "panic" };
    Fail { key: format!("{kind}: {k} in {file}"), msg: format!("the code under test crashed: {p}") }
}

#[derive(Clone, Serialize, Deserialize, Debug)]
struct Replay {
    property: String,
    scenario: String,
    choices: Vec<Step>,
    key: String,
    msg: String,
    log: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    pub property: String,
    pub status: String,
    #[serde(default)]
    pub key: String,
    pub what: String,
}

#[derive(Default)]
pub struct Totals {
    pub executions: u64,
    pub choice_points: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub distinct: u64,
    pub pruned: u64,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Duration,
    pub totals: Totals,
    pub per: Vec<serde_json::Value>,
    pub samples: Vec<serde_json::Value>,
    pub exhaustive: bool,
    pub assumptions: Vec<String>,
    pub notes: BTreeMap<String, serde_json::Value>,
    known: Vec<Known>,
    known_hit: BTreeMap<String, (u64, String)>,
    violations: Vec<(Replay, std::path::PathBuf)>,
    replay: Option<Replay>,
    only: Option<String>,
    workers: usize,
}

pub struct Opts {
    pub dev: u32,
    /// run each execution on a fresh OS thread (isolates thread-local state)
    pub fresh: bool,
    /// per-scenario cap on executions (0: none)
    pub cap: u64,
    /// panics recorded on the execution's thread are failures
    pub panics_fail: bool,
    pub hang_secs: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { dev: 0, fresh: true, cap: 0, panics_fail: true, hang_secs: 60 }
    }
}
pub fn opts() -> Opts {
    Opts::default()
}
impl Opts {
    pub fn dev(mut self, d: u32) -> Self {
        self.dev = d;
        self
    }
    pub fn cap(mut self, c: u64) -> Self {
        self.cap = c;
        self
    }
    pub fn fresh(mut self, f: bool) -> Self {
        self.fresh = f;
        self
    }
}

struct One {
    res: Result<u64, Fail>,
    st: State,
}

fn run_one(f: &Arc<dyn Fn(&Ch) -> R + Send + Sync>, prefix: Vec<Step>, o: &Opts, visited: &Arc<Visited>, notes: bool) -> One {
    let ch = Ch {
        st: Arc::new(Mutex::new(State { prefix, trace: vec![], dev_used: 0, dev_bound: o.dev, notes: vec![], want_notes: notes, pruned: false, diverged: None })),
        visited: visited.clone(),
    };
    let panics_fail = o.panics_fail;
    let body = {
        let f = f.clone();
        let ch = ch.clone();
        move || -> R {
            set_current(Some(ch.clone()));
            take_panics();
            crate::sys::begin_execution();
            let r = catch_unwind(AssertUnwindSafe(|| f(&ch)));
            crate::sys::end_execution();
            set_current(None);
            let p = take_panics();
            match r {
                Ok(Ok(v)) => {
                    if panics_fail {
                        if let Some(p) = p.first() {
                            return Err(panic_fail(p));
                        }
                    }
                    Ok(v)
                }
                Ok(Err(e)) => {
                    // a crash explains more than its consequence
                    if panics_fail {
                        if let Some(p) = p.first() {
                            let mut pf = panic_fail(p);
                            pf.msg = format!("{}; observed: {}", pf.msg, e.msg);
                            return Err(pf);
                        }
                    }
                    Err(e)
                }
                Err(_) => Err(panic_fail(p.first().map(|s| s.as_str()).unwrap_or("unknown panic @ ?"))),
            }
        }
    };
    let res = if o.fresh {
        let j = std::thread::Builder::new().stack_size(1 << 20).spawn(body).expect("spawn");
        j.join().unwrap_or_else(|_| fail("engine", "execution thread died"))
    } else {
        body()
    };
    let mut g = ch.st.lock().unwrap();
    let st = std::mem::replace(&mut *g, State { prefix: vec![], trace: vec![], dev_used: 0, dev_bound: 0, notes: vec![], want_notes: false, pruned: false, diverged: None });
    One { res, st }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// q in the quick tier, t in the thorough tier
    pub fn by<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// Explores every execution of `f`.
    pub fn explore(&mut self, name: &str, o: Opts, f: impl Fn(&Ch) -> R + Send + Sync + 'static) {
        if let Some(only) = &self.only {
            if !name.contains(only.as_str()) {
                return;
            }
        }
        let f: Arc<dyn Fn(&Ch) -> R + Send + Sync> = Arc::new(f);
        let visited = Arc::new(Visited::new());
        if let Some(rp) = self.replay.clone() {
            if rp.scenario == name {
                let one = run_one(&f, rp.choices.clone(), &o, &visited, true);
                for n in &one.st.notes {
                    println!("  {n}");
                }
                match one.res {
                    Err(e) => {
                        println!("replay: {} -- {}", e.key, e.msg);
                        self.violations.push((rp, "replayed".into()));
                    }
                    Ok(_) => println!("replay: no violation"),
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return; // one violation decides
        }
        let t0 = Instant::now();
        let stack: Mutex<(Vec<Vec<Step>>, usize)> = Mutex::new((vec![vec![]], 0));
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let execs = AtomicU64::new(0);
        let points = AtomicU64::new(0);
        let prunes = AtomicU64::new(0);
        let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
        let fails: Mutex<Vec<(Fail, Vec<Step>)>> = Mutex::new(vec![]);
        let known_hit: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
        let flaky = AtomicU64::new(0);
        let deadline = self.start + self.deadline;
        let known: Vec<(String, String)> = self.known.iter().filter(|k| k.property == self.property && k.status == "open").map(|k| (k.key.clone(), k.what.clone())).collect();
        let beats: Vec<AtomicU64> = (0..self.workers).map(|_| AtomicU64::new(0)).collect();
        let current_prefix: Vec<Mutex<Vec<Step>>> = (0..self.workers).map(|_| Mutex::new(vec![])).collect();
        let done = AtomicBool::new(false);
        let (prop, nm) = (self.property.clone(), name.to_string());
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..self.workers {
                let (stack, stop, capped, execs, points, prunes, outcomes, samples, fails, known_hit, flaky, known, beats, current_prefix, f, o, visited) = (
                    &stack, &stop, &capped, &execs, &points, &prunes, &outcomes, &samples, &fails, &known_hit, &flaky, &known, &beats, &current_prefix, &f, &o, &visited,
                );
                hs.push(s.spawn(move || {
                    let mut local: Vec<Vec<Step>> = vec![];
                    let mut local_out: HashSet<u64> = HashSet::new();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let job = match local.pop() {
                            Some(j) => {
                                // share work when others may be idle
                                if local.len() > 1 {
                                    let mut g = stack.lock().unwrap();
                                    if g.0.is_empty() {
                                        let half = local.len() / 2;
                                        g.0.extend(local.drain(..half));
                                        g.1 += 0;
                                    }
                                }
                                Some(j)
                            }
                            None => {
                                let mut g = stack.lock().unwrap();
                                match g.0.pop() {
                                    Some(j) => {
                                        g.1 += 1;
                                        Some(j)
                                    }
                                    None => {
                                        if g.1 == 0 {
                                            None
                                        } else {
                                            drop(g);
                                            std::thread::sleep(Duration::from_micros(200));
                                            continue;
                                        }
                                    }
                                }
                            }
                        };
                        let Some(prefix) = job else { break };
                        let plen = prefix.len();
                        *current_prefix[w].lock().unwrap() = prefix.clone();
                        beats[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let n = execs.fetch_add(1, Ordering::Relaxed);
                        let want = n < 2 || n == 137;
                        let one = run_one(f, prefix, o, visited, want);
                        beats[w].store(0, Ordering::Relaxed);
                        if let Some(d) = one.st.diverged {
                            // the same prefix must give the same alternatives
                            fails.lock().unwrap().push((Fail { key: "engine-divergence".into(), msg: d }, one.st.trace.clone()));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        points.fetch_add((one.st.trace.len() - plen.min(one.st.trace.len())) as u64, Ordering::Relaxed);
                        if one.st.pruned {
                            prunes.fetch_add(1, Ordering::Relaxed);
                        }
                        match &one.res {
                            Ok(v) => {
                                local_out.insert(*v);
                                if want {
                                    samples.lock().unwrap().push(serde_json::json!({"scenario": nm_ref(name), "choices": one.st.trace.iter().map(|s| s.c).collect::<Vec<_>>(), "steps": one.st.notes.iter().take(14).cloned().collect::<Vec<_>>() }));
                                }
                            }
                            Err(e) => {
                                if let Some((_, what)) = known.iter().find(|(k, _)| *k == e.key) {
                                    let mut g = known_hit.lock().unwrap();
                                    let en = g.entry(e.key.clone()).or_insert((0, what.clone()));
                                    en.0 += 1;
                                } else {
                                    // replay twice: the same choices must fail the same way
                                    let mut same = 0;
                                    for _ in 0..2 {
                                        let again = run_one(f, one.st.trace.clone(), o, &Arc::new(Visited::new()), false);
                                        if matches!(&again.res, Err(x) if x.key == e.key) {
                                            same += 1;
                                        }
                                    }
                                    if same == 2 {
                                        fails.lock().unwrap().push((e.clone(), one.st.trace.clone()));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    } else {
                                        flaky.fetch_add(1, Ordering::Relaxed);
                                        eprintln!("note: failure not reproduced ({same}/2): {} -- {}", e.key, e.msg);
                                    }
                                }
                            }
                        }
                        // alternatives, deepest explored first
                        let tr = &one.st.trace;
                        for i in plen..tr.len() {
                            for alt in (1..tr[i].n).rev() {
                                let mut p = tr[..i].to_vec();
                                p.push(Step { n: tr[i].n, c: alt });
                                local.push(p);
                            }
                        }
                        if local.is_empty() {
                            stack.lock().unwrap().1 -= 1;
                        }
                        if o.cap > 0 && execs.load(Ordering::Relaxed) >= o.cap || Instant::now() > deadline {
                            if !local.is_empty() || !stack.lock().unwrap().0.is_empty() {
                                capped.store(true, Ordering::Relaxed);
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    outcomes.lock().unwrap().extend(local_out);
                }));
            }
            // watchdog: a single execution that never returns
            let (beats, done, current_prefix) = (&beats, &done, &current_prefix);
            let hang = o.hang_secs;
            let (prop, nm) = (prop.clone(), nm.clone());
            let wd = s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    for (w, b) in beats.iter().enumerate() {
                        let v = b.load(Ordering::Relaxed);
                        if v != 0 && now.saturating_sub(v) > hang * 1000 {
                            let r = Replay { property: prop.clone(), scenario: nm.clone(), choices: current_prefix[w].lock().unwrap().clone(), key: "hang".into(), msg: format!("an execution did not finish within {hang} s"), log: vec![] };
                            let p = write_replay(&r);
                            println!("hang: scenario {nm}: an execution did not finish within {hang} s");
                            println!("VIOLATION property={} replay={}", prop, p.display());
                            std::process::exit(1);
                        }
                    }
                }
            });
            for hnd in hs {
                let _ = hnd.join();
            }
            done.store(true, Ordering::Relaxed);
            let _ = wd.join();
        });
        let ex = execs.load(Ordering::Relaxed);
        let cap_hit = capped.load(Ordering::Relaxed);
        let out = outcomes.into_inner().unwrap();
        let st = visited.states.load(Ordering::Relaxed);
        let tn = visited.transitions.load(Ordering::Relaxed);
        self.per.push(serde_json::json!({
            "scenario": name, "executions": ex, "choice_points": points.load(Ordering::Relaxed), "distinct_states": st, "state_visits": tn,
            "distinct_outcomes": out.len(), "deviation_bound": o.dev, "pruned_on_known_state": prunes.load(Ordering::Relaxed), "capped": cap_hit, "unreproduced_failures": flaky.load(Ordering::Relaxed), "wall_ms": t0.elapsed().as_millis() as u64}));
        if std::env::var_os("MC_V").is_some() {
            eprintln!("{}", self.per.last().unwrap());
        }
        self.totals.executions += ex;
        self.totals.choice_points += points.load(Ordering::Relaxed);
        self.totals.states += if st > 0 { st } else { out.len() as u64 };
        self.totals.transitions += if tn > 0 { tn } else { points.load(Ordering::Relaxed) + ex };
        self.totals.pruned += prunes.load(Ordering::Relaxed);
        self.totals.distinct += out.len() as u64;
        if cap_hit {
            self.exhaustive = false;
        }
        let mut sm = samples.into_inner().unwrap();
        if self.samples.len() < 12 {
            sm.truncate(2);
            self.samples.extend(sm);
        }
        for (k, (n, w)) in known_hit.into_inner().unwrap() {
            let e = self.known_hit.entry(k).or_insert((0, w));
            e.0 += n;
        }
        for (e, tr) in fails.into_inner().unwrap().into_iter().take(1) {
            if e.key.starts_with("engine") {
                eprintln!("engine error in {name}: {} {}", e.key, e.msg);
                std::process::exit(3);
            }
            let one = run_one(&f, tr.clone(), &o, &Arc::new(Visited::new()), true);
            let r = Replay { property: self.property.clone(), scenario: name.into(), choices: tr, key: e.key.clone(), msg: e.msg.clone(), log: one.st.notes };
            let p = write_replay(&r);
            println!("scenario {name}: {}: {}", e.key, e.msg);
            for l in r.log.iter().take(60) {
                println!("  {l}");
            }
            self.violations.push((r, p));
        }
    }

    /// Evaluates `f` on every case 0..n (a finite space, enumerated completely).
    pub fn each(&mut self, name: &str, n: u64, f: impl Fn(u64) -> R + Send + Sync + 'static) {
        // two-level choice so that the stack stays small
        let chunk = ((n as f64).sqrt().ceil() as u64).clamp(1, 4096);
        let chunks = n.div_ceil(chunk);
        if n == 0 {
            return;
        }
        let f2 = Arc::new(f);
        let o = opts().fresh(false);
        let before = (self.totals.executions, self.totals.states, self.totals.transitions);
        let distinct = Arc::new(Mutex::new(HashSet::new()));
        let d2 = distinct.clone();
        let evals = Arc::new(AtomicU64::new(0));
        let e2 = evals.clone();
        let single = self.replay.is_some();
        self.explore(name, o, move |ch| {
            let c = ch.pick(chunks as usize) as u64;
            let lo = c * chunk;
            let hi = ((c + 1) * chunk).min(n);
            let mut acc = 0u64;
            let mut local = HashSet::new();
            for i in lo..hi {
                if single {
                    ch.note(|| format!("case {i}"));
                }
                let r = f2(i);
                e2.fetch_add(1, Ordering::Relaxed);
                match r {
                    Ok(v) => {
                        local.insert(v);
                        acc = acc.rotate_left(5) ^ v;
                    }
                    Err(mut e) => {
                        e.msg = format!("case {i}: {}", e.msg);
                        return Err(e);
                    }
                }
                no_panic()?;
            }
            ch.note(|| format!("cases {lo}..{hi}"));
            d2.lock().unwrap().extend(local);
            Ok(acc)
        });
        let ev = evals.load(Ordering::Relaxed);
        if self.replay.is_none() && ev > 0 {
            let ds = distinct.lock().unwrap().len() as u64;
            self.totals.executions = before.0 + ev;
            self.totals.states = before.1 + ds;
            self.totals.transitions = before.2 + ev;
            if let Some(p) = self.per.last_mut() {
                p["cases"] = ev.into();
                p["distinct_outcomes"] = ds.into();
            }
        }
    }
}

fn nm_ref(s: &str) -> String {
    s.to_string()
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(|s| s.into()).unwrap_or_else(|| std::path::PathBuf::from("/verif"))
}

fn write_replay(r: &Replay) -> std::path::PathBuf {
    let dir = root().join("evidence/replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", r.property));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(r).unwrap());
    p
}

pub type Check = fn(&mut Ctx);

pub fn main(checks: &[(&str, Check)]) {
    install_panic_hook();
    crate::sys::init();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> quick|thorough|replay [file]", args[0]);
        std::process::exit(2);
    }
    let id = args[1].clone();
    let Some((_, check)) = checks.iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let replay: Option<Replay> = if args[2] == "replay" {
        let p = args.get(3).cloned().unwrap_or_else(|| root().join(format!("evidence/replays/{id}.json")).display().to_string());
        Some(serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json"))
    } else {
        None
    };
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let known: Vec<Known> = std::fs::read_to_string(root().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with('{'))
        .map(|l| serde_json::from_str(l).expect("known_findings.txt"))
        .collect();
    let secs = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 100 } else { 1500 });
    let mut ctx = Ctx {
        property: id.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: Instant::now(),
        deadline: Duration::from_secs(secs),
        totals: Totals::default(),
        per: vec![],
        samples: vec![],
        exhaustive: true,
        assumptions: vec![],
        notes: BTreeMap::new(),
        known,
        known_hit: BTreeMap::new(),
        violations: vec![],
        replay,
        only: std::env::var("MC_ONLY").ok(),
        workers: std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8)),
    };
    check(&mut ctx);
    let is_replay = ctx.replay.is_some();
    if !is_replay {
        let mut cov = serde_json::json!({
            "states": ctx.totals.states,
            "transitions": ctx.totals.transitions,
            "traces_validated_against_impl": ctx.totals.executions,
            "choice_points": ctx.totals.choice_points,
            "executions_pruned_on_known_state": ctx.totals.pruned,
            "distinct_outcomes": ctx.totals.distinct,
            "exhaustive": ctx.exhaustive && ctx.violations.is_empty(),
            "scenarios": ctx.per,
            "samples": ctx.samples,
            "how": "every execution runs the real code built from /repo's working tree; states are distinct observed states (or outcomes) of those executions, transitions the steps between them, traces_validated_against_impl the executions of the implementation compared with the oracle",
        });
        for (k, v) in &ctx.notes {
            cov[k] = v.clone();
        }
        let ev = serde_json::json!({
            "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": ctx.seed, "level": "model_checking",
            "coverage": cov, "assumptions": ctx.assumptions, "wall_s": ctx.start.elapsed().as_secs_f64(), "violations": ctx.violations.len(),
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    crate::sys::cleanup();
    for (k, (n, w)) in &ctx.known_hit {
        println!("KNOWN-FINDING: property={id} {w} [{k}; {n} executions]");
    }
    println!("{id}: {} executions, {} states, {} transitions, exhaustive={}, {:.1}s", ctx.totals.executions, ctx.totals.states, ctx.totals.transitions, ctx.exhaustive, ctx.start.elapsed().as_secs_f64());
    if let Some((_, p)) = ctx.violations.first() {
        println!("VIOLATION property={id} replay={}", p.display());
        std::process::exit(1);
    }
    std::process::exit(0);
}
