//! Exhaustive enumeration of executions.
//!
//! A *case* is a driver plus options. Its executions form a tree: the root is the
//! execution of the empty plan; the children of an execution are obtained by
//! changing one decision after its last deviation to another alternative. Every
//! execution with at most `total` deviations (and at most `budget[c]` of class
//! `c`) is run exactly once, fewest deviations first; `Free` decisions cost
//! nothing, i.e. they are enumerated completely.

use crate::{run_execution, Class, Exec, Opts, Plan, HASH_SEED, NCLASS};
use corosensei::stack::DefaultStack;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type DriverFut = Pin<Box<dyn Future<Output = Result<String, String>>>>;
pub type Driver = Arc<dyn Fn() -> DriverFut + Send + Sync>;

#[derive(Copy, Clone, Debug)]
pub struct Bounds {
    pub budget: [u32; NCLASS],
    pub total: u32,
}

impl Bounds {
    pub fn none() -> Self {
        Bounds { budget: [0; NCLASS], total: 0 }
    }
    pub fn sched(n: u32) -> Self {
        Bounds { budget: [n, 0, 0], total: n }
    }
    pub fn with_env(mut self, n: u32) -> Self {
        self.budget[1] = n;
        self.total = self.total.max(n);
        self
    }
    pub fn with_fault(mut self, n: u32) -> Self {
        self.budget[2] = n;
        self.total += n;
        self
    }
    pub fn total(mut self, n: u32) -> Self {
        self.total = n;
        self
    }
}

#[derive(Clone)]
pub struct Case {
    pub name: String,
    pub driver: Driver,
    pub opts: Opts,
    pub bounds: Bounds,
    /// Panics of tasks other than the driver are part of the case.
    pub allow_panics: bool,
}

struct Node {
    case: usize,
    plan: Plan,
    /// (number of alternatives, class) of every decision of the execution
    decs: Vec<(u16, u8)>,
    spent: [u32; NCLASS],
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub plan: Plan,
    pub message: String,
    pub trace: Vec<String>,
}

#[derive(Default, Debug)]
pub struct CaseStats {
    pub executions: u64,
    pub max_decisions: usize,
    pub by_level: Vec<u64>,
    pub outcomes: BTreeMap<String, u64>,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub decisions: u64,
    pub steps: u64,
    pub polls: u64,
    pub max_tasks: usize,
    pub states: HashSet<u64>,
    pub cases: Vec<CaseStats>,
    pub by_level: Vec<u64>,
    /// all executions with at most this many deviations were run in every case
    pub completed_level: Option<u32>,
    pub complete: bool,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub machinery_error: Option<String>,
    pub wall: Duration,
}

pub struct Limits {
    pub wall: Duration,
    pub workers: usize,
    /// Returns the id of a known finding for (case, message).
    pub known: Box<dyn Fn(&str, &str) -> Option<String> + Send + Sync>,
    /// An execution taking longer than this (real time) loops without end.
    pub exec_wall: Duration,
    pub on_stuck: Box<dyn Fn(&str, &Plan) + Send + Sync>,
}

struct Shared {
    /// frontier[l]: nodes whose children cost l in total; consumed in order of l
    queue: VecDeque<Work>,
    cur: Option<Cursor>,
    next: VecDeque<Work>,
    level: u32,
    active: usize,
    done: bool,
    stats: Stats,
}

enum Work {
    Root(usize),
    /// enumerate the children of this node; `free`: only the Free ones
    Expand(Arc<Node>, bool),
}

struct Cursor {
    node: Arc<Node>,
    free: bool,
    dec: usize,
    alt: u16,
}

struct Item {
    case: usize,
    plan: Plan,
    spent: [u32; NCLASS],
}

impl Cursor {
    fn next(&mut self, b: &Bounds) -> Option<Item> {
        let n = &self.node;
        while self.dec < n.decs.len() {
            let (alts, class) = n.decs[self.dec];
            let is_free = class == Class::Free as u8;
            let ok = if is_free {
                self.free
            } else {
                !self.free && n.spent[class as usize] < b.budget[class as usize]
            };
            if ok && self.alt < alts {
                let mut plan = n.plan.clone();
                plan.push((self.dec as u32, self.alt));
                let mut spent = n.spent;
                if !is_free {
                    spent[class as usize] += 1;
                }
                self.alt += 1;
                return Some(Item { case: n.case, plan, spent });
            }
            self.dec += 1;
            self.alt = 1;
        }
        None
    }
}

struct SendBox<T>(T);
// Safety: stacks are plain memory; they are only used by one thread at a time.
unsafe impl<T> Send for SendBox<T> {}

/// Runs one plan of a case on a fresh thread.
pub fn run_plan(case: &Case, plan: &Plan, trace: bool, stacks: &mut Vec<DefaultStack>) -> Exec {
    let mut opts = case.opts.clone();
    opts.trace = trace;
    let driver = case.driver.clone();
    let plan = plan.clone();
    let pool = SendBox(std::mem::take(stacks));
    let h = std::thread::Builder::new()
        .stack_size(256 * 1024)
        .name("mc-exec".into())
        .spawn(move || {
            let pool = pool;
            let SendBox(mut st) = pool;
            HASH_SEED.with(|s| s.set(opts.hash_seed));
            let e = run_execution(move || driver(), plan, opts, &mut st);
            (SendBox(st), SendBox(e))
        })
        .expect("thread");
    let (SendBox(st), SendBox(e)) = h.join().expect("execution thread");
    *stacks = st;
    e
}

pub fn verdict(case: &Case, e: &Exec) -> Option<String> {
    match &e.outcome {
        Err(m) => {
            let mut m = m.clone();
            if let Some((t, p)) = e.panics.first() {
                if !m.contains("panic") {
                    m = format!("{m}; task '{t}' panicked: {p}");
                }
            }
            Some(m)
        }
        Ok(_) if !case.allow_panics => {
            e.panics.first().map(|(t, m)| format!("task '{t}' panicked: {m}"))
        }
        Ok(_) => None,
    }
}

fn root_of(cases: &[Case]) -> VecDeque<Work> {
    (0..cases.len()).map(Work::Root).collect()
}

pub fn explore(cases: &[Case], lim: &Limits) -> Stats {
    let start = Instant::now();
    let max_level = cases.iter().map(|c| c.bounds.total).max().unwrap_or(0);
    let shared = Mutex::new(Shared {
        queue: root_of(cases),
        cur: None,
        next: VecDeque::new(),
        level: 0,
        active: 0,
        done: false,
        stats: Stats {
            cases: cases.iter().map(|_| CaseStats::default()).collect(),
            by_level: vec![0; max_level as usize + 1],
            ..Default::default()
        },
    });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    // heartbeat of each worker: (start ms + 1) or 0, and what it runs
    let beats: Vec<AtomicU64> = (0..lim.workers).map(|_| AtomicU64::new(0)).collect();
    let running: Vec<Mutex<(usize, Plan)>> =
        (0..lim.workers).map(|_| Mutex::new((0, vec![]))).collect();

    let take = |s: &mut Shared, batch: usize| -> Vec<Item> {
        let mut out = vec![];
        while out.len() < batch {
            if let Some(c) = s.cur.as_mut() {
                let b = &cases[c.node.case].bounds;
                match c.next(b) {
                    Some(i) => out.push(i),
                    None => s.cur = None,
                }
                continue;
            }
            match s.queue.pop_front() {
                Some(Work::Root(c)) => {
                    out.push(Item { case: c, plan: vec![], spent: [0; NCLASS] })
                }
                Some(Work::Expand(node, free)) => {
                    let dec = node.plan.last().map(|p| p.0 as usize + 1).unwrap_or(0);
                    s.cur = Some(Cursor { node, free, dec, alt: 1 });
                }
                None => break,
            }
        }
        out
    };

    std::thread::scope(|sc| {
        for wi in 0..lim.workers {
            let (shared, cv, stop, take, beats, running) =
                (&shared, &cv, &stop, &take, &beats, &running);
            sc.spawn(move || {
                let mut stacks = Vec::new();
                loop {
                    let items = {
                        let mut s = shared.lock().unwrap();
                        loop {
                            if s.done {
                                return;
                            }
                            if start.elapsed() > lim.wall || stop.load(Ordering::Relaxed) {
                                s.done = true;
                                cv.notify_all();
                                return;
                            }
                            let batch = if s.stats.executions > 2000 { 16 } else { 1 };
                            let items = take(&mut s, batch);
                            if !items.is_empty() {
                                s.active += 1;
                                break items;
                            }
                            if s.active == 0 {
                                // level finished
                                s.stats.completed_level = Some(s.level);
                                if s.next.is_empty() {
                                    s.stats.complete = true;
                                    s.stats.completed_level = Some(max_level);
                                    s.done = true;
                                    cv.notify_all();
                                    return;
                                }
                                s.level += 1;
                                s.queue = std::mem::take(&mut s.next);
                                cv.notify_all();
                                continue;
                            }
                            s = cv.wait(s).unwrap();
                        }
                    };
                    let mut results = vec![];
                    for it in items {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let case = &cases[it.case];
                        *running[wi].lock().unwrap() = (it.case, it.plan.clone());
                        beats[wi].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let e = run_plan(case, &it.plan, false, &mut stacks);
                        let mut viol = None;
                        let mut machinery = None;
                        if let Some(d) = &e.diverged {
                            machinery = Some(format!(
                                "case {}: replay diverged ({d}), plan {:?}",
                                case.name, it.plan
                            ));
                        }
                        let bad = verdict(case, &e);
                        if bad.is_some() && machinery.is_none() {
                            // confirm, with a trace
                            let e2 = run_plan(case, &it.plan, true, &mut stacks);
                            let e3 = run_plan(case, &it.plan, true, &mut stacks);
                            let (v2, v3) = (verdict(case, &e2), verdict(case, &e3));
                            if v2 == bad || v3 == bad {
                                viol = Some(Violation {
                                    case: case.name.clone(),
                                    plan: it.plan.clone(),
                                    message: bad.clone().unwrap(),
                                    trace: if v2 == bad { e2.log } else { e3.log },
                                });
                            } else {
                                machinery = Some(format!(
                                    "case {}: verdict not reproducible: {:?} / {:?} / {:?}, plan {:?}",
                                    case.name, bad, v2, v3, it.plan
                                ));
                            }
                        }
                        beats[wi].store(0, Ordering::Relaxed);
                        results.push((it, e, viol, machinery));
                    }
                    let mut s = shared.lock().unwrap();
                    for (it, e, viol, machinery) in results {
                        let case = &cases[it.case];
                        let level = s.level;
                        let st = &mut s.stats;
                        st.executions += 1;
                        st.decisions += e.decisions.len() as u64;
                        st.steps += e.steps;
                        st.polls += e.polls;
                        st.max_tasks = st.max_tasks.max(e.tasks);
                        st.by_level[level as usize] += 1;
                        for h in &e.state_hashes {
                            if st.states.len() < 4_000_000 {
                                st.states.insert(*h ^ (it.case as u64).wrapping_mul(0x9e3779b97f4a7c15));
                            }
                        }
                        let cs = &mut st.cases[it.case];
                        cs.executions += 1;
                        cs.max_decisions = cs.max_decisions.max(e.decisions.len());
                        while cs.by_level.len() <= level as usize {
                            cs.by_level.push(0);
                        }
                        cs.by_level[level as usize] += 1;
                        if let Ok(o) = &e.outcome {
                            if cs.outcomes.len() < 1000 || cs.outcomes.contains_key(o) {
                                *cs.outcomes.entry(o.clone()).or_insert(0) += 1;
                            }
                        }
                        if let Some(m) = machinery {
                            if st.machinery_error.is_none() {
                                st.machinery_error = Some(m);
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        if let Some(v) = viol {
                            match (lim.known)(&v.case, &v.message) {
                                Some(id) => *st.known.entry(id).or_insert(0) += 1,
                                None => {
                                    st.violations.push(v);
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            continue; // do not explore beyond a violation
                        }
                        let last = it.plan.last().map(|p| p.0 as i64).unwrap_or(-1);
                        let later = |d: usize| d as i64 > last;
                        let has_free = e
                            .decisions
                            .iter()
                            .enumerate()
                            .any(|(i, d)| later(i) && d.class == Class::Free as u8);
                        let spent_total: u32 = it.spent.iter().sum();
                        let has_cost = spent_total < case.bounds.total
                            && e.decisions.iter().enumerate().any(|(i, d)| {
                                later(i)
                                    && d.class != Class::Free as u8
                                    && it.spent[d.class as usize] < case.bounds.budget[d.class as usize]
                            });
                        if has_free || has_cost {
                            let node = Arc::new(Node {
                                case: it.case,
                                decs: e.decisions.iter().map(|d| (d.n, d.class)).collect(),
                                plan: it.plan,
                                spent: it.spent,
                            });
                            if has_free {
                                s.queue.push_back(Work::Expand(node.clone(), true));
                            }
                            if has_cost {
                                s.next.push_back(Work::Expand(node, false));
                            }
                        }
                    }
                    s.active -= 1;
                    cv.notify_all();
                }
            });
        }
        // watchdog
        let (shared, beats, running) = (&shared, &beats, &running);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(20));
            if shared.lock().unwrap().done {
                // wait for the workers to leave their last execution
                if beats.iter().all(|b| b.load(Ordering::Relaxed) == 0) {
                    return;
                }
            }
            let now = start.elapsed().as_millis() as u64;
            for (i, b) in beats.iter().enumerate() {
                let t = b.load(Ordering::Relaxed);
                if t != 0 && now > t + lim.exec_wall.as_millis() as u64 {
                    let (c, p) = running[i].lock().unwrap().clone();
                    (lim.on_stuck)(&cases[c].name, &p);
                }
            }
        });
    });
    let mut s = shared.into_inner().unwrap();
    s.stats.wall = start.elapsed();
    s.stats
}
