//! Controlled executor for async Rust code ("world") plus the schedule explorer.
//!
//! One *execution* runs a driver future and everything it spawns on a single OS
//! thread.  Every poll of a task happens inside a stackful coroutine, so that a
//! task can be preempted at any intercepted operation (also in the middle of
//! synchronous code).  All nondeterminism (which task runs, preemptions, timers,
//! short reads, faults, ...) is resolved by `choose`, which follows a *plan*:
//! a sparse list of `(decision index, alternative)`; every decision that is not
//! in the plan takes alternative 0.  `explore` enumerates plans exhaustively up
//! to a bound on the number of deviations from the default.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub mod explore;

const STACK: usize = 512 * 1024;
const COOP_BUDGET: u32 = 128;

/// Kind of a nondeterministic decision.  Each kind has its own deviation budget.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Class {
    /// Which task runs next, preemptions, early timers.
    Sched = 0,
    /// Environment answers: short reads/writes, forced coop yields.
    Env = 1,
    /// Injected faults.
    Fault = 2,
    /// Data nondeterminism: always fully enumerated, costs nothing.
    Free = 3,
}
pub const NCLASS: usize = 3;

#[derive(Copy, Clone, Debug)]
pub struct Decision {
    pub n: u16,
    pub c: u16,
    pub class: u8,
}

/// `(decision index, alternative)`, ascending by index, alternatives are non-zero.
pub type Plan = Vec<(u32, u16)>;

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum St {
    Idle,
    Ready,
    Running,
    /// Suspended in the middle of a poll; sits in `ready` or `starved`.
    Preempted,
    Done,
}

enum Out {
    Ready,
    Pending,
    Panicked(Box<dyn Any + Send>),
}

type Co = Coroutine<(), (), Out, DefaultStack>;

struct Slot {
    fut: Option<BoxFut>,
    co: Option<Co>,
    st: St,
    woken: bool,
    cancelled: bool,
    waker: Waker,
    name: &'static str,
    /// scenario task (raw peer, oracle): not preempted inside a poll
    quiet: bool,
    polls: u32,
    points: u32,
    budget: u32,
    yielder: *const Yielder<(), ()>,
    on_exit: Option<Box<dyn FnOnce(Exit)>>,
}

pub enum Exit {
    Finished,
    Cancelled,
    Panicked(Box<dyn Any + Send>),
}

#[derive(Clone, Debug)]
pub struct Opts {
    /// Ready tasks may be preempted/reordered by deviations of class Sched.
    pub preempt: bool,
    /// The next timer may fire although other tasks are runnable (a Sched deviation).
    pub early_timers: bool,
    /// A leaf future may yield although its operation could proceed (an Env deviation).
    pub coop_yields: bool,
    /// Reads may return less than is available (an Env deviation).
    pub short_reads: bool,
    pub max_steps: u64,
    /// Virtual time (ns) after which the execution counts as hung.
    pub horizon: u64,
    /// Which seed the hash maps get (decides their iteration order).
    pub hash_seed: u64,
    pub trace: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            preempt: true,
            early_timers: false,
            coop_yields: false,
            short_reads: false,
            max_steps: 3_000_000,
            horizon: 3_600 * 1_000_000_000,
            hash_seed: 0,
            trace: false,
        }
    }
}

pub struct World {
    epoch: u64,
    slots: Vec<Slot>,
    ready: VecDeque<usize>,
    starved: VecDeque<usize>,
    quiescers: Vec<Waker>,
    cur: Option<usize>,
    forced: Option<usize>,
    now: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    decisions: Vec<Decision>,
    plan: Plan,
    plan_pos: usize,
    explore_on: bool,
    ending: bool,
    diverged: Option<String>,
    steps: u64,
    opts: Opts,
    stacks: Vec<DefaultStack>,
    panics: Vec<(&'static str, String)>,
    ext: Vec<Box<dyn Any>>,
    log: Vec<String>,
    state_hashes: Vec<u64>,
    result: Option<Result<String, String>>,
}

thread_local! {
    static W: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
    pub static HASH_SEED: Cell<u64> = const { Cell::new(0) };
}

static EPOCH: AtomicU64 = AtomicU64::new(1);

#[inline]
fn world() -> Option<&'static mut World> {
    // Safety: a world lives on the stack of `run_execution` on this thread; it is
    // only touched from this thread, and no reference is held across user code.
    let p = W.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

pub fn in_world() -> bool {
    !W.with(|w| w.get()).is_null()
}

struct TaskWaker {
    epoch: u64,
    id: usize,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(w) = world() {
            if w.epoch == self.epoch && !w.ending {
                w.make_ready(self.id);
            }
        }
    }
}

/// Result of one execution.
pub struct Exec {
    pub outcome: Result<String, String>,
    pub decisions: Vec<Decision>,
    pub steps: u64,
    pub polls: u64,
    pub tasks: usize,
    pub panics: Vec<(&'static str, String)>,
    pub diverged: Option<String>,
    pub log: Vec<String>,
    pub state_hashes: Vec<u64>,
    pub now: u64,
}

/// `a::b::C::{{closure}}` -> `b::C`
fn short(name: &str) -> String {
    let n = name.split('<').next().unwrap_or(name);
    let parts: Vec<&str> = n.split("::").filter(|p| !p.starts_with("{{") && !p.is_empty()).collect();
    parts[parts.len().saturating_sub(2)..].join("::")
}

fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

impl World {
    fn make_ready(&mut self, id: usize) {
        let s = &mut self.slots[id];
        match s.st {
            St::Idle => {
                s.st = St::Ready;
                self.ready.push_back(id);
            }
            St::Running | St::Preempted => s.woken = true,
            St::Ready | St::Done => {}
        }
    }

    fn choose(&mut self, n: usize, class: Class, what: &str) -> usize {
        if n <= 1 {
            return 0;
        }
        let idx = self.decisions.len() as u32;
        let mut c = 0;
        if let Some(&(i, a)) = self.plan.get(self.plan_pos) {
            if i == idx {
                self.plan_pos += 1;
                c = a as usize;
                if c >= n {
                    self.diverged = Some(format!("decision {idx} ({what}): planned {c} of {n}"));
                    c = 0;
                }
            }
        }
        self.decisions.push(Decision { n: n as u16, c: c as u16, class: class as u8 });
        if class == Class::Sched {
            let mut h = 0u64;
            for s in &self.slots {
                h = mix(h, (s.polls as u64) << 34 | (s.points as u64) << 3 | s.st as u64);
            }
            h = mix(h, self.now);
            for r in self.ready.iter() {
                h = mix(h, *r as u64);
            }
            self.state_hashes.push(h);
        }
        if self.opts.trace {
            let nm = |c: usize| format!("{}#{}", short(self.slots[c].name), c);
            let cur = self.cur.map(nm).unwrap_or_default();
            let ready: Vec<String> = self.ready.iter().map(|r| nm(*r)).collect();
            self.log.push(format!("[{idx}] {what} at {cur}: {c}/{n} ready={ready:?}"));
        }
        c
    }

    fn suspend_current(&mut self) {
        let cur = self.cur.expect("no current task");
        let y = self.slots[cur].yielder;
        self.slots[cur].st = St::Preempted;
        // Safety: `y` points to the yielder of the coroutine this code runs in.
        unsafe { (*y).suspend(()) };
    }

    fn fire_next_timer(&mut self) -> bool {
        if let Some((&(t, seq), _)) = self.timers.iter().next() {
            if t > self.now {
                self.now = t;
            }
            let w = self.timers.remove(&(t, seq)).unwrap();
            w.wake();
            // all timers of the same instant
            while let Some((&(t2, s2), _)) = self.timers.iter().next() {
                if t2 > self.now {
                    break;
                }
                let w = self.timers.remove(&(t2, s2)).unwrap();
                w.wake();
            }
            true
        } else {
            false
        }
    }
}

/// A scheduling point: the running task may be preempted here.
#[inline]
pub fn point(what: &'static str) {
    let Some(w) = world() else { return };
    point_in(w, what)
}

fn point_in(w: &mut World, what: &'static str) {
    let Some(cur) = w.cur else { return };
    if w.ending || std::thread::panicking() {
        return;
    }
    w.steps += 1;
    w.slots[cur].points += 1;
    if !w.explore_on || !w.opts.preempt || w.slots[cur].quiet {
        return;
    }
    let n = w.ready.len();
    let timer = w.opts.early_timers && !w.timers.is_empty();
    if n == 0 && !timer {
        return;
    }
    let opts = 1 + n + usize::from(n > 0) + usize::from(timer);
    let c = w.choose(opts, Class::Sched, what);
    if c == 0 {
        return;
    }
    if c <= n {
        let t = w.ready.remove(c - 1).unwrap();
        w.ready.push_front(cur);
        w.forced = Some(t);
    } else if n > 0 && c == n + 1 {
        w.starved.push_back(cur);
    } else {
        w.fire_next_timer();
        w.ready.push_back(cur);
    }
    w.suspend_current();
}

/// The running task waits for a (std) lock held by another one: let all others run
/// first. Returns false if it cannot wait (not inside a task).
pub fn block() -> bool {
    let Some(w) = world() else { return false };
    let Some(cur) = w.cur else { return false };
    if w.ending || std::thread::panicking() {
        return false;
    }
    w.steps += 1;
    w.starved.push_back(cur);
    w.suspend_current();
    true
}

/// Called by leaf futures of the intercepted runtime before they do their work.
/// Returns false if the future must yield (coop budget used up, or chosen).
pub fn coop_take(what: &'static str) -> bool {
    let Some(w) = world() else { return true };
    let Some(cur) = w.cur else { return true };
    point_in(w, what);
    if w.ending {
        return true;
    }
    if w.slots[cur].budget == 0 {
        return false;
    }
    if w.explore_on && w.opts.coop_yields && w.choose(2, Class::Env, "coop-yield") == 1 {
        return false;
    }
    w.slots[cur].budget -= 1;
    true
}

pub fn coop_restore() {
    if let Some(w) = world() {
        if let Some(cur) = w.cur {
            let b = &mut w.slots[cur].budget;
            *b = (*b + 1).min(COOP_BUDGET);
        }
    }
}

/// Resolves a nondeterministic choice among `n` alternatives; 0 is the default.
pub fn choose(n: usize, class: Class, what: &str) -> usize {
    match world() {
        Some(w) if !w.ending && (w.explore_on || class == Class::Free) => w.choose(n, class, what),
        _ => 0,
    }
}

pub fn short_read(avail: usize) -> usize {
    match world() {
        Some(w) if !w.ending && w.explore_on && w.opts.short_reads && avail > 1 => {
            match w.choose(3, Class::Env, "short-read") {
                0 => avail,
                1 => 1,
                _ => avail - 1,
            }
        }
        _ => avail,
    }
}

pub fn now() -> u64 {
    world().map(|w| w.now).unwrap_or(0)
}

pub fn timer_register(deadline: u64, waker: &Waker) -> Option<(u64, u64)> {
    let w = world()?;
    if w.ending {
        return None;
    }
    w.timer_seq += 1;
    let key = (deadline, w.timer_seq);
    w.timers.insert(key, waker.clone());
    Some(key)
}

pub fn timer_cancel(key: (u64, u64)) {
    if let Some(w) = world() {
        let old = w.timers.remove(&key);
        drop(old);
    }
}

pub type TaskId = usize;

/// Spawns a task. `on_exit` is told how it ended (finished, cancelled or panicked).
pub fn spawn(
    name: &'static str,
    fut: BoxFut,
    on_exit: Box<dyn FnOnce(Exit)>,
) -> Option<TaskId> {
    let Some(w) = world() else {
        panic!("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    };
    if w.ending {
        drop(fut);
        return None;
    }
    let id = w.slots.len();
    w.slots.push(Slot {
        fut: Some(fut),
        co: None,
        st: St::Ready,
        woken: false,
        cancelled: false,
        waker: Waker::from(Arc::new(TaskWaker { epoch: w.epoch, id })),
        name,
        quiet: name.starts_with("peer"),
        polls: 0,
        points: 0,
        budget: COOP_BUDGET,
        yielder: std::ptr::null(),
        on_exit: Some(on_exit),
    });
    w.ready.push_back(id);
    Some(id)
}

pub fn abort(id: TaskId) {
    if let Some(w) = world() {
        if w.ending || w.slots[id].st == St::Done {
            return;
        }
        w.slots[id].cancelled = true;
        w.make_ready(id);
    }
}

pub fn task_done(id: TaskId) -> bool {
    world().map(|w| w.slots[id].st == St::Done).unwrap_or(true)
}

pub fn current() -> Option<TaskId> {
    world().and_then(|w| w.cur)
}

/// Switches exploration on or off (off: the default schedule, no decisions).
pub fn set_explore(on: bool) {
    if let Some(w) = world() {
        w.explore_on = on;
    }
}

pub fn log(msg: impl FnOnce() -> String) {
    if let Some(w) = world() {
        if w.opts.trace {
            let m = msg();
            w.log.push(m);
        }
    }
}

pub fn panics() -> Vec<(&'static str, String)> {
    world().map(|w| w.panics.clone()).unwrap_or_default()
}

pub fn live_tasks() -> usize {
    world().map(|w| w.slots.iter().filter(|s| s.st != St::Done).count()).unwrap_or(0)
}

/// Per-execution state of type `T`.
pub fn ext<T: Default + 'static, R>(f: impl FnOnce(&mut T) -> R) -> R {
    let w = world().expect("not inside an execution");
    for e in w.ext.iter_mut() {
        if let Some(t) = e.downcast_mut::<T>() {
            let p: *mut T = t;
            // Safety: ext entries are boxed and never removed during an execution.
            return f(unsafe { &mut *p });
        }
    }
    let mut b = Box::<T>::default();
    let p: *mut T = &mut *b;
    w.ext.push(b);
    f(unsafe { &mut *p })
}

pub fn tracing() -> bool {
    world().map(|w| w.opts.trace).unwrap_or(false)
}

/// Whether the running task is exempt from preemption.
pub fn set_quiet(q: bool) {
    if let Some(w) = world() {
        if let Some(c) = w.cur {
            w.slots[c].quiet = q;
        }
    }
}

/// Completes once no other task can run without time passing.
pub async fn quiesce() {
    struct Q(bool);
    impl Future for Q {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            if let Some(w) = world() {
                w.quiescers.push(cx.waker().clone());
            }
            Poll::Pending
        }
    }
    Q(false).await
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_world() {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit("/registry/src/").next().unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            LAST_PANIC.with(|p| p.set(Some(format!("{msg} ({loc})"))));
        } else {
            prev(info)
        }
    }));
}

fn poll_task(w: &mut World, id: usize) -> Out {
    let mut co = match w.slots[id].co.take() {
        Some(co) => co,
        None => {
            let slot = &mut w.slots[id];
            slot.polls += 1;
            slot.budget = COOP_BUDGET;
            slot.woken = false;
            let stack =
                w.stacks.pop().unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
            Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
                let w = world().unwrap();
                w.slots[id].yielder = y;
                if w.slots[id].cancelled {
                    let fut = w.slots[id].fut.take();
                    return match catch_unwind(AssertUnwindSafe(move || drop(fut))) {
                        Ok(()) => Out::Ready,
                        Err(p) if world().unwrap().ending => resume_unwind(p),
                        Err(p) => Out::Panicked(p),
                    };
                }
                let waker = w.slots[id].waker.clone();
                // The future is moved out for the poll so that no reference into
                // the world is held while user code runs.
                let mut fut = w.slots[id].fut.take().expect("future");
                let r = catch_unwind(AssertUnwindSafe(|| {
                    fut.as_mut().poll(&mut Context::from_waker(&waker))
                }));
                let w = world().unwrap();
                match r {
                    Ok(Poll::Pending) => {
                        w.slots[id].fut = Some(fut);
                        Out::Pending
                    }
                    Ok(Poll::Ready(())) => {
                        match catch_unwind(AssertUnwindSafe(move || drop(fut))) {
                            Ok(()) => Out::Ready,
                            Err(p) if world().unwrap().ending => resume_unwind(p),
                            Err(p) => Out::Panicked(p),
                        }
                    }
                    Err(p) => {
                        if w.ending {
                            std::mem::forget(fut);
                            resume_unwind(p)
                        }
                        let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                        Out::Panicked(p)
                    }
                }
            })
        }
    };
    match co.resume(()) {
        CoroutineResult::Yield(()) => {
            // preempted: state was set by `suspend_current`
            world().unwrap().slots[id].co = Some(co);
            Out::Pending
        }
        CoroutineResult::Return(out) => {
            world().unwrap().stacks.push(co.into_stack());
            out
        }
    }
}

fn run_task(w: &mut World, id: usize) {
    w.cur = Some(id);
    w.slots[id].st = St::Running;
    let out = poll_task(w, id);
    w.cur = None;
    if w.slots[id].co.is_some() {
        return; // preempted
    }
    let exit = match out {
        Out::Pending => {
            let s = &mut w.slots[id];
            if s.woken || s.cancelled {
                s.woken = false;
                s.st = St::Ready;
                w.ready.push_back(id);
            } else {
                s.st = St::Idle;
            }
            return;
        }
        Out::Ready => {
            if w.slots[id].cancelled && w.slots[id].fut.is_none() {
                // cancelled before/while finishing; tokio reports the output if
                // the poll completed, and cancellation if the future was dropped
                Exit::Finished
            } else {
                Exit::Finished
            }
        }
        Out::Panicked(p) => {
            let msg = LAST_PANIC.with(|l| l.take()).unwrap_or_else(|| "panic".into());
            w.panics.push((w.slots[id].name, msg));
            Exit::Panicked(p)
        }
    };
    w.slots[id].st = St::Done;
    let cb = w.slots[id].on_exit.take();
    if let Some(cb) = cb {
        cb(exit)
    }
}

/// Runs one execution of `driver` under `plan`. Must be called on a fresh thread
/// (see `explore`) so that thread-local state does not leak between executions.
pub fn run_execution(
    driver: impl FnOnce() -> Pin<Box<dyn Future<Output = Result<String, String>>>>,
    plan: Plan,
    opts: Opts,
    stacks: &mut Vec<DefaultStack>,
) -> Exec {
    let mut world_box = Box::new(World {
        epoch: EPOCH.fetch_add(1, Ordering::Relaxed),
        slots: Vec::with_capacity(32),
        ready: VecDeque::with_capacity(16),
        starved: VecDeque::new(),
        quiescers: Vec::new(),
        cur: None,
        forced: None,
        now: 0,
        timers: BTreeMap::new(),
        timer_seq: 0,
        decisions: Vec::with_capacity(256),
        plan,
        plan_pos: 0,
        explore_on: false,
        ending: false,
        diverged: None,
        steps: 0,
        opts,
        stacks: std::mem::take(stacks),
        panics: Vec::new(),
        ext: Vec::new(),
        log: Vec::new(),
        state_hashes: Vec::new(),
        result: None,
    });
    let wp: *mut World = &mut *world_box;
    W.with(|w| w.set(wp));
    let w: &mut World = unsafe { &mut *wp };

    let fut = driver();
    spawn(
        "driver",
        Box::pin(async move {
            let r = fut.await;
            if let Some(w) = world() {
                w.result = Some(r);
            }
        }),
        Box::new(|e| {
            if let Exit::Panicked(_) = e {
                let w = world().unwrap();
                let m = w.panics.last().map(|p| p.1.clone()).unwrap_or_default();
                w.result = Some(Err(format!("driver panicked: {m}")));
            }
        }),
    );

    let outcome = loop {
        if let Some(r) = w.result.take() {
            break r;
        }
        if w.steps > w.opts.max_steps {
            break Err("livelock: step limit reached".to_string());
        }
        if w.now > w.opts.horizon {
            break Err("hang: virtual time horizon reached".to_string());
        }
        w.steps += 1;
        let id = if let Some(t) = w.forced.take() {
            t
        } else if w.ready.is_empty() {
            if !w.starved.is_empty() {
                w.ready = std::mem::take(&mut w.starved);
            } else if !w.quiescers.is_empty() {
                for q in std::mem::take(&mut w.quiescers) {
                    q.wake();
                }
            } else if !w.fire_next_timer() {
                break Err("deadlock: the driver waits and nothing can run".to_string());
            }
            continue;
        } else {
            let n = w.ready.len();
            let timer = w.explore_on && w.opts.early_timers && !w.timers.is_empty();
            let mut c = 0;
            if w.explore_on && w.opts.preempt && (n > 1 || timer) {
                let opts = n + usize::from(n > 1) + usize::from(timer);
                c = w.choose(opts, Class::Sched, "next");
            }
            if c < n {
                w.ready.remove(c).unwrap()
            } else if n > 1 && c == n {
                let r0 = w.ready.pop_front().unwrap();
                w.starved.push_back(r0);
                w.ready.pop_front().unwrap()
            } else {
                w.fire_next_timer();
                continue;
            }
        };
        if w.opts.trace {
            let m = format!("run {}#{id}", short(w.slots[id].name));
            w.log.push(m);
        }
        run_task(w, id);
    };

    // Tear down: unwind suspended polls, drop idle futures.
    w.ending = true;
    for i in 0..w.slots.len() {
        if let Some(mut co) = w.slots[i].co.take() {
            let _ = catch_unwind(AssertUnwindSafe(|| co.force_unwind()));
            if co.done() {
                w.stacks.push(co.into_stack());
            }
        }
    }
    for i in 0..w.slots.len() {
        let f = w.slots[i].fut.take();
        let e = w.slots[i].on_exit.take();
        let _ = catch_unwind(AssertUnwindSafe(move || {
            drop(f);
            drop(e);
        }));
    }
    let timers = std::mem::take(&mut w.timers);
    drop(timers);
    let ext = std::mem::take(&mut w.ext);
    drop(ext);
    let slots = std::mem::take(&mut w.slots);
    let polls = slots.iter().map(|s| s.polls as u64).sum();
    let tasks = slots.len();
    drop(slots);
    *stacks = std::mem::take(&mut w.stacks);
    W.with(|w| w.set(std::ptr::null_mut()));
    if w.plan_pos < w.plan.len() && w.diverged.is_none() {
        w.diverged = Some("plan not fully consumed".into());
    }
    Exec {
        outcome,
        decisions: std::mem::take(&mut w.decisions),
        steps: w.steps,
        polls,
        tasks,
        panics: std::mem::take(&mut w.panics),
        diverged: w.diverged.take(),
        log: std::mem::take(&mut w.log),
        state_hashes: std::mem::take(&mut w.state_hashes),
        now: w.now,
    }
}
