//! Controlled scheduler for stateless model checking of real code.
//!
//! A `World` owns a set of OS threads of which exactly one runs at any time.  A controlled thread gives the
//! baton back at every *scheduling point*: before each lock acquisition (the patched `parking_lot` calls
//! `acquire`), at `touch` (a visible event of the harness), at a fork/join of the patched `rayon-core`.  Between
//! two scheduling points a thread runs alone, so an execution is the sequence of threads picked at the scheduling
//! points, and the explorers of this module enumerate all such sequences: `dpor` up to equivalence of independent
//! operations (no bound on preemptions), `pb_dfs` all sequences with a bounded number of preemptions.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub mod rng;

// ------------------------------------------------------------------------------------------------
// operations

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// start of a thread, independent of everything
    Begin,
    /// shared access
    Read,
    /// exclusive access
    Write,
    /// second phase of an exclusive access (waiting for the readers to leave): ordered by what it waits for, races
    /// are those of the first phase
    Wait,
    /// waiting for a child thread
    Join,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub kind: Kind,
    /// identity of the object (address of the lock, or virtual object of the harness)
    pub obj: usize,
}

impl Op {
    fn dependent(&self, o: &Op) -> bool {
        self.obj == o.obj
            && match (self.kind, o.kind) {
                (Kind::Begin | Kind::Join | Kind::Wait, _) | (_, Kind::Begin | Kind::Join | Kind::Wait) => false,
                (Kind::Read, Kind::Read) => false,
                _ => true,
            }
    }
}

// ------------------------------------------------------------------------------------------------
// world

type Job = Box<dyn FnOnce() + Send + 'static>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Idle,
    /// assigned to a job and between scheduling points or waiting at one
    Active,
    Finished,
}

struct Slot {
    status: Status,
    pending: Op,
    /// readiness predicate of the pending operation, valid while the thread waits at it
    ready: Option<*const dyn Fn() -> bool>,
    /// the pending operation comes after a failed attempt: let the others go first
    yielded: bool,
    clock: Vec<u32>,
}

struct Worker {
    go: Arc<AtomicBool>,
    handle: std::thread::Thread,
    job: Arc<Mutex<Option<Job>>>,
}

#[derive(Clone, Debug)]
pub struct StepRec {
    pub tid: usize,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    Deadlock(String),
    StepLimit,
    Hang,
}

/// What happened in one execution.
pub struct Exec {
    pub outcome: Outcome,
    pub panics: Vec<(usize, String)>,
    pub steps: usize,
    /// thread chosen at each scheduling point
    pub schedule: Vec<u8>,
    pub preemptions: usize,
}

struct Inner {
    slots: Vec<Slot>,
    workers: Vec<Worker>,
    nactive: usize,
    current: usize, // thread holding the baton, usize::MAX for none
    schedule: Vec<u8>,
    steps: usize,
    step_limit: usize,
    preemptions: usize,
    panics: Vec<(usize, String)>,
    finished: Option<Outcome>,
    strategy: Option<Box<dyn Strategy>>,
    /// releases are scheduling points too
    release_points: bool,
    // happens-before bookkeeping, by object
    objs: std::collections::HashMap<usize, ObjClock>,
}

#[derive(Default, Clone)]
struct ObjClock {
    write: Vec<u32>,
    reads: Vec<u32>,
}

fn join_clock(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y
        }
    }
}

pub struct World {
    inner: UnsafeCell<Inner>,
    done: Mutex<bool>,
    done_cv: Condvar,
    core: Option<usize>,
    pub poisoned: AtomicBool,
}
unsafe impl Sync for World {}
unsafe impl Send for World {}

#[derive(Clone)]
struct Cur {
    world: Arc<World>,
    tid: usize,
}

thread_local! {
    static CUR: RefCell<Option<Cur>> = const { RefCell::new(None) };
    static IS_CTL: Cell<bool> = const { Cell::new(false) };
    pub static NB_THREADS: Cell<usize> = const { Cell::new(1) };
}
static NB_THREADS_CTL: AtomicUsize = AtomicUsize::new(4);
pub static TOTAL_SWITCHES: AtomicU64 = AtomicU64::new(0);

/// true in a thread run by a `World`
#[inline]
pub fn controlled() -> bool {
    IS_CTL.with(|c| c.get())
}

/// number of worker threads rayon is told about
pub fn num_threads() -> usize {
    if controlled() {
        NB_THREADS_CTL.load(Ordering::Relaxed)
    } else {
        NB_THREADS.with(|c| c.get())
    }
}
pub fn set_ctl_num_threads(n: usize) {
    NB_THREADS_CTL.store(n, Ordering::Relaxed)
}

fn cur() -> Option<Cur> {
    CUR.with(|c| c.borrow().clone())
}

/// Called by locks before acquiring: waits for the turn of this thread, `ready` being true.
/// Returns false when the calling thread is not controlled.
pub fn acquire(obj: usize, kind: Kind, ready: &dyn Fn() -> bool) -> bool {
    if !controlled() {
        return false;
    }
    let c = match cur() {
        Some(c) => c,
        None => return false,
    };
    if std::thread::panicking() && unsafe { (*c.world.inner.get()).finished.is_some() } {
        return true;
    }
    c.world.sched_point(c.tid, Op { kind, obj }, Some(ready), false);
    true
}

/// A visible non blocking operation (harness events, try-locks).
pub fn touch(obj: usize, kind: Kind) {
    if controlled() {
        if let Some(c) = cur() {
            c.world.sched_point(c.tid, Op { kind, obj }, None, false);
        }
    }
}

/// An attempt that does not wait has been made on some lock.  What it finds depends on whether others hold the lock at
/// that moment, so from then on releases are scheduling points too (explorations under way start again).
static TRIED: AtomicBool = AtomicBool::new(false);
pub fn tried() {
    if controlled() {
        TRIED.store(true, Ordering::Relaxed)
    }
}

/// Called by locks before releasing.
pub fn releasing(obj: usize) {
    if controlled() && TRIED.load(Ordering::Relaxed) {
        if let Some(c) = cur() {
            let (on, over) = unsafe { ((*c.world.inner.get()).release_points, (*c.world.inner.get()).finished.is_some()) };
            if on && !over {
                c.world.sched_point(c.tid, Op { kind: Kind::Write, obj }, None, false);
            }
        }
    }
}

/// scheduling point after a failed attempt (spinning): other threads go first.
pub fn yielding(obj: usize, kind: Kind) {
    if controlled() {
        if let Some(c) = cur() {
            c.world.sched_point(c.tid, Op { kind, obj }, None, true);
        }
    }
}

/// Called by locks after releasing.
pub fn released(obj: usize, kind: Kind) {
    if !controlled() {
        return;
    }
    if let Some(c) = cur() {
        let inner = unsafe { &mut *c.world.inner.get() };
        let clock = inner.slots[c.tid].clock.clone();
        let o = inner.objs.entry(obj).or_default();
        match kind {
            Kind::Read => join_clock(&mut o.reads, &clock),
            _ => join_clock(&mut o.write, &clock),
        }
    }
}

/// fork/join used by the patched rayon
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !controlled() {
        let ra = a();
        let rb = b();
        return (ra, rb);
    }
    let c = cur().unwrap();
    let mut rb: Option<std::thread::Result<RB>> = None;
    {
        struct SendPtr<T>(*mut T);
        unsafe impl<T> Send for SendPtr<T> {}
        let p = SendPtr(&mut rb as *mut _);
        let forced = rng::forced();
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            rng::force(forced);
            let p = p;
            let r = catch_unwind(AssertUnwindSafe(b));
            unsafe { *p.0 = Some(r) };
        });
        // the job is finished before this function returns
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        let child = c.world.fork(c.tid, job);
        let ra = catch_unwind(AssertUnwindSafe(a));
        c.world.join_child(c.tid, child);
        let ra = match ra {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        };
        let rb = match rb.take().unwrap() {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        };
        (ra, rb)
    }
}

pub fn pin_to(core: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(core % n, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

impl World {
    pub fn new(core: Option<usize>) -> Arc<World> {
        Arc::new(World {
            inner: UnsafeCell::new(Inner {
                slots: Vec::new(),
                workers: Vec::new(),
                nactive: 0,
                current: usize::MAX,
                schedule: Vec::new(),
                steps: 0,
                step_limit: 20_000,
                preemptions: 0,
                panics: Vec::new(),
                finished: None,
                strategy: None,
                release_points: false,
                objs: Default::default(),
            }),
            done: Mutex::new(false),
            done_cv: Condvar::new(),
            core,
            poisoned: AtomicBool::new(false),
        })
    }

    fn spawn_worker(self: &Arc<Self>, tid: usize) -> Worker {
        let go = Arc::new(AtomicBool::new(false));
        let job: Arc<Mutex<Option<Job>>> = Arc::new(Mutex::new(None));
        let (g2, j2, w2) = (go.clone(), job.clone(), self.clone());
        let h = std::thread::Builder::new()
            .name(format!("mc-{}", tid))
            .stack_size(1 << 20)
            .spawn(move || {
                if let Some(c) = w2.core {
                    pin_to(c);
                }
                CUR.with(|c| *c.borrow_mut() = Some(Cur { world: w2.clone(), tid }));
                IS_CTL.with(|c| c.set(true));
                loop {
                    wait_go(&g2);
                    let j = j2.lock().unwrap().take();
                    match j {
                        None => break, // shutdown
                        Some(j) => {
                            let r = catch_unwind(AssertUnwindSafe(j));
                            let msg = r.err().map(|e| panic_message(&*e));
                            w2.thread_end(tid, msg);
                        }
                    }
                }
                CUR.with(|c| *c.borrow_mut() = None);
            })
            .unwrap();
        let handle = h.thread().clone();
        Worker { go, handle, job }
    }

    fn assign(self: &Arc<Self>, job: Job, clock: Vec<u32>) -> usize {
        let inner = unsafe { &mut *self.inner.get() };
        let tid = match inner.slots.iter().position(|s| s.status == Status::Idle) {
            Some(t) => t,
            None => {
                let t = inner.slots.len();
                inner.slots.push(Slot {
                    status: Status::Idle,
                    pending: Op { kind: Kind::Begin, obj: 0 },
                    ready: None,
                    yielded: false,
                    clock: Vec::new(),
                });
                let w = self.spawn_worker(t);
                inner.workers.push(w);
                t
            }
        };
        *inner.workers[tid].job.lock().unwrap() = Some(job);
        let s = &mut inner.slots[tid];
        s.status = Status::Active;
        s.pending = Op { kind: Kind::Begin, obj: 0 };
        s.ready = None;
        s.yielded = false;
        s.clock = clock;
        inner.nactive += 1;
        tid
    }

    fn fork(self: &Arc<Self>, me: usize, job: Job) -> usize {
        let clock = unsafe { (&(*self.inner.get()).slots)[me].clock.clone() };
        self.assign(job, clock)
    }

    fn join_child(self: &Arc<Self>, me: usize, child: usize) {
        let w = self.clone();
        let ready = move || unsafe { (&(*w.inner.get()).slots)[child].status == Status::Finished };
        self.sched_point(me, Op { kind: Kind::Join, obj: child }, Some(&ready), false);
        let inner = unsafe { &mut *self.inner.get() };
        let cc = inner.slots[child].clock.clone();
        join_clock(&mut inner.slots[me].clock, &cc);
        // a finished child keeps its slot until the end of the execution: thread ids are never reused in one
    }

    fn sched_point(self: &Arc<Self>, me: usize, op: Op, ready: Option<&dyn Fn() -> bool>, yielded: bool) {
        let inner = unsafe { &mut *self.inner.get() };
        {
            let s = &mut inner.slots[me];
            s.pending = op;
            s.ready = ready.map(|r| unsafe {
                std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(r as *const _)
            });
            s.yielded = yielded;
        }
        self.dispatch(Some(me));
        // it is our turn
        let inner = unsafe { &mut *self.inner.get() };
        let s = &mut inner.slots[me];
        s.ready = None;
        s.yielded = false;
    }

    fn thread_end(self: &Arc<Self>, me: usize, panic: Option<String>) {
        let inner = unsafe { &mut *self.inner.get() };
        inner.slots[me].status = Status::Finished;
        inner.slots[me].ready = None;
        if let Some(p) = panic {
            inner.panics.push((me, p));
        }
        inner.nactive -= 1;
        if inner.nactive == 0 {
            self.finish(Outcome::Done);
            return;
        }
        self.dispatch(None);
    }

    fn finish(&self, o: Outcome) {
        let inner = unsafe { &mut *self.inner.get() };
        if inner.finished.is_none() {
            inner.finished = Some(o);
        }
        *self.done.lock().unwrap() = true;
        self.done_cv.notify_all();
    }

    /// Pick the next thread and hand the baton over.  `me` is the calling thread when it waits at a scheduling
    /// point (None when it has finished).
    fn dispatch(self: &Arc<Self>, me: Option<usize>) {
        let inner = unsafe { &mut *self.inner.get() };
        let mut enabled: Vec<usize> = Vec::with_capacity(inner.slots.len());
        let mut nact = 0;
        for (t, s) in inner.slots.iter().enumerate() {
            if s.status == Status::Active {
                nact += 1;
                let r = match s.ready {
                    None => true,
                    Some(p) => unsafe { (*p)() },
                };
                if r {
                    enabled.push(t);
                }
            }
        }
        if enabled.is_empty() {
            let mut d = String::new();
            for (t, s) in inner.slots.iter().enumerate() {
                if s.status == Status::Active {
                    d.push_str(&format!("[thread {} waits for {:?}] ", t, s.pending.kind));
                }
            }
            let _ = nact;
            self.finish(Outcome::Deadlock(d));
            if me.is_some() {
                park_forever();
            }
            return;
        }
        // a thread that yielded goes last
        if enabled.len() > 1 && enabled.iter().any(|&t| !inner.slots[t].yielded) {
            enabled.retain(|&t| !inner.slots[t].yielded);
        }
        inner.steps += 1;
        if inner.steps > inner.step_limit {
            self.finish(Outcome::StepLimit);
            if me.is_some() {
                park_forever();
            }
            return;
        }
        let cur_enabled = me.filter(|m| enabled.contains(m));
        let mut strat = inner.strategy.take().expect("strategy");
        let next = {
            let view = View {
                slots: &inner.slots,
                enabled: &enabled,
                current: cur_enabled,
                preemptions: inner.preemptions,
                step: inner.schedule.len(),
            };
            strat.choose(&view)
        };
        debug_assert!(enabled.contains(&next));
        if let Some(m) = cur_enabled {
            if m != next {
                inner.preemptions += 1;
            }
        }
        inner.schedule.push(next as u8);
        // happens-before: the operation is performed now
        let op = inner.slots[next].pending;
        let idx = inner.schedule.len() as u32;
        if matches!(op.kind, Kind::Read | Kind::Write | Kind::Wait) {
            let o = inner.objs.entry(op.obj).or_default();
            let slot = &mut inner.slots[next];
            join_clock(&mut slot.clock, &o.write);
            if op.kind != Kind::Read {
                join_clock(&mut slot.clock, &o.reads);
            }
        }
        {
            let slot = &mut inner.slots[next];
            if slot.clock.len() <= next {
                slot.clock.resize(next + 1, 0);
            }
            slot.clock[next] = idx;
            if matches!(op.kind, Kind::Read | Kind::Write | Kind::Wait) {
                let c = slot.clock.clone();
                let o = inner.objs.entry(op.obj).or_default();
                if op.kind == Kind::Read {
                    join_clock(&mut o.reads, &c);
                } else {
                    join_clock(&mut o.write, &c);
                }
            }
        }
        inner.strategy = Some(strat);
        inner.current = next;
        if me == Some(next) {
            return;
        }
        TOTAL_SWITCHES.fetch_add(1, Ordering::Relaxed);
        let mygo = me.map(|m| inner.workers[m].go.clone());
        let w = &inner.workers[next];
        w.go.store(true, Ordering::Release);
        w.handle.unpark();
        if let Some(g) = mygo {
            wait_go(&g);
        }
    }

    /// Runs the jobs as controlled threads 0..n under the strategy.
    pub fn run<'a>(
        self: &Arc<Self>,
        jobs: Vec<Box<dyn FnOnce() + Send + 'a>>,
        strategy: Box<dyn Strategy>,
        release_points: bool,
    ) -> (Exec, Box<dyn Strategy>) {
        assert!(!self.poisoned.load(Ordering::Relaxed));
        {
            let inner = unsafe { &mut *self.inner.get() };
            for s in inner.slots.iter_mut() {
                s.status = Status::Idle;
            }
            inner.nactive = 0;
            inner.schedule.clear();
            inner.steps = 0;
            inner.preemptions = 0;
            inner.panics.clear();
            inner.finished = None;
            inner.objs.clear();
            inner.strategy = Some(strategy);
            inner.release_points = release_points;
            *self.done.lock().unwrap() = false;
        }
        for j in jobs {
            let j: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(j) };
            self.assign(j, Vec::new());
        }
        self.dispatch(None);
        let mut hung = false;
        {
            let mut d = self.done.lock().unwrap();
            let t0 = Instant::now();
            while !*d {
                let (g, to) = self.done_cv.wait_timeout(d, Duration::from_secs(5)).unwrap();
                d = g;
                if to.timed_out() && t0.elapsed() > Duration::from_secs(90) {
                    hung = true;
                    break;
                }
            }
        }
        let inner = unsafe { &mut *self.inner.get() };
        let outcome = if hung { Outcome::Hang } else { inner.finished.clone().unwrap() };
        if outcome != Outcome::Done {
            self.poisoned.store(true, Ordering::Relaxed);
        }
        let strat = if hung { Box::new(Null) } else { inner.strategy.take().unwrap() };
        (
            Exec {
                outcome,
                panics: std::mem::take(&mut inner.panics),
                steps: inner.steps,
                schedule: inner.schedule.clone(),
                preemptions: inner.preemptions,
            },
            strat,
        )
    }

    /// ends the worker threads of the world
    pub fn shutdown(&self) {
        if self.poisoned.load(Ordering::Relaxed) {
            return;
        }
        let inner = unsafe { &mut *self.inner.get() };
        for w in inner.workers.drain(..) {
            *w.job.lock().unwrap() = None;
            w.go.store(true, Ordering::Release);
            w.handle.unpark();
        }
        inner.slots.clear();
    }
}

fn wait_go(g: &AtomicBool) {
    while !g.swap(false, Ordering::Acquire) {
        std::thread::park();
    }
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

pub fn panic_message(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

// ------------------------------------------------------------------------------------------------
// strategies

pub struct View<'a> {
    slots: &'a [Slot],
    pub enabled: &'a [usize],
    /// the thread that runs now when it can go on
    pub current: Option<usize>,
    pub preemptions: usize,
    pub step: usize,
}

pub trait Strategy: Send {
    fn choose(&mut self, v: &View) -> usize;
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

struct Null;
impl Strategy for Null {
    fn choose(&mut self, v: &View) -> usize {
        v.enabled[0]
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// follows a recorded schedule
pub struct Replay {
    pub schedule: Vec<u8>,
    pub diverged: bool,
}
impl Strategy for Replay {
    fn choose(&mut self, v: &View) -> usize {
        if let Some(&t) = self.schedule.get(v.step) {
            if v.enabled.contains(&(t as usize)) {
                return t as usize;
            }
            self.diverged = true;
        }
        v.current.unwrap_or(v.enabled[0])
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Preemption bounded depth first search.
#[derive(Default)]
pub struct PbDfs {
    pub bound: usize,
    stack: Vec<(u16, u16)>, // (number of options, index taken), at choice points with more than one option
    pos: usize,
    pub diverged: bool,
}
impl PbDfs {
    pub fn new(bound: usize) -> Self {
        PbDfs { bound, ..Default::default() }
    }
    /// moves to the next schedule; false when all have been explored
    pub fn next(&mut self) -> bool {
        if self.pos < self.stack.len() {
            self.diverged = true;
        }
        self.stack.truncate(self.pos);
        self.pos = 0;
        while let Some(last) = self.stack.last_mut() {
            if last.1 + 1 < last.0 {
                last.1 += 1;
                return true;
            }
            self.stack.pop();
        }
        false
    }
}
impl Strategy for PbDfs {
    fn choose(&mut self, v: &View) -> usize {
        let n = match v.current {
            Some(_) if v.preemptions >= self.bound => 1,
            _ => v.enabled.len(),
        };
        if n == 1 {
            return v.current.unwrap_or(v.enabled[0]);
        }
        let idx = if self.pos < self.stack.len() {
            if self.stack[self.pos].0 as usize != n {
                self.diverged = true;
                self.stack[self.pos].0 = n as u16;
                self.stack[self.pos].1 = self.stack[self.pos].1.min(n as u16 - 1);
            }
            self.stack[self.pos].1 as usize
        } else {
            self.stack.push((n as u16, 0));
            0
        };
        self.pos += 1;
        match v.current {
            Some(c) => {
                if idx == 0 {
                    c
                } else {
                    v.enabled.iter().copied().filter(|&t| t != c).nth(idx - 1).unwrap()
                }
            }
            None => v.enabled[idx],
        }
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Dynamic partial order reduction with source sets and sleep sets (Abdulla, Aronis, Jonsson, Sagonas 2014): every
/// execution up to the order of independent operations, without any bound.
#[derive(Default)]
pub struct Dpor {
    nodes: Vec<Node>,
    pos: usize,
    sleep: u64,
    pub blocked: bool,
    pub diverged: bool,
    /// first position of the current execution whose races have not been looked at in an earlier one
    fresh_from: usize,
}
struct Node {
    enabled: u64,
    chosen: usize,
    op: Op,
    backtrack: u64,
    done: u64,
    sleep: u64,
    /// clock of the chosen thread after the step
    clock: Vec<u32>,
}

impl Dpor {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn next(&mut self) -> bool {
        if self.pos < self.nodes.len() {
            // an execution shorter than its prefix: not deterministic
            self.diverged = true;
            self.nodes.truncate(self.pos);
        }
        self.pos = 0;
        self.blocked = false;
        while let Some(n) = self.nodes.last_mut() {
            let todo = n.backtrack & !n.done & !n.sleep;
            if todo != 0 {
                let t = todo.trailing_zeros() as usize;
                n.chosen = t;
                n.done |= 1 << t;
                self.fresh_from = self.nodes.len() - 1;
                return true;
            }
            self.nodes.pop();
        }
        false
    }
    /// step i happens before a thread (or step) with this clock
    fn hb(&self, i: usize, clock: &[u32]) -> bool {
        let t = self.nodes[i].chosen;
        clock.get(t).copied().unwrap_or(0) as usize > i
    }
    /// The thread p performs `op` after the k steps done so far, `clk` being its clock before: for every earlier
    /// step in race with it, makes sure that an execution with the two reversed is explored.
    fn races(&mut self, k: usize, p: usize, op: &Op, clk: &[u32]) {
        // steps on the same object that race with op and are not followed by another such step
        let mut direct: Vec<usize> = Vec::new();
        for i in (0..k).rev() {
            let n = &self.nodes[i];
            if n.op.dependent(op) {
                if n.chosen != p && !self.hb(i, clk) && !direct.iter().any(|&j| self.hb(i, &self.nodes[j].clock)) {
                    direct.push(i);
                }
                if n.op.kind == Kind::Write {
                    // everything before on this object happens before this step
                    break;
                }
            }
        }
        for i in direct {
            // v: the steps after i that do not happen after it, then p; its initials are the threads that can
            // come first in it
            let mut seen = 0u64;
            let mut initials = 0u64;
            let mut v: Vec<usize> = Vec::new();
            for j in i + 1..k {
                if self.hb(i, &self.nodes[j].clock) {
                    continue;
                }
                let q = self.nodes[j].chosen;
                if seen & (1 << q) == 0 {
                    seen |= 1 << q;
                    if !v.iter().any(|&x| self.hb(x, &self.nodes[j].clock)) {
                        initials |= 1 << q;
                    }
                }
                v.push(j);
            }
            if seen & (1 << p) == 0 && !v.iter().any(|&x| self.hb(x, clk) || self.nodes[x].op.dependent(op)) {
                initials |= 1 << p;
            }
            let n = &mut self.nodes[i];
            if initials & n.backtrack != 0 {
                continue;
            }
            let c = initials & n.enabled;
            if c == 0 {
                n.backtrack |= n.enabled;
            } else if c & (1 << p) != 0 {
                n.backtrack |= 1 << p;
            } else {
                n.backtrack |= 1 << c.trailing_zeros();
            }
        }
    }
}

impl Strategy for Dpor {
    fn choose(&mut self, v: &View) -> usize {
        if self.blocked {
            // redundant execution: just run to the end
            return v.current.unwrap_or(v.enabled[0]);
        }
        let k = self.pos;
        if k > 0 {
            // the clock of the thread of the last step was updated when the step was dispatched
            let t = self.nodes[k - 1].chosen;
            if self.nodes[k - 1].clock != v.slots[t].clock {
                self.nodes[k - 1].clock = v.slots[t].clock.clone();
            }
        }
        // sleep set at this node
        let mut enabled = 0u64;
        for &t in v.enabled {
            enabled |= 1 << t;
        }
        let mut out = 0u64;
        if k > 0 {
            let n = &self.nodes[k - 1];
            let mut s = n.sleep | (n.done & !(1 << n.chosen));
            while s != 0 {
                let t = s.trailing_zeros() as usize;
                s &= s - 1;
                if t < v.slots.len() && t != n.chosen && v.slots[t].status == Status::Active && !v.slots[t].pending.dependent(&n.op) {
                    out |= 1 << t;
                }
            }
        }
        self.sleep = out;
        let chosen;
        if k < self.nodes.len() && (self.nodes[k].enabled != enabled || enabled & (1 << self.nodes[k].chosen) == 0) {
            self.diverged = true;
            self.nodes.truncate(k);
        }
        if k < self.nodes.len() {
            chosen = self.nodes[k].chosen;
            self.nodes[k].op = v.slots[chosen].pending;
        } else {
            let avail = enabled & !self.sleep;
            if avail == 0 {
                // everything from here on has been explored elsewhere: run to the end without recording
                self.blocked = true;
                return v.current.unwrap_or(v.enabled[0]);
            }
            chosen = match v.current {
                Some(c) if avail & (1 << c) != 0 => c,
                _ => avail.trailing_zeros() as usize,
            };
            self.nodes.push(Node {
                enabled,
                chosen,
                op: v.slots[chosen].pending,
                backtrack: 1 << chosen,
                done: 1 << chosen,
                sleep: self.sleep,
                clock: Vec::new(),
            });
        }
        if k >= self.fresh_from {
            let op = v.slots[chosen].pending;
            if matches!(op.kind, Kind::Read | Kind::Write) {
                let clk = v.slots[chosen].clock.clone();
                self.races(k, chosen, &op, &clk);
            }
        }
        self.pos += 1;
        chosen
    }
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

// ------------------------------------------------------------------------------------------------
// drivers

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Dpor,
    Pb(usize),
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub max_steps: usize,
    pub exhausted: bool,
    pub redundant: u64,
    pub diverged: u64,
}

pub struct Failure {
    pub what: String,
    pub schedule: Vec<u8>,
}

/// Explores all executions of the scenario.  `mk` builds one execution: the jobs, and a function that checks the
/// result when all jobs have ended.  Stops at the first failure.
pub fn explore<'a, F>(core: Option<usize>, mode: Mode, cap: u64, deadline: Instant, mut mk: F) -> (Stats, Option<Failure>)
where
    F: FnMut() -> (Vec<Box<dyn FnOnce() + Send + 'a>>, Box<dyn FnOnce(&Exec) -> Result<(), String> + 'a>),
{
    let mut st = Stats::default();
    let world = World::new(core);
    let mut strat: Box<dyn Strategy> = match mode {
        Mode::Dpor => Box::new(Dpor::new()),
        Mode::Pb(b) => Box::new(PbDfs::new(b)),
    };
    let mut releases = TRIED.load(Ordering::Relaxed);
    loop {
        if !releases && TRIED.load(Ordering::Relaxed) {
            releases = true;
            strat = match mode {
                Mode::Dpor => Box::new(Dpor::new()),
                Mode::Pb(b) => Box::new(PbDfs::new(b)),
            };
        }
        let (jobs, check) = mk();
        let (ex, s) = world.run(jobs, strat, releases);
        strat = s;
        st.executions += 1;
        st.steps += ex.steps as u64;
        st.max_steps = st.max_steps.max(ex.steps);
        let r = judge(&ex, check);
        if let Err(what) = r {
            world.shutdown();
            return (st, Some(Failure { what, schedule: ex.schedule }));
        }
        let more = match mode {
            Mode::Dpor => {
                let d = strat.as_any().downcast_mut::<Dpor>().unwrap();
                if d.blocked {
                    st.redundant += 1;
                }
                let m = d.next();
                if d.diverged {
                    st.diverged += 1;
                    d.diverged = false;
                }
                m
            }
            Mode::Pb(_) => {
                let d = strat.as_any().downcast_mut::<PbDfs>().unwrap();
                let m = d.next();
                if d.diverged {
                    st.diverged += 1;
                    d.diverged = false;
                }
                m
            }
        };
        if !more {
            if !releases && TRIED.load(Ordering::Relaxed) {
                continue;
            }
            st.exhausted = true;
            break;
        }
        if st.executions >= cap || Instant::now() > deadline {
            break;
        }
    }
    world.shutdown();
    (st, None)
}

pub fn judge<'a>(ex: &Exec, check: Box<dyn FnOnce(&Exec) -> Result<(), String> + 'a>) -> Result<(), String> {
    match &ex.outcome {
        Outcome::Done => {}
        Outcome::Deadlock(d) => {
            std::mem::forget(check);
            return Err(format!("deadlock: {}", d));
        }
        Outcome::StepLimit => {
            std::mem::forget(check);
            return Err("livelock: step limit exceeded".to_string());
        }
        Outcome::Hang => {
            std::mem::forget(check);
            return Err("hang: a call does not return".to_string());
        }
    }
    if let Some((t, m)) = ex.panics.first() {
        let m = format!("panic in thread {}: {}", t, m);
        std::mem::forget(check);
        return Err(m);
    }
    check(ex)
}

/// Runs one recorded schedule.
pub fn replay<'a, F>(schedule: &[u8], mut mk: F) -> Result<(), String>
where
    F: FnMut() -> (Vec<Box<dyn FnOnce() + Send + 'a>>, Box<dyn FnOnce(&Exec) -> Result<(), String> + 'a>),
{
    // the attempts made in the first run tell whether releases were scheduling points
    for releases in [false, true] {
        let world = World::new(None);
        let (jobs, check) = mk();
        let (ex, _s) = world.run(jobs, Box::new(Replay { schedule: schedule.to_vec(), diverged: false }), releases);
        let r = judge(&ex, check);
        world.shutdown();
        if r.is_err() || !TRIED.load(Ordering::Relaxed) {
            return r;
        }
    }
    Ok(())
}
