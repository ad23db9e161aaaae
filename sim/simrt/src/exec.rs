//! Scheduler: tasks, simulated worker threads (coroutines), events and the simulated clock.
use crate::alloc;
use crate::choice::{Choices, Source, Stream};
use crate::net::Net;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Per-run knobs, drawn by the harness for every run (swarm style)
#[derive(Clone, Debug)]
pub struct Config {
    /// Number of simulated executor threads
    pub workers: usize,
    /// Preempt at a preemption point with probability 1/preempt (0: never)
    pub preempt: u32,
    /// 0: FIFO, 1: random, 2: LIFO-ish, 3: mostly FIFO
    pub pick: u32,
    /// Let a due-soon event overtake runnable tasks with probability 1/hurry (0: never)
    pub hurry: u32,
    /// Abort the run after this many scheduler steps
    pub max_steps: u64,
    /// Abort the run at this simulated time (ns)
    pub max_time: u64,
    pub record: bool,
    pub verbose: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            workers: 1,
            preempt: 0,
            pick: 0,
            hurry: 0,
            max_steps: 400_000,
            max_time: 3_600_000_000_000,
            record: true,
            verbose: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wstate {
    /// Suspended between polls
    Idle,
    /// Suspended inside a poll, may continue
    Preempted,
    /// Spinning on a lock at this address
    Spin(usize),
    /// Blocked (block_on / futex / sleep) until released
    Blocked(u64),
    /// Never resumed again
    Dead,
}

struct Worker {
    co: Option<Coroutine<(), (), ()>>,
    state: Wstate,
    task: Option<usize>,
}

struct TaskEntry {
    gen: u64,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    ready: bool,
    running: bool,
    cancelled: bool,
    waker: Option<Arc<TaskWaker>>,
    label: &'static str,
    tag: u32,
}

struct TaskWaker {
    id: usize,
    gen: u64,
    run: u64,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        try_with(|s| {
            if s.run_id == self.run {
                s.make_ready(self.id, self.gen)
            }
        });
    }
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub msg: String,
    pub at: String,
    pub task: &'static str,
}

pub struct Sim {
    pub cfg: Config,
    pub choices: Choices,
    run_id: u64,
    pub now: u64,
    seq: u64,
    events: BTreeMap<(u64, u64), Box<dyn FnOnce()>>,
    tasks: Vec<TaskEntry>,
    free: Vec<usize>,
    ready: VecDeque<usize>,
    workers: Vec<Worker>,
    cur: Option<usize>,
    pub steps: u64,
    idle_step: u64,
    idle_draws: u32,
    pub switches: u64,
    pub preemptions: u64,
    hash: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub net: Net,
    pub live_tasks: usize,
    pub max_spin_ns: u64,
    /// Since when workers spin
    pub spinning: Vec<(u64, u64)>,
    pub over: bool,
    block_seq: u64,
    stop_reason: Option<Stop>,
}

thread_local! {
    static SIM: RefCell<Option<Box<Sim>>> = const { RefCell::new(None) };
    static YIELDER: Cell<*const Yielder<(), ()>> = const { Cell::new(std::ptr::null()) };
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    pub(crate) static NOW: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static HEARTBEAT: Cell<*const AtomicU64> = const { Cell::new(std::ptr::null()) };
}

static RUN_IDS: AtomicU64 = AtomicU64::new(1);

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("not inside a simulated run")))
}

pub fn try_with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    SIM.try_with(|s| {
        let mut b = s.borrow_mut();
        b.as_mut().map(|x| f(x))
    })
    .ok()
    .flatten()
}

pub(crate) fn try_with_quiet<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    SIM.try_with(|s| match s.try_borrow_mut() {
        Ok(mut b) => b.as_mut().map(|x| f(x)),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

/// Is this OS thread inside a simulated run?
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

pub(crate) fn sim_now() -> u64 {
    NOW.try_with(|n| n.get()).unwrap_or(0)
}

/// Let a watchdog see that this thread makes progress
pub fn set_heartbeat(p: &'static AtomicU64) {
    HEARTBEAT.with(|h| h.set(p as *const _));
}

fn beat() {
    HEARTBEAT.with(|h| {
        let p = h.get();
        if !p.is_null() {
            unsafe { (*p).fetch_add(1, Ordering::Relaxed) };
        }
    });
}

impl Sim {
    fn new(src: &Source, cfg: Config) -> Self {
        let choices = Choices::new(src, cfg.record);
        Sim {
            choices,
            run_id: RUN_IDS.fetch_add(1, Ordering::Relaxed),
            now: 0,
            seq: 0,
            events: BTreeMap::new(),
            tasks: Vec::new(),
            free: Vec::new(),
            ready: VecDeque::new(),
            workers: Vec::new(),
            cur: None,
            steps: 0,
            idle_step: 0,
            idle_draws: 0,
            switches: 0,
            preemptions: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            stats: BTreeMap::new(),
            log: Vec::new(),
            panics: Vec::new(),
            net: Net::default(),
            live_tasks: 0,
            max_spin_ns: 0,
            spinning: Vec::new(),
            over: false,
            block_seq: 0,
            stop_reason: None,
            cfg,
        }
    }

    pub fn mix_hash(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.hash ^= self.hash >> 29;
    }

    pub fn trace_hash(&self) -> u64 {
        self.hash
    }

    pub fn draw(&mut self, s: Stream, n: u32) -> u32 {
        alloc::uncounted(|| self.choices.draw(s, n))
    }

    pub fn chance(&mut self, s: Stream, num: u32, den: u32) -> bool {
        if num == 0 || den == 0 {
            return false;
        }
        if num >= den {
            return true;
        }
        let v = self.draw(s, den);
        v >= den.saturating_sub(num) && v != 0
    }

    pub fn count(&mut self, k: &'static str) {
        alloc::uncounted(|| *self.stats.entry(k).or_insert(0) += 1)
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        alloc::uncounted(|| {
            let t = f();
            for b in t.as_bytes().chunks(8) {
                let mut x = [0u8; 8];
                x[..b.len()].copy_from_slice(b);
                self.mix_hash(u64::from_le_bytes(x));
            }
            if self.cfg.verbose {
                let l = format!("[{:>12.6}ms #{:<6}] {}", self.now as f64 / 1e6, self.steps, t);
                self.log.push(l);
            }
        })
    }

    fn make_ready(&mut self, id: usize, gen: u64) {
        let t = &mut self.tasks[id];
        if t.gen != gen || t.ready || (t.fut.is_none() && !t.running) {
            return;
        }
        t.ready = true;
        if !t.running {
            self.ready.push_back(id);
        }
    }

    pub fn at(&mut self, at: u64, f: Box<dyn FnOnce()>) -> (u64, u64) {
        self.seq += 1;
        let at = at.max(self.now);
        let seq = self.seq;
        self.events.insert((at, seq), f);
        (at, seq)
    }

    pub fn unschedule(&mut self, key: (u64, u64)) -> Option<Box<dyn FnOnce()>> {
        self.events.remove(&key)
    }

    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    fn spawn_raw(
        &mut self,
        label: &'static str,
        fut: Pin<Box<dyn Future<Output = ()>>>,
    ) -> (usize, u64) {
        self.seq += 1;
        let gen = self.seq;
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.tasks.push(TaskEntry {
                    gen: 0,
                    fut: None,
                    ready: false,
                    running: false,
                    cancelled: false,
                    waker: None,
                    label: "",
                    tag: 0,
                });
                self.tasks.len() - 1
            }
        };
        let run = self.run_id;
        let t = &mut self.tasks[id];
        t.gen = gen;
        t.fut = Some(fut);
        t.ready = true;
        t.running = false;
        t.cancelled = false;
        t.label = label;
        t.tag = 0;
        t.waker = Some(Arc::new(TaskWaker { id, gen, run }));
        self.ready.push_back(id);
        self.live_tasks += 1;
        (id, gen)
    }

    pub(crate) fn tag_current(&mut self, tag: u32) {
        if let Some(t) = self.cur.and_then(|w| self.workers[w].task) {
            self.tasks[t].tag = tag
        }
    }

    /// Remove a task; its future is returned so that it is dropped outside the borrow
    fn retire(&mut self, id: usize) -> Option<Pin<Box<dyn Future<Output = ()>>>> {
        let t = &mut self.tasks[id];
        let f = t.fut.take();
        t.gen = 0;
        t.ready = false;
        t.running = false;
        t.waker = None;
        self.free.push(id);
        self.live_tasks -= 1;
        if let Some(p) = self.ready.iter().position(|x| *x == id) {
            self.ready.remove(p);
        }
        f
    }

    fn pick_ready(&mut self) -> Option<usize> {
        let n = self.ready.len();
        if n == 0 {
            return None;
        }
        let i = match self.cfg.pick {
            0 => 0,
            1 => self.draw(Stream::Sched, n as u32) as usize,
            2 => {
                if self.chance(Stream::Sched, 1, 4) {
                    self.draw(Stream::Sched, n as u32) as usize
                } else {
                    n - 1
                }
            }
            _ => {
                if self.chance(Stream::Sched, 1, 4) {
                    self.draw(Stream::Sched, n as u32) as usize
                } else {
                    0
                }
            }
        };
        self.ready.remove(i)
    }
}

// ---------------------------------------------------------------------------------------------
// Public helpers

pub fn now() -> u64 {
    sim_now()
}

pub fn choose(s: Stream, n: u32) -> u32 {
    let (v, endless) = with(|x| {
        x.idle_draws = if x.steps == x.idle_step { x.idle_draws + 1 } else { 0 };
        x.idle_step = x.steps;
        (x.draw(s, n), x.idle_draws > 100_000)
    });
    // Only a minimised choice sequence does this: a task that draws for ever and never waits
    if endless && in_worker() && !std::thread::panicking() {
        with(|x| drop(x.stop_reason.get_or_insert(Stop::Steps)));
        loop {
            suspend(Wstate::Dead)
        }
    }
    v
}

/// True with probability num/den; 0 (the shrunk value) is false
pub fn chance(s: Stream, num: u32, den: u32) -> bool {
    with(|x| x.chance(s, num, den))
}

pub fn count(k: &'static str) {
    try_with(|s| s.count(k));
}

#[macro_export]
macro_rules! simlog {
    ($($a:tt)*) => { $crate::with(|s| s.log(|| format!($($a)*))) };
}

/// Global event sequence number: a total order over everything the harness records
pub fn stamp() -> u64 {
    with(|s| s.next_seq())
}

pub fn schedule(delay_ns: u64, f: impl FnOnce() + 'static) -> (u64, u64) {
    with(|s| {
        let at = s.now.saturating_add(delay_ns);
        s.at(at, Box::new(f))
    })
}

/// Forget a scheduled event
pub fn unschedule(key: (u64, u64)) {
    let f = try_with(|s| s.unschedule(key)).flatten();
    drop(f);
}

/// Index used by `futures::select!` to shuffle its branches
pub fn select_index(n: usize) -> usize {
    if active() {
        try_with(|s| s.draw(Stream::Sched, n as u32) as usize).unwrap_or(0)
    } else {
        0
    }
}

pub fn in_worker() -> bool {
    CURRENT.with(|c| c.get()) != usize::MAX
}

fn suspend(state: Wstate) {
    let w = CURRENT.with(|c| c.get());
    debug_assert!(w != usize::MAX);
    let y = YIELDER.with(|y| y.get());
    with(|s| s.workers[w].state = state);
    unsafe { (*y).suspend(()) };
    // Thread locals were changed by whoever ran meanwhile
    YIELDER.with(|c| c.set(y));
    CURRENT.with(|c| c.set(w));
}

/// A point inside a poll at which the simulated thread may lose the processor
pub fn preempt(_what: &'static str) {
    if !active() || !in_worker() || std::thread::panicking() {
        return;
    }
    beat();
    let act = with(|s| {
        s.steps += 1;
        if s.steps > s.cfg.max_steps {
            s.stop_reason.get_or_insert(Stop::Steps);
            return 2;
        }
        if s.workers.len() < 2 || s.cfg.preempt == 0 {
            return 0;
        }
        let p = s.cfg.preempt;
        if s.chance(Stream::Sched, 1, p) {
            s.preemptions += 1;
            1
        } else {
            0
        }
    });
    match act {
        1 => suspend(Wstate::Preempted),
        2 => loop {
            suspend(Wstate::Dead)
        },
        _ => {}
    }
}

/// Called by the spin lock when it finds the lock at `addr` taken
pub fn spin_wait(addr: usize) {
    if !active() {
        std::hint::spin_loop();
        return;
    }
    if !in_worker() {
        panic!("spin lock contended outside a simulated worker");
    }
    let (t0, id) = with(|s| {
        s.count("spin_contended");
        s.steps += 1;
        let id = s.steps;
        s.spinning.push((id, s.now));
        (s.now, id)
    });
    suspend(Wstate::Spin(addr));
    with(|s| {
        s.spinning.retain(|x| x.0 != id);
        let d = s.now - t0;
        if d > s.max_spin_ns {
            s.max_spin_ns = d
        }
    });
}

/// The longest time a worker has been spinning on a lock
pub fn longest_spin_ns() -> u64 {
    with(|s| s.spinning.iter().map(|x| s.now - x.1).max().unwrap_or(0).max(s.max_spin_ns))
}

/// Called by the spin lock when it releases the lock at `addr`
pub fn spin_release(addr: usize) {
    if !active() {
        return;
    }
    try_with(|s| {
        for w in s.workers.iter_mut() {
            if w.state == Wstate::Spin(addr) {
                w.state = Wstate::Preempted;
            }
        }
    });
    preempt("spin_release");
}

/// Block the current worker until `release(token)`
pub fn new_block_token() -> u64 {
    with(|s| {
        s.block_seq += 1;
        s.block_seq
    })
}

pub fn block(token: u64) {
    if in_worker() {
        suspend(Wstate::Blocked(token));
    } else {
        panic!("blocking call outside a simulated worker");
    }
}

pub fn release(token: u64) {
    try_with(|s| {
        for w in s.workers.iter_mut() {
            if w.state == Wstate::Blocked(token) {
                w.state = Wstate::Preempted;
            }
        }
    });
}

/// Occupy the current worker for some simulated time, as slow synchronous code does
pub fn busy(ns: u64) {
    if ns == 0 || !active() || !in_worker() {
        return;
    }
    let tok = new_block_token();
    schedule(ns, move || release(tok));
    block(tok);
}

/// Used by the futex hook: let others run, then try again
pub(crate) fn futex_yield() {
    if in_worker() && !std::thread::panicking() {
        with(|s| {
            s.count("futex_wait");
            s.steps += 1;
        });
        let tok = new_block_token();
        // Let every other worker have a chance, then retry 1us later
        schedule(1_000, move || release(tok));
        block(tok);
    }
}

// ---------------------------------------------------------------------------------------------
// Tasks

enum JoinState<T> {
    Running(Option<Waker>),
    Done(T),
    Panicked,
    Cancelled,
    Taken,
}

pub struct Task<T> {
    id: usize,
    gen: u64,
    st: Arc<Mutex<JoinState<T>>>,
    detached: bool,
}

impl<T> std::fmt::Debug for Task<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Task({})", self.id)
    }
}

unsafe impl<T: Send> Send for Task<T> {}
unsafe impl<T: Send> Sync for Task<T> {}

struct Wrap<F: Future> {
    fut: Option<Pin<Box<F>>>,
    st: Arc<Mutex<JoinState<F::Output>>>,
}

fn finish<T>(st: &Arc<Mutex<JoinState<T>>>, v: JoinState<T>) {
    let w = {
        let mut g = st.lock().unwrap();
        let w = match &mut *g {
            JoinState::Running(w) => w.take(),
            _ => None,
        };
        *g = v;
        w
    };
    if let Some(w) = w {
        w.wake()
    }
}

impl<F: Future> Future for Wrap<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let f = match this.fut.as_mut() {
            Some(f) => f,
            None => return Poll::Ready(()),
        };
        match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                this.fut = None;
                finish(&this.st, JoinState::Done(v));
                Poll::Ready(())
            }
            Err(_) => {
                let (msg, at) = LAST_PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or_default();
                try_with(|s| {
                    let label = s
                        .cur
                        .and_then(|w| s.workers[w].task)
                        .map(|t| s.tasks[t].label)
                        .unwrap_or("");
                    s.log(|| format!("PANIC in {label}: {msg} at {at}"));
                    alloc::uncounted(|| {
                        s.panics.push(PanicRec {
                            msg: msg.clone(),
                            at: at.clone(),
                            task: label,
                        })
                    });
                });
                // The real executor drops the future of a panicked task
                let f = this.fut.take();
                let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
                finish(&this.st, JoinState::Panicked);
                Poll::Ready(())
            }
        }
    }
}

impl<F: Future> Unpin for Wrap<F> {}

impl<F: Future> Drop for Wrap<F> {
    fn drop(&mut self) {
        if self.fut.is_some() {
            self.fut = None;
            finish(&self.st, JoinState::Cancelled);
        }
    }
}

/// Remember message and place of panics of this thread instead of printing them
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if active() {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, at)));
        } else {
            old(info)
        }
    }));
}

/// Who the running task works for: set by the task itself, or by reading from a tagged connection
pub fn set_task_tag(tag: u32) {
    with(|s| s.tag_current(tag))
}

pub fn task_tag() -> u32 {
    with(|s| {
        s.cur
            .and_then(|w| s.workers[w].task)
            .map_or(0, |t| s.tasks[t].tag)
    })
}

pub fn spawn_labeled<F>(label: &'static str, fut: F) -> Task<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let st = Arc::new(Mutex::new(JoinState::Running(None)));
    let w = Wrap {
        fut: Some(Box::pin(fut)),
        st: st.clone(),
    };
    let b: Pin<Box<dyn Future<Output = ()>>> = Box::pin(w);
    let (id, gen) = with(|s| s.spawn_raw(label, b));
    preempt("spawn");
    Task {
        id,
        gen,
        st,
        detached: false,
    }
}

pub fn spawn<F>(fut: F) -> Task<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_labeled("task", fut)
}

fn cancel_task(id: usize, gen: u64) {
    let f = try_with(|s| {
        if s.tasks[id].gen != gen {
            return None;
        }
        if s.tasks[id].running {
            // Dropped by the worker when its poll returns
            s.tasks[id].cancelled = true;
            None
        } else {
            s.retire(id)
        }
    })
    .flatten();
    drop(f);
}

impl<T> Task<T> {
    pub fn detach(mut self) {
        self.detached = true;
    }

    /// Stop the task; resolves to its output if it had finished
    pub async fn cancel(mut self) -> Option<T> {
        self.detached = true;
        cancel_task(self.id, self.gen);
        std::future::poll_fn(|cx| {
            let mut g = self.st.lock().unwrap();
            match std::mem::replace(&mut *g, JoinState::Taken) {
                JoinState::Running(_) => {
                    *g = JoinState::Running(Some(cx.waker().clone()));
                    Poll::Pending
                }
                JoinState::Done(v) => Poll::Ready(Some(v)),
                _ => Poll::Ready(None),
            }
        })
        .await
    }

    pub fn cancel_now(mut self) {
        self.detached = true;
        cancel_task(self.id, self.gen);
    }

    pub fn is_finished(&self) -> bool {
        !matches!(&*self.st.lock().unwrap(), JoinState::Running(_))
    }

    pub fn panicked(&self) -> bool {
        matches!(&*self.st.lock().unwrap(), JoinState::Panicked)
    }

    pub fn take(&self) -> Option<T> {
        let mut g = self.st.lock().unwrap();
        if let JoinState::Done(_) = &*g {
            if let JoinState::Done(v) = std::mem::replace(&mut *g, JoinState::Taken) {
                return Some(v);
            }
        }
        None
    }
}

impl<T> Drop for Task<T> {
    fn drop(&mut self) {
        if !self.detached {
            cancel_task(self.id, self.gen)
        }
    }
}

impl<T> Future for Task<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut g = self.st.lock().unwrap();
        match std::mem::replace(&mut *g, JoinState::Taken) {
            JoinState::Running(_) => {
                *g = JoinState::Running(Some(cx.waker().clone()));
                Poll::Pending
            }
            JoinState::Done(v) => Poll::Ready(v),
            JoinState::Panicked => {
                drop(g);
                panic!("task has failed")
            }
            JoinState::Cancelled => {
                drop(g);
                panic!("task was cancelled")
            }
            JoinState::Taken => {
                drop(g);
                panic!("task polled after completion")
            }
        }
    }
}

struct BlockWaker {
    tok: u64,
    set: std::sync::atomic::AtomicBool,
}
impl Wake for BlockWaker {
    fn wake(self: Arc<Self>) {
        self.set.store(true, Ordering::SeqCst);
        release(self.tok);
    }
}

/// Drive a future on the current simulated worker, blocking it
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    if !active() || !in_worker() {
        panic!("block_on outside a simulated worker");
    }
    loop {
        let bw = Arc::new(BlockWaker {
            tok: new_block_token(),
            set: std::sync::atomic::AtomicBool::new(false),
        });
        let w: Waker = bw.clone().into();
        let mut cx = Context::from_waker(&w);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        if !bw.set.load(Ordering::SeqCst) {
            block(bw.tok);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Workers and the scheduler loop

fn worker_body(w: usize, y: &Yielder<(), ()>) {
    let yp = y as *const _;
    YIELDER.with(|c| c.set(yp));
    CURRENT.with(|c| c.set(w));
    loop {
        let job = with(|s| {
            let id = s.workers[w].task?;
            let t = &mut s.tasks[id];
            t.ready = false;
            t.running = true;
            let f = t.fut.take();
            let wk = t.waker.clone();
            Some((id, t.gen, f, wk))
        });
        if let Some((id, gen, Some(mut f), Some(wk))) = job {
            let waker: Waker = wk.into();
            let mut cx = Context::from_waker(&waker);
            let r = f.as_mut().poll(&mut cx);
            let done = r.is_ready();
            let dropped = with(|s| {
                s.workers[w].task = None;
                let t = &mut s.tasks[id];
                debug_assert_eq!(t.gen, gen);
                t.running = false;
                if done || t.cancelled {
                    t.ready = false;
                    s.retire(id);
                    Some(f)
                } else {
                    t.fut = Some(f);
                    if t.ready {
                        s.ready.push_back(id);
                    }
                    None
                }
            });
            drop(dropped);
        }
        if with(|s| s.over) {
            return;
        }
        suspend(Wstate::Idle);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The main task finished
    Done,
    /// Nothing can run and no event is pending
    Quiescent,
    Steps,
    Time,
}

enum Act {
    Resume(usize),
    Event(Box<dyn FnOnce()>),
    Stop(Stop),
}

fn decide(s: &mut Sim, done: &dyn Fn() -> bool) -> Act {
    if let Some(r) = s.stop_reason {
        return Act::Stop(r);
    }
    if done() {
        return Act::Stop(Stop::Done);
    }
    s.steps += 1;
    if s.steps > s.cfg.max_steps {
        return Act::Stop(Stop::Steps);
    }
    // Options: continue a preempted worker, or give a ready task to an idle one
    let mut opts: Vec<usize> = Vec::new();
    let mut idle = None;
    for (i, w) in s.workers.iter().enumerate() {
        match w.state {
            Wstate::Preempted => opts.push(i),
            Wstate::Idle => idle = idle.or(Some(i)),
            _ => {}
        }
    }
    let can_start = idle.is_some() && !s.ready.is_empty();
    let n = opts.len() + can_start as usize;
    if n > 0 {
        // Occasionally let the outside world be faster than the processor
        if s.cfg.hurry > 0 {
            let soon = s
                .events
                .keys()
                .next()
                .map_or(false, |e| e.0 <= s.now + 5_000_000);
            if soon && s.chance(Stream::Sched, 1, s.cfg.hurry) {
                let ((at, _), f) = s.events.pop_first().unwrap();
                advance(s, at);
                return Act::Event(f);
            }
        }
        let mut k = 0;
        if n > 1 {
            // Prefer a different worker than the one that was just preempted
            k = s.draw(Stream::Sched, n as u32) as usize;
        }
        if k < opts.len() {
            return Act::Resume(opts[k]);
        }
        let w = idle.unwrap();
        let id = s.pick_ready().unwrap();
        s.workers[w].task = Some(id);
        s.switches += 1;
        let g = s.tasks[id].gen;
        s.mix_hash(g.wrapping_mul(31) ^ w as u64);
        return Act::Resume(w);
    }
    match s.events.pop_first() {
        Some(((at, _), f)) => {
            if at > s.cfg.max_time {
                return Act::Stop(Stop::Time);
            }
            advance(s, at);
            Act::Event(f)
        }
        None => Act::Stop(Stop::Quiescent),
    }
}

fn advance(s: &mut Sim, at: u64) {
    if at > s.now {
        s.now = at;
        NOW.with(|n| n.set(at));
    }
    s.mix_hash(at);
}

fn run_loop(done: &dyn Fn() -> bool) -> Stop {
    loop {
        beat();
        match with(|s| decide(s, done)) {
            Act::Stop(r) => return r,
            Act::Event(f) => f(),
            Act::Resume(w) => {
                let mut co = with(|s| {
                    s.cur = Some(w);
                    s.workers[w].co.take().unwrap()
                });
                let r = co.resume(());
                CURRENT.with(|c| c.set(usize::MAX));
                with(|s| {
                    s.cur = None;
                    match r {
                        CoroutineResult::Yield(()) => {}
                        CoroutineResult::Return(()) => s.workers[w].state = Wstate::Dead,
                    }
                    s.workers[w].co = Some(co);
                });
            }
        }
    }
}

/// What is left of a run
pub struct Outcome<R> {
    pub stop: Stop,
    pub result: Option<R>,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub panics: Vec<PanicRec>,
    pub choices: Vec<Vec<u32>>,
    pub max_spin_ns: u64,
}

const STACK: usize = 512 * 1024;

/// Execute one simulated run on this thread. `cfg` is drawn by `setup` from the run's own choices.
/// `after` is called when the scheduler stopped, still inside the run.
pub fn run<R: 'static, Fut>(
    src: &Source,
    verbose: bool,
    setup: impl FnOnce(&mut Sim),
    main: impl FnOnce() -> Fut,
    after: impl FnOnce(Stop, Option<R>) -> R,
) -> Outcome<R>
where
    Fut: Future<Output = R> + 'static,
{
    let cfg = Config {
        verbose,
        ..Config::default()
    };
    SIM.with(|s| *s.borrow_mut() = Some(Box::new(Sim::new(src, cfg))));
    NOW.with(|n| n.set(0));
    ACTIVE.with(|a| a.set(true));
    with(|s| {
        setup(s);
        s.net.init();
        for i in 0..s.cfg.workers.max(1) {
            let stack = DefaultStack::new(STACK).expect("stack");
            let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| worker_body(i, y));
            s.workers.push(Worker {
                co: Some(co),
                state: Wstate::Idle,
                task: None,
            });
        }
    });
    let task = spawn_labeled("main", main());
    let stop = {
        let t = &task;
        run_loop(&|| t.is_finished())
    };
    let res = task.take();
    let res = after(stop, res);
    task.detach();
    // Wind up: workers that are between polls leave their loop; others are abandoned.
    let mut abandoned = false;
    with(|s| s.over = true);
    let nw = with(|s| s.workers.len());
    for w in 0..nw {
        let idle = with(|s| s.workers[w].state == Wstate::Idle);
        let co = with(|s| s.workers[w].co.take());
        if let Some(mut co) = co {
            if co.done() || !co.started() {
                continue;
            }
            if idle {
                with(|s| {
                    s.workers[w].task = None;
                    s.cur = Some(w)
                });
                let _ = co.resume(());
                CURRENT.with(|c| c.set(usize::MAX));
                if !co.done() {
                    abandoned = true;
                    std::mem::forget(co);
                }
            } else {
                abandoned = true;
                std::mem::forget(co);
            }
        }
    }
    if !abandoned {
        // Drop what is left; destructors may wake or spawn
        for _ in 0..8 {
            let futs: Vec<_> = with(|s| {
                s.cur = None;
                let mut v = Vec::new();
                for id in 0..s.tasks.len() {
                    if s.tasks[id].fut.is_some() {
                        v.push(s.retire(id));
                    }
                }
                v
            });
            if futs.is_empty() {
                break;
            }
            for f in futs {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
            }
        }
        loop {
            let e = with(|s| s.events.pop_first());
            match e {
                Some(e) => drop(e),
                None => break,
            }
        }
        let net = with(|s| std::mem::take(&mut s.net));
        drop(net);
    }
    ACTIVE.with(|a| a.set(false));
    let s = SIM.with(|s| s.borrow_mut().take().unwrap());
    let mut s = *s;
    let out = Outcome {
        stop,
        result: Some(res),
        steps: s.steps,
        switches: s.switches,
        preemptions: s.preemptions,
        sim_ns: s.now,
        trace_hash: s.hash,
        stats: std::mem::take(&mut s.stats),
        log: std::mem::take(&mut s.log),
        panics: std::mem::take(&mut s.panics),
        choices: s.choices.rec.iter().cloned().collect(),
        max_spin_ns: s.max_spin_ns,
    };
    if abandoned {
        std::mem::forget(s);
    }
    out
}
