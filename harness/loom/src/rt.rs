//! Deterministic scheduler: real OS threads, strictly one running at a time.
//!
//! A managed execution runs `n` tasks. The running task owns the "baton" (`TURN`); it may pass it
//! on at each scheduling point, according to the execution's [`Policy`]. All bookkeeping is done
//! by the baton holder, so that it needs no locks.

use std::cell::{Cell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// How scheduling decisions are made.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Run a task until it blocks, except that the `i`-th pair `(step, k)` pre-empts the running
    /// task at scheduling point number `step` in favour of the `k`-th other runnable task.
    Preempt(Vec<(u32, u8)>),
    /// Switch to a random runnable task with probability `1/2^bits` at each scheduling point.
    Random { seed: u64, bits: u32 },
    /// PCT: random priorities with `depth` random change points among the first `len` points.
    Pct { seed: u64, depth: u32, len: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Parked,
    Done,
}

/// How an execution ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Complete,
    /// No task can run, and some are not finished.
    Deadlock,
    /// The step budget is exhausted.
    Livelock,
    /// The wall-clock limit is exhausted: a task runs without reaching a scheduling point.
    Hang,
}

struct Exec {
    n: usize,
    st: Vec<St>,
    token: Vec<bool>,
    threads: Vec<Option<std::thread::Thread>>,
    policy: Policy,
    rng: u64,
    prio: Vec<u64>,
    change: Vec<u32>,
    steps: u32,
    /// Steps since the last switch.
    streak: u32,
    budget: u32,
    next_pre: usize,
    done: Vec<u32>,
    over: Option<Outcome>,
}

struct Shared(UnsafeCell<Option<Exec>>);
unsafe impl Sync for Shared {}
static EXEC: Shared = Shared(UnsafeCell::new(None));
static TURN: AtomicUsize = AtomicUsize::new(usize::MAX);
static DEAD: AtomicBool = AtomicBool::new(false);
static FINISH: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());

const CONTROLLER: usize = usize::MAX;
/// A task that has run this many scheduling points in a row is treated as spinning.
const STREAK_MAX: u32 = 20_000;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}

#[inline]
fn me() -> usize {
    CUR.try_with(|c| c.get()).unwrap_or(usize::MAX)
}

#[inline]
fn exec() -> &'static mut Exec {
    unsafe { (*EXEC.0.get()).as_mut().unwrap() }
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545_F491_4F6C_DD1D)
}

impl Exec {
    fn others(&self, me: usize) -> Vec<usize> {
        (1..self.n)
            .map(|d| (me + d) % self.n)
            .filter(|&t| self.st[t] == St::Ready)
            .collect()
    }

    /// Picks a task to run instead of `me`, which cannot or should not go on.
    fn pick(&mut self, me: usize) -> Option<usize> {
        let o = self.others(me);
        if o.is_empty() {
            return None;
        }
        match &self.policy {
            Policy::Preempt(_) => Some(o[0]),
            Policy::Random { .. } => {
                let i = rnd(&mut self.rng) as usize % o.len();
                Some(o[i])
            }
            Policy::Pct { .. } => o.iter().copied().max_by_key(|&t| self.prio[t]),
        }
    }
}

/// Gives the baton to `to` and waits until it comes back.
fn switch(me: usize, to: usize) {
    let ex = exec();
    ex.streak = 0;
    let th = ex.threads[to].clone();
    TURN.store(to, SeqCst);
    if let Some(th) = th {
        th.unpark();
    }
    wait_turn(me);
}

fn wait_turn(me: usize) {
    while TURN.load(SeqCst) != me {
        if DEAD.load(SeqCst) {
            // The execution has been given up: this thread must never run again.
            loop {
                std::thread::park_timeout(Duration::from_secs(3600));
            }
        }
        std::thread::park_timeout(Duration::from_millis(200));
    }
}

fn give_up(me: usize, why: Outcome) -> ! {
    let ex = exec();
    ex.over = Some(why);
    DEAD.store(true, SeqCst);
    *FINISH.0.lock().unwrap() = true;
    FINISH.1.notify_all();
    let _ = me;
    loop {
        std::thread::park_timeout(Duration::from_secs(3600));
    }
}

/// A scheduling point.
#[inline]
pub fn point() {
    let m = me();
    if m != CONTROLLER && OFF.with(|o| o.get()) == 0 {
        slow_point(m);
    }
}

/// Byte that freed memory is filled with.
pub const POISON: u8 = 0xDB;

/// Called with the address of an atomic that looks like freed memory, or like a poisoned lock.
pub static FREED: std::sync::OnceLock<fn(*const u8, bool)> = std::sync::OnceLock::new();
/// State of a poisoned `saa::Lock`.
const POISONED_LOCK: usize = 64;

/// A scheduling point before an access to an atomic.
#[inline]
pub fn at<T>(p: *mut T, is_ptr: bool) {
    point();
    let n = std::mem::size_of::<T>();
    if n > 1 {
        let b = unsafe { std::slice::from_raw_parts(p.cast::<u8>(), n) };
        if b[0] == POISON && b.iter().all(|x| *x == POISON) {
            if let Some(f) = FREED.get() {
                f(p.cast(), false);
            }
        } else if is_ptr && unsafe { *p.cast::<usize>() } == POISONED_LOCK {
            if let Some(f) = FREED.get() {
                f(p.cast(), true);
            }
        }
    }
}

/// Runs `f` without scheduling points in this task.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    OFF.with(|o| o.set(o.get() + 1));
    let r = f();
    OFF.with(|o| o.set(o.get() - 1));
    r
}

fn slow_point(m: usize) {
    let ex = exec();
    ex.steps += 1;
    ex.streak += 1;
    if ex.steps > ex.budget {
        give_up(m, Outcome::Livelock);
    }
    let to = match &ex.policy {
        Policy::Preempt(v) => {
            if let Some(&(s, k)) = v.get(ex.next_pre) {
                if s <= ex.steps {
                    ex.next_pre += 1;
                    let o = ex.others(m);
                    o.get(k as usize % o.len().max(1)).copied()
                } else {
                    None
                }
            } else {
                None
            }
        }
        Policy::Random { bits, .. } => {
            let b = *bits;
            if rnd(&mut ex.rng) & ((1 << b) - 1) == 0 {
                ex.pick(m)
            } else {
                None
            }
        }
        Policy::Pct { .. } => {
            while let Some(&c) = ex.change.last() {
                if c <= ex.steps {
                    ex.change.pop();
                    // Lowest priority so far.
                    let low = ex.prio.iter().copied().min().unwrap_or(1 << 32);
                    ex.prio[m] = low.saturating_sub(1);
                } else {
                    break;
                }
            }
            match ex.pick(m) {
                Some(t) if ex.prio[t] > ex.prio[m] => Some(t),
                _ => None,
            }
        }
    };
    if let Some(t) = to {
        switch(m, t);
    } else if ex.streak > STREAK_MAX {
        yield_slow(m);
    }
}

fn yield_slow(m: usize) {
    let ex = exec();
    if let Policy::Pct { .. } = ex.policy {
        let low = ex.prio.iter().copied().min().unwrap_or(1 << 32);
        ex.prio[m] = low.saturating_sub(1);
    }
    ex.streak = 0;
    if let Some(t) = ex.pick(m) {
        switch(m, t);
    }
}

/// A point where the task cannot make progress by itself.
pub fn yield_point() {
    let m = me();
    if m == CONTROLLER || OFF.with(|o| o.get()) != 0 {
        std::thread::yield_now();
        return;
    }
    let ex = exec();
    ex.steps += 1;
    if ex.steps > ex.budget {
        give_up(m, Outcome::Livelock);
    }
    yield_slow(m);
}

pub fn yield_now() {
    yield_point();
}

/// Handle of a task or thread.
#[derive(Clone, Debug)]
pub struct Thread(Result<usize, std::thread::Thread>);

pub fn current() -> Thread {
    let m = me();
    if m == CONTROLLER {
        Thread(Err(std::thread::current()))
    } else {
        Thread(Ok(m))
    }
}

pub fn park() {
    let m = me();
    if m == CONTROLLER {
        std::thread::park();
        return;
    }
    let ex = exec();
    ex.steps += 1;
    if ex.token[m] {
        ex.token[m] = false;
        return;
    }
    ex.st[m] = St::Parked;
    match ex.pick(m) {
        Some(t) => switch(m, t),
        None => give_up(m, Outcome::Deadlock),
    }
    exec().token[m] = false;
}

impl Thread {
    pub fn unpark(&self) {
        match &self.0 {
            Err(t) => t.unpark(),
            Ok(t) => {
                if me() == CONTROLLER {
                    // A thread outside of the execution, e.g., one that is being torn down.
                    return;
                }
                let ex = exec();
                ex.token[*t] = true;
                if ex.st[*t] == St::Parked {
                    ex.st[*t] = St::Ready;
                }
            }
        }
    }
}

/// Result of an execution.
#[derive(Debug, Clone)]
pub struct Report {
    pub outcome: Outcome,
    pub steps: u32,
    /// Number of steps when each task finished.
    pub done: Vec<u32>,
    /// Tasks that had not finished.
    pub unfinished: Vec<usize>,
    pub panics: Vec<Option<String>>,
}

static PANICS: Mutex<Vec<Option<String>>> = Mutex::new(Vec::new());

pub type Task = Box<dyn FnOnce() + Send + 'static>;

/// Runs the tasks to completion under the policy. After any other outcome than `Complete` the
/// process should report and exit, as the unfinished threads are abandoned.
pub fn run(tasks: Vec<Task>, policy: Policy, budget: u32, wall: Duration) -> Report {
    assert!(!DEAD.load(SeqCst), "a previous execution was abandoned");
    let n = tasks.len();
    let mut rng = match &policy {
        Policy::Random { seed, .. } | Policy::Pct { seed, .. } => {
            seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1
        }
        Policy::Preempt(_) => 1,
    };
    for _ in 0..4 {
        rnd(&mut rng);
    }
    let mut prio: Vec<u64> = (0..n as u64).map(|i| (1 << 32) + i).collect();
    let mut change = Vec::new();
    let mut first = 0;
    match &policy {
        Policy::Pct { depth, len, .. } => {
            for i in (1..n).rev() {
                prio.swap(i, rnd(&mut rng) as usize % (i + 1));
            }
            for _ in 0..*depth {
                change.push(1 + (rnd(&mut rng) % u64::from(*len).max(1)) as u32);
            }
            change.sort_unstable_by(|a, b| b.cmp(a));
            first = (0..n).max_by_key(|&t| prio[t]).unwrap_or(0);
        }
        Policy::Random { .. } => first = rnd(&mut rng) as usize % n,
        Policy::Preempt(v) => {
            // A pre-emption at step 0 selects the first task.
            if let Some(&(0, k)) = v.first() {
                first = k as usize % n;
            }
        }
    }
    let next_pre = match &policy {
        Policy::Preempt(v) => v.iter().take_while(|x| x.0 == 0).count(),
        _ => 0,
    };
    unsafe {
        *EXEC.0.get() = Some(Exec {
            n,
            st: vec![St::Ready; n],
            token: vec![false; n],
            threads: vec![None; n],
            policy,
            rng,
            prio,
            change,
            steps: 0,
            streak: 0,
            budget,
            next_pre,
            done: vec![0; n],
            over: None,
        });
    }
    *PANICS.lock().unwrap() = vec![None; n];
    *FINISH.0.lock().unwrap() = false;
    TURN.store(CONTROLLER, SeqCst);
    let started = AtomicUsize::new(0);
    let started: &'static AtomicUsize = unsafe { std::mem::transmute(&started) };
    let mut handles = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(1 << 23)
            .spawn(move || {
                CUR.with(|c| c.set(i));
                started.fetch_add(1, SeqCst);
                wait_turn(i);
                let r = catch_unwind(AssertUnwindSafe(t));
                if let Err(e) = r {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                        .unwrap_or_else(|| "?".to_string());
                    PANICS.lock().unwrap()[i] = Some(m);
                }
                // Pass the baton on for good.
                let ex = exec();
                ex.st[i] = St::Done;
                ex.done[i] = ex.steps;
                if ex.st.iter().all(|s| *s == St::Done) {
                    CUR.with(|c| c.set(CONTROLLER));
                    ex.over = Some(Outcome::Complete);
                    *FINISH.0.lock().unwrap() = true;
                    FINISH.1.notify_all();
                } else if let Some(to) = ex.pick(i) {
                    CUR.with(|c| c.set(CONTROLLER));
                    ex.streak = 0;
                    let th = ex.threads[to].clone();
                    TURN.store(to, SeqCst);
                    if let Some(th) = th {
                        th.unpark();
                    }
                } else {
                    give_up(i, Outcome::Deadlock);
                }
            })
            .unwrap();
        exec().threads[i] = Some(h.thread().clone());
        handles.push(h);
    }
    while started.load(SeqCst) != n {
        std::thread::yield_now();
    }
    let th = exec().threads[first].clone().unwrap();
    TURN.store(first, SeqCst);
    th.unpark();

    let deadline = Instant::now() + wall;
    let mut g = FINISH.0.lock().unwrap();
    let mut hang = false;
    while !*g {
        let now = Instant::now();
        if now >= deadline {
            hang = true;
            break;
        }
        g = FINISH.1.wait_timeout(g, deadline - now).unwrap().0;
    }
    drop(g);
    if hang {
        DEAD.store(true, SeqCst);
    }
    let ex = exec();
    let outcome = if hang {
        Outcome::Hang
    } else {
        ex.over.unwrap()
    };
    let unfinished = (0..n).filter(|&t| ex.st[t] != St::Done).collect();
    let (steps, done) = (ex.steps, ex.done.clone());
    if outcome == Outcome::Complete {
        for h in handles {
            let _ = h.join();
        }
    }
    Report {
        outcome,
        steps,
        done,
        unfinished,
        panics: PANICS.lock().unwrap().clone(),
    }
}

/// Number of scheduling points so far in the current execution.
pub fn steps() -> u32 {
    if me() == CONTROLLER {
        0
    } else {
        exec().steps
    }
}

/// Index of the running task, if managed.
pub fn task() -> Option<usize> {
    let m = me();
    (m != CONTROLLER).then_some(m)
}
