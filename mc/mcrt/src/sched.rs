//! The scheduler: every thread that the code under test spawns, joins or waits for is run here.
//!
//! Two modes:
//!  * inline: tasks run one after another on the calling thread, the order is a choice
//!    (including "run at the moment of spawn");
//!  * threads: every task is an OS thread, only the one that holds the baton runs, and every
//!    scheduling point (spawn, join, channel operation, field operation) may pass the baton.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub type Result<T> = std::result::Result<T, Box<dyn Any + Send + 'static>>;

static NEXT_ID: AtomicUsize = AtomicUsize::new(1);
pub fn new_id() -> usize { NEXT_ID.fetch_add(1, Relaxed) }

static EXECS: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order { Fifo, Lifo, Eager, Explore }

#[derive(Clone, Copy, Debug)]
pub struct Point { pub n: usize, pub choice: usize, pub cost: usize }

#[derive(Default, Clone)]
pub struct Trace { pub prefix: Vec<usize>, pub points: Vec<Point>, pub diverged: bool }

impl Trace {
    fn choose(&mut self, n: usize, cost: usize) -> usize {
        let i = self.points.len();
        let mut c = self.prefix.get(i).copied().unwrap_or(0);
        if c >= n { self.diverged = true; c = 0; }
        self.points.push(Point { n, choice: c, cost });
        c
    }
}

thread_local! {
    static CPUS: Cell<usize> = const { Cell::new(3) };
    static ORDER: Cell<Order> = const { Cell::new(Order::Fifo) };
    static TRACE: RefCell<Trace> = RefCell::new(Trace::default());
    static ACTIVE: RefCell<Vec<Arc<Inner>>> = const { RefCell::new(Vec::new()) };
    static CTX: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static SPAWNED: Cell<usize> = const { Cell::new(0) };
}

pub fn cpus() -> usize { CPUS.with(|c| c.get()) }
/// number of tasks the code under test has spawned on this thread so far
pub fn spawned() -> usize { SPAWNED.with(|c| c.get()) }

/// runs `f` with the given number of CPUs visible and tasks run in the given order
pub fn with<R>(cpus: usize, order: Order, f: impl FnOnce() -> R) -> R {
    struct Restore(usize, Order);
    impl Drop for Restore {
        fn drop(&mut self) { CPUS.with(|c| c.set(self.0)); ORDER.with(|c| c.set(self.1)); }
    }
    let _r = Restore(CPUS.with(|c| c.get()), ORDER.with(|c| c.get()));
    CPUS.with(|c| c.set(cpus));
    ORDER.with(|c| c.set(order));
    f()
}

type Task = Box<dyn FnOnce() + Send + 'static>;

struct Inner {
    id: usize,
    pending: Mutex<VecDeque<(usize, Task)>>,
    live: AtomicUsize,
    panics: Mutex<Vec<Box<dyn Any + Send + 'static>>>,
}

pub struct Scope<'env> { inner: Arc<Inner>, _marker: PhantomData<&'env mut &'env ()> }
unsafe impl<'env> Sync for Scope<'env> {}
unsafe impl<'env> Send for Scope<'env> {}

pub struct ScopedJoinHandle<'scope, T> {
    inner: Arc<Inner>,
    id: usize,
    result: Arc<Mutex<Option<T>>>,
    done: Arc<AtomicUsize>,
    panic: Arc<Mutex<Option<Box<dyn Any + Send + 'static>>>>,
    _marker: PhantomData<&'scope ()>,
}
unsafe impl<'scope, T> Send for ScopedJoinHandle<'scope, T> {}
unsafe impl<'scope, T> Sync for ScopedJoinHandle<'scope, T> {}

pub struct ScopedThreadBuilder<'scope, 'env: 'scope> { scope: &'scope Scope<'env> }
impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
    pub fn name(self, _: String) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where F: FnOnce(&Scope<'env>) -> T + Send + 'env, T: Send + 'env { Ok(self.scope.spawn(f)) }
}

fn run_task(task: Task) { task() }

impl Inner {
    fn pop(&self, i: usize) -> Option<Task> { self.pending.lock().unwrap().remove(i).map(|t| t.1) }

    /// runs one pending task, inline mode
    fn step(&self) -> bool {
        let n = self.pending.lock().unwrap().len();
        if n == 0 { return false; }
        let i = match ORDER.with(|o| o.get()) {
            Order::Fifo | Order::Eager => 0,
            Order::Lifo => n - 1,
            Order::Explore => if n > 1 { TRACE.with(|t| t.borrow_mut().choose(n, 1)) } else { 0 },
        };
        let t = self.pop(i);
        if let Some(t) = t { run_task(t); }
        true
    }
}

impl<'env> Scope<'env> {
    pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> { ScopedThreadBuilder { scope: self } }

    pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where F: FnOnce(&Scope<'env>) -> T, F: Send + 'env, T: Send + 'env {
        SPAWNED.with(|c| c.set(c.get() + 1));
        let inner = self.inner.clone();
        let result = Arc::new(Mutex::new(None));
        let done = Arc::new(AtomicUsize::new(0));
        let panic = Arc::new(Mutex::new(None));
        let id = new_id();
        let handle = ScopedJoinHandle { inner: inner.clone(), id, result: result.clone(), done: done.clone(), panic: panic.clone(), _marker: PhantomData };
        inner.live.fetch_add(1, Relaxed);

        let scope = Scope::<'env> { inner: inner.clone(), _marker: PhantomData };
        let task = {
            let inner = inner.clone();
            move || {
                let r = catch_unwind(AssertUnwindSafe(|| f(&scope)));
                match r {
                    Ok(v) => *result.lock().unwrap() = Some(v),
                    Err(e) => {
                        // the payload is kept for join, or reported by the scope
                        *panic.lock().unwrap() = Some(Box::new("task panicked"));
                        inner.panics.lock().unwrap().push(e);
                    }
                }
                done.store(1, Relaxed);
                inner.live.fetch_sub(1, Relaxed);
            }
        };
        let task: Box<dyn FnOnce() + Send + 'env> = Box::new(task);
        // the scope does not return before the task is done
        let task: Task = unsafe { std::mem::transmute(task) };

        let ctx = CTX.with(|c| c.borrow().clone());
        if let Some((exec, _me)) = ctx {
            let tid = exec.register();
            let (cpus, exec2, iid) = (cpus(), exec.clone(), inner.id);
            std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                CPUS.with(|c| c.set(cpus));
                CTX.with(|c| *c.borrow_mut() = Some((exec2.clone(), tid)));
                exec2.start(tid);
                // a deadlock report unwinds through the task
                let _ = catch_unwind(AssertUnwindSafe(|| run_task(task)));
                CTX.with(|c| *c.borrow_mut() = None);
                exec2.finish(tid, &[Wait::Join(iid), Wait::Task(id)]);
            }).expect("thread");
            yield_point();
        } else {
            let now = match ORDER.with(|o| o.get()) {
                Order::Eager => true,
                Order::Explore => TRACE.with(|t| t.borrow_mut().choose(2, 1)) == 1,
                _ => false,
            };
            if now { run_task(task) } else { inner.pending.lock().unwrap().push_back((id, task)) }
        }
        handle
    }
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        loop {
            if self.done.load(Relaxed) == 1 { break; }
            if CTX.with(|c| c.borrow().is_some()) {
                yield_point();
                if self.done.load(Relaxed) == 1 { break; }
                block(Wait::Task(self.id), "join");
            } else {
                let i = self.inner.pending.lock().unwrap().iter().position(|t| t.0 == self.id);
                match i {
                    Some(i) => { let t = self.inner.pop(i); if let Some(t) = t { run_task(t) } },
                    None => if self.done.load(Relaxed) == 0 { panic!("mc-deadlock: a task waits for itself") }
                }
            }
        }
        match self.result.lock().unwrap().take() {
            Some(v) => Ok(v),
            None => Err(self.inner.panics.lock().unwrap().pop().unwrap_or_else(|| Box::new("task panicked")))
        }
    }
}

pub fn scope<'env, F, R>(f: F) -> Result<R> where F: FnOnce(&Scope<'env>) -> R {
    let inner = Arc::new(Inner { id: new_id(), pending: Mutex::new(VecDeque::new()), live: AtomicUsize::new(0), panics: Mutex::new(vec![]) });
    let scope = Scope::<'env> { inner: inner.clone(), _marker: PhantomData };
    ACTIVE.with(|a| a.borrow_mut().push(inner.clone()));
    let result = catch_unwind(AssertUnwindSafe(|| f(&scope)));
    if CTX.with(|c| c.borrow().is_some()) {
        while inner.live.load(Relaxed) > 0 {
            let r = catch_unwind(AssertUnwindSafe(|| block(Wait::Join(inner.id), "end of scope")));
            if r.is_err() {
                // deadlock: other threads are unwinding, and may still use data of the caller
                let t0 = std::time::Instant::now();
                while inner.live.load(Relaxed) > 0 && t0.elapsed() < Duration::from_secs(5) { std::thread::sleep(Duration::from_millis(1)); }
                if inner.live.load(Relaxed) > 0 { std::process::abort(); }
                resume_unwind(r.unwrap_err());
            }
        }
    } else {
        while inner.step() {}
    }
    ACTIVE.with(|a| { let mut a = a.borrow_mut(); if let Some(i) = a.iter().rposition(|x| x.id == inner.id) { a.remove(i); } });
    let panics: Vec<_> = inner.panics.lock().unwrap().drain(..).collect();
    match result {
        Err(e) => resume_unwind(e),
        Ok(r) => if panics.is_empty() { Ok(r) } else { Err(Box::new(panics)) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wait { Channel(usize), Join(usize), Task(usize) }

/// a scheduling point
#[inline]
pub fn yield_point() {
    if EXECS.load(Relaxed) == 0 { return; }
    yield_slow()
}
fn yield_slow() {
    let ctx = CTX.with(|c| c.borrow().clone());
    if let Some((exec, me)) = ctx { exec.yield_now(me); }
}

static FIELD_POINTS: AtomicUsize = AtomicUsize::new(0);
/// a scheduling point inside field arithmetic, used only while `with_field_points` runs
#[inline(always)]
pub fn field_point() {
    if FIELD_POINTS.load(Relaxed) == 0 { return; }
    yield_slow()
}
pub fn with_field_points<R>(f: impl FnOnce() -> R) -> R {
    FIELD_POINTS.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    FIELD_POINTS.fetch_sub(1, Relaxed);
    match r { Ok(r) => r, Err(e) => resume_unwind(e) }
}

/// waits until somebody calls `wake` with the same reason; the caller then looks again
pub fn block(w: Wait, what: &str) {
    let ctx = CTX.with(|c| c.borrow().clone());
    if let Some((exec, me)) = ctx {
        exec.block(me, w, what);
    } else {
        let scopes: Vec<_> = ACTIVE.with(|a| a.borrow().clone());
        for s in scopes.iter().rev() { if s.step() { return; } }
        panic!("mc-deadlock: {}", what);
    }
}

/// like `block`, for a wait with a time limit; true if the time is up.
/// That the time runs out first is a choice of the explorer, and what happens when nobody can run.
pub fn block_timeout(w: Wait) -> bool {
    let ctx = CTX.with(|c| c.borrow().clone());
    if let Some((exec, me)) = ctx {
        exec.block_timeout(me, w)
    } else {
        if ORDER.with(|o| o.get()) == Order::Explore && TRACE.with(|t| t.borrow_mut().choose(2, 1)) == 1 { return true; }
        let scopes: Vec<_> = ACTIVE.with(|a| a.borrow().clone());
        !scopes.iter().rev().any(|s| s.step())
    }
}

pub fn wake(w: Wait) {
    let ctx = CTX.with(|c| c.borrow().clone());
    if let Some((exec, _)) = ctx { exec.wake(w); }
}

// ---------------------------------------------------------------- threads mode

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T { Run, Blocked(Wait), Timed(Wait), TimedOut, External, Done }

struct St { current: usize, threads: Vec<T>, cvs: Vec<Arc<Condvar>>, tids: Vec<i32>, trace: Trace, deadlock: Option<String>, steps: u64 }

pub struct Exec { st: Mutex<St> }

const NOBODY: usize = usize::MAX;

impl Exec {
    fn register(&self) -> usize {
        let mut st = self.st.lock().unwrap();
        st.threads.push(T::Run);
        st.cvs.push(Arc::new(Condvar::new()));
        st.tids.push(0);
        st.threads.len() - 1
    }

    fn start(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.tids[me] = unsafe { libc::syscall(libc::SYS_gettid) as i32 };
        self.wait_turn(st, me);
    }

    fn wait_turn(&self, mut st: std::sync::MutexGuard<St>, me: usize) {
        let mut seen = (NOBODY, 0u64);
        let mut stalls = 0;
        while st.current != me {
            if st.deadlock.is_some() { let d = st.deadlock.clone().unwrap(); drop(st); panic!("mc-deadlock: {}", d); }
            let cv = st.cvs[me].clone();
            let (g, to) = cv.wait_timeout(st, Duration::from_millis(100)).unwrap();
            st = g;
            if to.timed_out() && st.current != me && st.current != NOBODY {
                // is the holder of the baton blocked on something the explorer does not control?
                let cur = st.current;
                let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", st.tids[cur])).unwrap_or_default();
                let state = stat.rsplit(") ").next().and_then(|s| s.chars().next()).unwrap_or('?');
                if state == 'S' && seen == (cur, st.steps) && st.tids[cur] != 0 { stalls += 1 } else { stalls = 0; seen = (cur, st.steps) }
                if stalls >= 3 {
                    st.threads[cur] = T::External;
                    stalls = 0;
                    let next = st.threads.iter().position(|t| *t == T::Run);
                    st.current = next.unwrap_or(NOBODY);
                    st.steps += 1;
                    if let Some(n) = next { st.cvs[n].notify_all(); }
                }
            }
        }
        if st.deadlock.is_some() { let d = st.deadlock.clone().unwrap(); drop(st); panic!("mc-deadlock: {}", d); }
    }

    fn pass(&self, mut st: std::sync::MutexGuard<St>, me: usize, why: &str) {
        st.steps += 1;
        let runs = st.threads[me] == T::Run;
        let mut enabled: Vec<usize> = if runs { vec![me] } else { vec![] };
        enabled.extend((0..st.threads.len()).filter(|i| *i != me && st.threads[*i] == T::Run));
        if enabled.is_empty() && !st.threads.iter().any(|t| *t == T::External) {
            // nothing happens any more until a time limit passes
            if let Some(i) = (0..st.threads.len()).find(|i| matches!(st.threads[*i], T::Timed(_))) {
                st.threads[i] = T::TimedOut;
                enabled.push(i);
            }
        }
        if enabled.is_empty() {
            if st.threads.iter().any(|t| *t == T::External) { st.current = NOBODY }
            else if st.threads.iter().all(|t| *t == T::Done) { st.current = NOBODY }
            else {
                st.deadlock = Some(format!("no thread can run ({})", why));
                let cvs = st.cvs.clone();
                st.current = NOBODY;
                for c in cvs { c.notify_all(); }
            }
        } else {
            let i = if enabled.len() > 1 { st.trace.choose(enabled.len(), runs as usize) } else { 0 };
            st.current = enabled[i];
            if enabled[i] != me { st.cvs[enabled[i]].notify_all(); }
        }
        if st.threads[me] == T::Done { return; }
        self.wait_turn(st, me);
    }

    fn yield_now(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        if st.threads[me] == T::External {
            st.threads[me] = T::Run;
            if st.current == NOBODY { st.current = me; }
            return self.wait_turn(st, me);
        }
        self.pass(st, me, "")
    }

    fn block(&self, me: usize, w: Wait, why: &str) {
        let mut st = self.st.lock().unwrap();
        st.threads[me] = T::Blocked(w);
        self.pass(st, me, why)
    }

    fn block_timeout(&self, me: usize, w: Wait) -> bool {
        let mut st = self.st.lock().unwrap();
        if st.trace.choose(2, 1) == 1 { return true; }
        st.threads[me] = T::Timed(w);
        self.pass(st, me, "");
        let mut st = self.st.lock().unwrap();
        let out = st.threads[me] == T::TimedOut;
        st.threads[me] = T::Run;
        out
    }

    fn wake(&self, w: Wait) {
        let mut st = self.st.lock().unwrap();
        for t in st.threads.iter_mut() { if *t == T::Blocked(w) || *t == T::Timed(w) { *t = T::Run } }
    }

    fn finish(&self, me: usize, ws: &[Wait]) {
        let mut st = self.st.lock().unwrap();
        for w in ws { for t in st.threads.iter_mut() { if *t == T::Blocked(*w) || *t == T::Timed(*w) { *t = T::Run } } }
        let was_current = st.current == me;
        st.threads[me] = T::Done;
        if was_current { self.pass(st, me, "all the other threads wait") }
        else if st.current == NOBODY {
            if let Some(n) = st.threads.iter().position(|t| *t == T::Run) { st.current = n; st.cvs[n].notify_all(); }
        }
    }
}

/// one execution of `f` with OS threads under the given choices
pub fn run_threads<R>(cpus: usize, prefix: Vec<usize>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Trace) {
    let exec = Arc::new(Exec { st: Mutex::new(St {
        current: 0, threads: vec![T::Run], cvs: vec![Arc::new(Condvar::new())],
        tids: vec![unsafe { libc::syscall(libc::SYS_gettid) as i32 }],
        trace: Trace { prefix, ..Default::default() }, deadlock: None, steps: 0,
    }) });
    EXECS.fetch_add(1, Relaxed);
    CTX.with(|c| *c.borrow_mut() = Some((exec.clone(), 0)));
    let r = with(cpus, Order::Fifo, || catch_unwind(AssertUnwindSafe(f)));
    CTX.with(|c| *c.borrow_mut() = None);
    EXECS.fetch_sub(1, Relaxed);
    ACTIVE.with(|a| a.borrow_mut().clear());
    let trace = exec.st.lock().unwrap().trace.clone();
    (r, trace)
}

/// one execution of `f` on this thread, with the order of tasks under the given choices
pub fn run_inline<R>(cpus: usize, prefix: Vec<usize>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Trace) {
    TRACE.with(|t| *t.borrow_mut() = Trace { prefix, ..Default::default() });
    let r = with(cpus, Order::Explore, || catch_unwind(AssertUnwindSafe(f)));
    ACTIVE.with(|a| a.borrow_mut().clear());
    let t = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
    (r, t)
}

/// forget scopes that a panic has left behind
pub fn reset() {
    ACTIVE.with(|a| a.borrow_mut().clear());
}

#[derive(Default, Clone, Debug)]
pub struct Explored { pub runs: usize, pub points: usize, pub max_points: usize, pub capped: bool, pub diverged: usize }

/// explores all executions with at most `bound` deviations from the default schedule
/// (with `free`, a choice among the others when the running thread waits or ends is no deviation)
pub fn explore<R>(
    threads: bool, free: bool, cpus: usize, bound: usize, max_runs: usize,
    body: &dyn Fn() -> R,
    check: &mut dyn FnMut(std::thread::Result<R>, &[usize]) -> std::result::Result<(), String>,
) -> (Explored, std::result::Result<(), String>) {
    let mut ex = Explored::default();
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, cost)) = stack.pop() {
        if ex.runs >= max_runs { ex.capped = true; break; }
        let plen = prefix.len();
        let (r, trace) = if threads { run_threads(cpus, prefix, body) } else { run_inline(cpus, prefix, body) };
        ex.runs += 1;
        ex.points += trace.points.len();
        ex.max_points = ex.max_points.max(trace.points.len());
        if trace.diverged { ex.diverged += 1; }
        let choices: Vec<usize> = trace.points.iter().map(|p| p.choice).collect();
        if let Err(e) = check(r, &choices) { return (ex, Err(format!("{} [schedule {:?}]", e, trim(&choices)))); }
        for i in (plen..trace.points.len()).rev() {
            let p = trace.points[i];
            let more = if free { p.cost } else { p.cost.max(1) };
            if cost + more > bound { continue; }
            for alt in 1..p.n {
                let mut next = choices[..i].to_vec();
                next.push(alt);
                stack.push((next, cost + more));
            }
        }
    }
    (ex, Ok(()))
}

fn trim(c: &[usize]) -> &[usize] {
    let n = c.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    &c[..n]
}
