//! A drop-in replacement of `rayon-core` 1.13 for deterministic simulation.
//!
//! No worker thread is ever created.  Every fork point (`join`, `scope`,
//! `broadcast`, `spawn`) asks the *scheduler of the current OS thread*
//! (see [`sim`]) three things:
//!
//! * was the right-hand task stolen by another (virtual) worker?  A stolen
//!   task reports `FnContext::migrated() == true`, which is what makes the
//!   parallel iterators split further, so a steal changes both the execution
//!   order and the shape of the reduction tree, exactly as in real rayon;
//! * if it was stolen, which side runs first;
//! * how many (virtual) worker threads the pool has.
//!
//! Every execution produced this way is one that real rayon may produce with
//! some timing of its worker threads (granularity: a task between two fork
//! points runs without interruption).

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// The seam owned by the simulator.
pub mod sim {
    use std::cell::{Cell, RefCell};

    /// One schedule: what the virtual thread pool does.
    #[derive(Debug, Clone)]
    pub struct Schedule {
        /// Number of virtual worker threads.
        pub num_threads: usize,
        /// Probability (per mille) that the right task of a fork is stolen.
        pub steal_permille: u32,
        /// Seed of the decision stream.
        pub seed: u64,
        /// Only the first `limit` steal decisions may be `true`
        /// (used by the minimiser); later forks run sequentially.
        pub limit: u64,
        /// Indices of decisions forced to "not stolen" (minimiser).
        pub masked: Vec<u64>,
    }

    impl Schedule {
        pub fn sequential() -> Self {
            Self { num_threads: 1, steal_permille: 0, seed: 0, limit: 0, masked: Vec::new() }
        }
    }

    #[derive(Debug, Clone, Default)]
    pub struct Stats {
        pub forks: u64,
        pub steals: u64,
        pub right_first: u64,
        /// Hash of the whole decision sequence: identifies the interleaving.
        pub digest: u64,
    }

    pub(crate) struct State {
        pub sched: Schedule,
        pub rng: u64,
        pub decision: u64,
        pub stats: Stats,
    }

    thread_local! {
        pub(crate) static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
        pub(crate) static DEPTH: Cell<usize> = const { Cell::new(0) };
    }

    fn splitmix(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    impl State {
        pub(crate) fn next(&mut self) -> u64 {
            splitmix(&mut self.rng)
        }
        pub(crate) fn mix(&mut self, v: u64) {
            let mut s = self.stats.digest ^ v.wrapping_mul(0xD6E8_FEB8_6659_FD93);
            self.stats.digest = splitmix(&mut s);
        }
    }

    /// Install a schedule for the current OS thread.
    pub fn begin(sched: Schedule) {
        let rng = sched.seed ^ 0x5151_5151_5151_5151;
        STATE.with(|s| {
            *s.borrow_mut() = Some(State { sched, rng, decision: 0, stats: Stats::default() })
        });
        DEPTH.with(|d| d.set(0));
        super::INDEX.with(|i| i.set(None));
    }

    /// Remove the schedule and return what it did.
    pub fn end() -> Stats {
        STATE.with(|s| s.borrow_mut().take().map(|s| s.stats).unwrap_or_default())
    }

    /// Statistics so far.
    pub fn stats() -> Stats {
        STATE.with(|s| s.borrow().as_ref().map(|s| s.stats.clone()).unwrap_or_default())
    }

    pub(crate) enum Fork {
        /// The right task stays local: it runs after the left one.
        Local,
        /// Stolen by another worker; `true`: it finishes first.
        Stolen(bool, usize),
    }

    pub(crate) fn fork() -> Fork {
        STATE.with(|st| {
            let mut st = st.borrow_mut();
            let Some(st) = st.as_mut() else { return Fork::Local };
            st.stats.forks += 1;
            let k = st.decision;
            st.decision += 1;
            // Always draw the same number of values, so that masking one
            // decision does not shift the following ones.
            let a = st.next();
            let b = st.next();
            let c = st.next();
            let ok = st.sched.num_threads > 1
                && k < st.sched.limit
                && !st.sched.masked.contains(&k)
                && (a % 1000) < st.sched.steal_permille as u64;
            if ok {
                let first = b & 1 == 1;
                let thief = (c % st.sched.num_threads as u64) as usize;
                st.stats.steals += 1;
                st.stats.right_first += first as u64;
                st.mix(k << 1 | first as u64);
                Fork::Stolen(first, thief)
            } else {
                Fork::Local
            }
        })
    }

    pub(crate) fn pick(n: usize) -> usize {
        STATE.with(|st| {
            let mut st = st.borrow_mut();
            match st.as_mut() {
                None => 0,
                Some(st) => {
                    let v = st.next();
                    let k = st.decision;
                    st.decision += 1;
                    if st.sched.num_threads > 1 && k < st.sched.limit && !st.sched.masked.contains(&k) {
                        let r = (v % n as u64) as usize;
                        st.mix(k << 8 | r as u64);
                        r
                    } else {
                        0
                    }
                }
            }
        })
    }

    pub(crate) fn num_threads() -> usize {
        STATE.with(|s| s.borrow().as_ref().map(|s| s.sched.num_threads).unwrap_or(1))
    }
}

thread_local! {
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
}

struct Enter {
    prev: Option<usize>,
}
impl Enter {
    fn at(index: usize) -> Self {
        let prev = INDEX.with(|i| i.replace(Some(index)));
        sim::DEPTH.with(|d| d.set(d.get() + 1));
        Enter { prev }
    }
}
impl Drop for Enter {
    fn drop(&mut self) {
        INDEX.with(|i| i.set(self.prev));
        sim::DEPTH.with(|d| d.set(d.get() - 1));
    }
}

/// Runs `op` "on a worker thread"; the flag tells whether it was injected
/// from outside the pool.
fn in_worker<R>(op: impl FnOnce(bool) -> R) -> R {
    match INDEX.with(|i| i.get()) {
        Some(_) => op(false),
        None => {
            let n = current_num_threads();
            let idx = sim::pick(n.max(1));
            let _e = Enter::at(idx);
            op(true)
        }
    }
}

pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_num_threads() -> usize {
    sim::num_threads()
}
pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|i| i.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    #[inline]
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| oper_a(), move |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(|injected| match sim::fork() {
        sim::Fork::Local => {
            let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
            match ra {
                Ok(ra) => (ra, oper_b(FnContext::new(false))),
                Err(e) => {
                    // As in rayon: an unstolen right task is still executed
                    // while waiting for its latch.
                    let _ = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(false))));
                    resume_unwind(e)
                }
            }
        }
        sim::Fork::Stolen(right_first, thief) => {
            let run_b = move || {
                let _e = Enter::at(thief);
                catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(true))))
            };
            let run_a = move || catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
            let (ra, rb) = if right_first {
                let rb = run_b();
                (run_a(), rb)
            } else {
                let ra = run_a();
                (ra, run_b())
            };
            match (ra, rb) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) => resume_unwind(e),
                (_, Err(e)) => resume_unwind(e),
            }
        }
    })
}

// ---------------------------------------------------------------- scopes

type Job<'s> = Box<dyn FnOnce() + Send + 's>;

struct Base<'scope> {
    queue: RefCell<VecDeque<Job<'scope>>>,
    panic: RefCell<Option<Box<dyn Any + Send>>>,
    fifo: bool,
    _marker: PhantomData<Box<dyn FnOnce(&()) + Send + Sync + 'scope>>,
}
// SAFETY: the scope never leaves the one OS thread of the simulation.
unsafe impl Send for Base<'_> {}
unsafe impl Sync for Base<'_> {}

impl<'scope> Base<'scope> {
    fn new(fifo: bool) -> Self {
        Base { queue: RefCell::new(VecDeque::new()), panic: RefCell::new(None), fifo, _marker: PhantomData }
    }
    fn push(&self, j: Job<'scope>) {
        self.queue.borrow_mut().push_back(j);
    }
    fn drain(&self) {
        loop {
            let job = {
                let mut q = self.queue.borrow_mut();
                let n = q.len();
                if n == 0 {
                    break;
                }
                // default: LIFO (FIFO for fifo scopes); otherwise any order
                let r = sim::pick(n);
                let k = if self.fifo { r } else { n - 1 - r };
                q.remove(k).unwrap()
            };
            let n = current_num_threads().max(1);
            let _e = Enter::at(sim::pick(n));
            if let Err(e) = catch_unwind(AssertUnwindSafe(job)) {
                self.panic.borrow_mut().get_or_insert(e);
            }
        }
    }
    fn complete<R>(&self, op: impl FnOnce() -> R) -> R {
        let r = catch_unwind(AssertUnwindSafe(op));
        self.drain();
        match r {
            Err(e) => resume_unwind(e),
            Ok(r) => {
                if let Some(e) = self.panic.borrow_mut().take() {
                    resume_unwind(e)
                }
                r
            }
        }
    }
}

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    unsafe fn get(&self) -> &T {
        &*self.0
    }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident, $fifo:expr) => {
        pub struct $name<'scope> {
            base: Base<'scope>,
        }
        impl<'scope> $name<'scope> {
            fn new() -> Self {
                $name { base: Base::new($fifo) }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let p = Ptr(self as *const Self);
                self.base.push(Box::new(move || body(unsafe { p.get() })));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let p = Ptr(self as *const Self);
                let body = std::sync::Arc::new(body);
                for i in 0..current_num_threads() {
                    let p = Ptr(p.0);
                    let body = body.clone();
                    self.base.push(Box::new(move || body(unsafe { p.get() }, BroadcastContext::new(i))));
                }
            }
        }
        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}
scope_type!(Scope, spawn, false);
scope_type!(ScopeFifo, spawn_fifo, true);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_| {
        let s = Scope::new();
        s.base.complete(|| op(&s))
    })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_| {
        let s = ScopeFifo::new();
        s.base.complete(|| op(&s))
    })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    s.base.complete(|| op(&s))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::new();
    s.base.complete(|| op(&s))
}

fn detached(f: impl FnOnce()) {
    let n = current_num_threads().max(1);
    let _e = Enter::at(sim::pick(n));
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        std::process::abort();
    }
}
pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    detached(func)
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    detached(func)
}

// ------------------------------------------------------------- broadcast

pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn new(index: usize) -> Self {
        BroadcastContext { index, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads().max(1);
    let mut left: Vec<usize> = (0..n).collect();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    while !left.is_empty() {
        let i = left.remove(sim::pick(left.len()));
        let _e = Enter::at(i);
        out[i] = Some(op(BroadcastContext::new(i)));
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

// ------------------------------------------------------------------ pool

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

pub struct ThreadPool(());
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPool(sim)")
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        in_worker(|_| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn_fifo(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl Error for ThreadPoolBuildError {}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool (sim)")
    }
}

pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder(sim)")
    }
}

/// The pool size requested here is ignored: the schedule decides it.
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl fmt::Debug for ThreadPoolBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder(sim)")
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(with_pool(&ThreadPool(())))
    }
    pub fn spawn_handler<F>(self, _spawn: F) -> Self
    where
        F: FnMut(ThreadBuilder) -> std::io::Result<()>,
    {
        self
    }
    pub fn thread_name<F>(self, _closure: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _s: usize) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}
