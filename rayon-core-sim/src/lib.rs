//! A stand-in for rayon-core 1.13 whose every decision is the simulator's.
//!
//! Work is run by the caller, in an order and with a degree of concurrency decided by [`Hooks`].
#![allow(clippy::all)]

use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::SeqCst};

/// What the simulator provides.
pub struct Hooks {
    /// A decision among `n` alternatives.
    pub choose: fn(n: usize) -> usize,
    /// Tries to give `f(data)` to another simulated worker. Returns a ticket, or `None` if all are busy.
    pub steal: fn(data: *mut (), f: unsafe fn(*mut ())) -> Option<usize>,
    /// Blocks the calling simulated thread until the ticket's work is finished.
    pub wait: fn(ticket: usize),
    /// Gives other simulated threads a chance to run.
    pub yield_now: fn(),
    pub thread_index: fn() -> Option<usize>,
}

static HOOKS: AtomicPtr<Hooks> = AtomicPtr::new(std::ptr::null_mut());
static THREADS: AtomicUsize = AtomicUsize::new(1);

pub fn sim_install(h: &'static Hooks) {
    HOOKS.store(h as *const Hooks as *mut Hooks, SeqCst);
}

/// Sets the number of threads of every pool which does not ask for another one.
pub fn sim_set_threads(n: usize) {
    THREADS.store(n.max(1), SeqCst);
}

fn hooks() -> Option<&'static Hooks> {
    unsafe { HOOKS.load(SeqCst).as_ref() }
}

fn choose(n: usize) -> usize {
    hooks().map_or(0, |h| (h.choose)(n) % n)
}

pub fn max_num_threads() -> usize {
    0xffff
}

pub fn current_num_threads() -> usize {
    THREADS.load(SeqCst)
}

pub fn current_thread_index() -> Option<usize> {
    hooks().and_then(|h| (h.thread_index)())
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| choose(2) == 1)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    if let Some(h) = hooks() {
        (h.yield_now)();
    }
    Some(Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    yield_now()
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

impl fmt::Debug for FnContext {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FnContext").field("migrated", &self.migrated).finish()
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

type Caught<R> = Result<R, Box<dyn Any + Send>>;

struct Job<B, RB> {
    f: Option<B>,
    r: Option<Caught<RB>>,
}

unsafe fn run_job<B, RB>(p: *mut ())
where
    B: FnOnce(FnContext) -> RB,
{
    let job = &mut *(p as *mut Job<B, RB>);
    let f = job.f.take().unwrap();
    job.r = Some(catch_unwind(AssertUnwindSafe(|| f(FnContext::new(true)))));
}

fn finish<RA, RB>(ra: Caught<RA>, rb: Caught<RB>) -> (RA, RB) {
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    // As in rayon, a caller outside of the pool migrates into it.
    let outside = choose(8) == 7;
    match choose(4) {
        // not stolen: one after the other on this thread
        0 => {
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(outside))));
            if ra.is_err() {
                // rayon drops an unstolen `b` without running it
                return finish(ra, Err(Box::new("not run") as Box<dyn Any + Send>) as Caught<RB>);
            }
            let rb = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(false))));
            finish(ra, rb)
        }
        // stolen, and finished by the thief before `a` makes a step
        1 => {
            let rb = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(outside))));
            finish(ra, rb)
        }
        // stolen: both run, interleaved by the simulator
        _ => {
            let mut job = Job::<B, RB> { f: Some(b), r: None };
            let p = &mut job as *mut Job<B, RB> as *mut ();
            let ticket = hooks().and_then(|h| (h.steal)(p, run_job::<B, RB>));
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(outside))));
            match ticket {
                Some(t) => (hooks().unwrap().wait)(t),
                None => unsafe { run_job::<B, RB>(p) },
            }
            finish(ra, job.r.take().unwrap())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// scopes: tasks are queued and run in an order the simulator chooses, before the scope ends

type Task<'s, S> = Box<dyn FnOnce(&S) + Send + 's>;

macro_rules! scope_type {
    ($name:ident, $spawn:ident, $scope:ident, $in_place:ident) => {
        pub struct $name<'scope> {
            tasks: std::sync::Mutex<Vec<Task<'scope, $name<'scope>>>>,
            _marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }

        impl<'scope> $name<'scope> {
            fn new() -> Self {
                $name { tasks: std::sync::Mutex::new(Vec::new()), _marker: PhantomData }
            }

            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                if choose(4) == 3 {
                    body(self); // stolen and finished at once
                } else {
                    self.tasks.lock().unwrap().push(Box::new(body));
                }
            }

            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                for index in 0..current_num_threads() {
                    body(self, BroadcastContext::new(index));
                }
            }

            fn drain(&self) {
                loop {
                    let task = {
                        let mut q = self.tasks.lock().unwrap();
                        if q.is_empty() {
                            return;
                        }
                        let i = choose(q.len());
                        q.remove(i)
                    };
                    task(self);
                }
            }
        }

        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }

        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            $in_place(op)
        }

        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let s = $name::new();
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.drain();
            match r {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            }
        }
    };
}

scope_type!(Scope, spawn, scope, in_place_scope);
scope_type!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    func()
}

pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}

impl<'a> BroadcastContext<'a> {
    fn new(index: usize) -> Self {
        BroadcastContext { index, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}

impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|i| op(BroadcastContext::new(i))).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    for i in 0..current_num_threads() {
        op(BroadcastContext::new(i));
    }
}

// ---------------------------------------------------------------------------------------------
// pools

pub struct ThreadBuilder {
    _private: (),
}

impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}

impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError {
    _private: (),
}

impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}

impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadPool {
    threads: usize,
}

struct Restore(usize);
impl Drop for Restore {
    fn drop(&mut self) {
        THREADS.store(self.0, SeqCst);
    }
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let _r = Restore(THREADS.swap(self.threads, SeqCst));
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.threads
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        op()
    }
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    threads: usize,
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let threads = if self.threads == 0 { current_num_threads() } else { self.threads };
        Ok(ThreadPool { threads })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
