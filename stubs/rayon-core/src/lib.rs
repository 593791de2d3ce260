//! Verification model of rayon-core 1.13: same API as used by `rayon` 1.12, but every scheduling
//! decision is either fixed or an explicit choice of the symbolic executor.
//!
//! * mode 0: `join` runs left then right on the calling thread, nothing is stolen;
//! * mode 1: the execution order of the two sides of a `join`, whether the right side was stolen,
//!   and the order of the tasks of a `scope` are choices (up to `budget` of them);
//! * mode 2: tasks spawned in a `scope` run as real threads of the executor.
use std::any::Any;
use std::cell::UnsafeCell;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn __sym_choice(n: u64) -> u64;
    fn __sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8, user: u64) -> u64;
    fn __sym_wait_ne(p: *const u64, v: u64);
}

pub static mut __MODE: u64 = 0;
pub static mut __THREADS: u64 = 4;
pub static mut __BUDGET: u64 = 0;

pub fn __configure(mode: u64, threads: u64, budget: u64) {
    unsafe {
        __MODE = mode;
        __THREADS = threads;
        __BUDGET = budget;
    }
}
#[inline(never)]
fn pick(n: u64) -> u64 {
    unsafe {
        if __MODE != 1 || n <= 1 || __BUDGET == 0 {
            return 0;
        }
        __BUDGET -= 1;
        __sym_choice(n)
    }
}

pub fn max_num_threads() -> usize {
    65535
}
#[inline(never)]
pub fn current_num_threads() -> usize {
    unsafe { __THREADS as usize }
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    // 0: left first, not stolen; 1: right first and stolen; 2: left first and stolen
    match pick(3) {
        0 => {
            let ra = a(FnContext::new(false));
            let rb = b(FnContext::new(false));
            (ra, rb)
        }
        1 => {
            let rb = b(FnContext::new(true));
            let ra = a(FnContext::new(false));
            (ra, rb)
        }
        _ => {
            let ra = a(FnContext::new(false));
            let rb = b(FnContext::new(true));
            (ra, rb)
        }
    }
}

type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
pub struct Scope<'scope> {
    q: UnsafeCell<Vec<Job<'scope>>>,
    /// tasks that have not ended (mode 2); the tasks hand over control explicitly
    pending: UnsafeCell<u64>,
    user: UnsafeCell<u64>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
unsafe impl<'s> Sync for Scope<'s> {}
unsafe impl<'s> Send for Scope<'s> {}
impl<'s> fmt::Debug for Scope<'s> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
struct Task<'s> {
    job: Job<'s>,
    scope: *const Scope<'s>,
}
extern "C" fn run_task(p: *mut u8) {
    unsafe {
        let t: Box<Task<'static>> = Box::from_raw(p as *mut Task<'static>);
        let sc = t.scope;
        (t.job)(&*sc);
        let s: &Scope<'static> = &*sc;
        let p = s.pending.get();
        p.write_volatile(p.read_volatile() - 1);
    }
}
impl<'scope> Scope<'scope> {
    fn new() -> Self {
        Scope { q: UnsafeCell::new(vec![]), pending: UnsafeCell::new(0), user: UnsafeCell::new(0), _m: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        unsafe {
            if __MODE == 2 {
                let (p, u) = (self.pending.get(), self.user.get());
                p.write_volatile(p.read_volatile() + 1);
                u.write_volatile(u.read_volatile() + 1);
                let u = u.read_volatile();
                let t: Box<Task<'scope>> = Box::new(Task { job: Box::new(body), scope: self });
                __sym_spawn(run_task, Box::into_raw(t) as *mut u8, u);
            } else {
                (*self.q.get()).push(Box::new(body));
            }
        }
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let n = current_num_threads();
        self.spawn(move |s| {
            for index in 0..n {
                body(s, BroadcastContext { index, n, _m: PhantomData })
            }
        });
    }
    fn complete(&self) {
        unsafe {
            if __MODE == 2 {
                loop {
                    let p = self.pending.get().read_volatile();
                    if p == 0 {
                        return;
                    }
                    __sym_wait_ne(self.pending.get(), p);
                }
            }
            loop {
                let k = (*self.q.get()).len();
                if k == 0 {
                    return;
                }
                let i = pick(k as u64) as usize;
                let j = (*self.q.get()).remove(i);
                j(self);
            }
        }
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    let r = op(&s);
    s.complete();
    r
}

pub struct ScopeFifo<'scope> {
    s: Scope<'scope>,
}
impl<'s> fmt::Debug for ScopeFifo<'s> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let p = self as *const Self as usize;
        self.s.spawn(move |_| body(unsafe { &*(p as *const ScopeFifo<'scope>) }));
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { s: Scope::new() };
    let r = op(&s);
    s.s.complete();
    r
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(|c| op(c));
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl Error for ThreadPoolBuildError {}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let old = unsafe { __THREADS };
        unsafe { __THREADS = self.n as u64 };
        let r = op();
        unsafe { __THREADS = old };
        r
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        None
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
}
