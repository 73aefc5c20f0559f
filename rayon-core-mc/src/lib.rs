//! A stand-in for `rayon-core` used only by the verification harness.
//!
//! It has the public API that `rayon` re-exports, but runs everything on the calling OS thread.
//! Each place at which the work-stealing runtime is free to act differently is turned into a call
//! of an installable *chooser*, so a model checker can enumerate every behaviour:
//!
//! * `join(a, b)`: 0 = `a` then `b`, `b` not stolen; 1 = `a` then `b`, `b` stolen (the closure sees
//!   `migrated() == true`, which makes rayon's adaptive splitter split further); 2 = `b` is stolen and
//!   completes before `a` runs.
//! * `scope.spawn(f)`: 0 = run when the scope ends (LIFO/FIFO as documented); 1 = run at once.
//! * the number of worker threads reported by `current_num_threads()`.
//!
//! Without a chooser the behaviour is deterministic (choice 0).
//!
//! Inside `mc::interleaved` stolen halves run on OS threads of their own (one per worker index), of
//! which exactly one runs at a time: it gives up control only at `mc::yield_point()` (called by
//! the groups and the digest the harness supplies), when it finishes or when it waits for another
//! one. Every such hand-over is a call of the chooser, so preemptions *inside* tasks can be
//! enumerated as well, and thread-local state is really per worker.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Control interface for the model checker (not part of rayon-core).
pub mod mc {
    use super::*;

    pub type Chooser = fn(&'static str, u32) -> u32;

    thread_local! {
        pub(crate) static CHOOSER: Cell<Option<Chooser>> = const { Cell::new(None) };
        pub(crate) static THREADS: Cell<usize> = const { Cell::new(4) };
        pub(crate) static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
        pub(crate) static POINTS: Cell<u64> = const { Cell::new(0) };
    }

    /// Installs (or removes) the chooser for this OS thread.
    pub fn set_chooser(c: Option<Chooser>) {
        CHOOSER.with(|x| x.set(c))
    }
    /// Sets the number of worker threads reported to the code under test on this OS thread.
    pub fn set_threads(n: usize) {
        THREADS.with(|x| x.set(n.max(1)))
    }
    /// A place at which another task may be scheduled inside `interleaved`.
    pub fn yield_point() {
        inter::yield_point()
    }
    /// Runs `f` with stolen tasks on threads of their own, one running at a time.
    pub fn interleaved<T>(carry: Carry, f: impl FnOnce() -> T) -> T {
        inter::session(carry, f)
    }
    /// How often the operating system had to take over inside `interleaved`.
    pub fn fallbacks() -> u64 {
        inter::FALLBACKS.load(std::sync::atomic::Ordering::SeqCst)
    }
    /// Number of scheduling points passed on this OS thread.
    pub fn points() -> u64 {
        POINTS.with(|x| x.get())
    }
    pub(crate) fn choose(site: &'static str, n: u32) -> u32 {
        POINTS.with(|x| x.set(x.get() + 1));
        match CHOOSER.with(|x| x.get()) {
            Some(f) => f(site, n),
            None => 0,
        }
    }
    pub(crate) struct IndexGuard(Option<usize>);
    pub(crate) fn enter(ix: usize) -> IndexGuard {
        IndexGuard(INDEX.with(|x| x.replace(Some(ix))))
    }
    impl Drop for IndexGuard {
        fn drop(&mut self) {
            INDEX.with(|x| x.set(self.0))
        }
    }
    pub(crate) struct ThreadsGuard(usize);
    pub(crate) fn with_threads(n: usize) -> ThreadsGuard {
        ThreadsGuard(THREADS.with(|x| x.replace(n)))
    }
    impl Drop for ThreadsGuard {
        fn drop(&mut self) {
            THREADS.with(|x| x.set(self.0))
        }
    }
}

/// Real threads, one running at a time.
mod inter {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::mpsc::{channel, Sender};
    use std::sync::{Arc, Condvar, Mutex, MutexGuard};
    use std::thread::JoinHandle;
    use std::time::Duration;

    /// Moves the explorer's thread-local state along with the control.
    #[derive(Clone, Copy)]
    pub struct Carry {
        pub take: fn() -> Box<dyn Any + Send>,
        pub put: fn(Box<dyn Any + Send>),
        /// Called once on every worker thread.
        pub enter: fn(),
    }
    /// How often a session had to be left to the operating system. Code that holds a lock across a
    /// scheduling point makes this common; preemptions are then given up altogether.
    pub static FALLBACKS: AtomicU64 = AtomicU64::new(0);
    #[derive(Clone, Copy, PartialEq)]
    enum Task {
        Runnable,
        Waiting(usize),
        Done,
    }
    struct Job {
        id: usize,
        run: Box<dyn FnOnce() + Send>,
    }
    struct St {
        running: usize,
        tasks: Vec<Task>,
        ctx: Option<Box<dyn Any + Send>>,
        workers: Vec<Option<(Sender<Job>, JoinHandle<()>)>>,
        busy: Vec<bool>,
    }
    pub struct Sess {
        st: Mutex<St>,
        cv: Condvar,
        carry: Carry,
        progress: AtomicU64,
        /// Somebody blocked outside our control: let the operating system schedule the rest.
        free: AtomicBool,
        chooser: Option<mc::Chooser>,
        threads: usize,
    }
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static SESS: RefCell<Option<Arc<Sess>>> = const { RefCell::new(None) };
        static ME: Cell<usize> = const { Cell::new(0) };
        static HOLDS: Cell<bool> = const { Cell::new(false) };
    }
    pub fn current() -> Option<Arc<Sess>> {
        if !ON.with(|x| x.get()) {
            return None;
        }
        SESS.with(|s| s.borrow().clone())
    }
    pub fn yield_point() {
        if !ON.with(|x| x.get()) {
            return;
        }
        if let Some(s) = current() {
            s.progress.fetch_add(1, SeqCst);
            s.offer()
        }
    }
    pub fn session<T>(carry: Carry, f: impl FnOnce() -> T) -> T {
        let threads = current_num_threads();
        let s = Arc::new(Sess {
            st: Mutex::new(St {
                running: 0,
                tasks: vec![Task::Runnable],
                ctx: None,
                workers: (0..threads).map(|_| None).collect(),
                busy: (0..threads).map(|i| i == 0).collect(),
            }),
            cv: Condvar::new(),
            carry,
            progress: AtomicU64::new(0),
            free: AtomicBool::new(false),
            chooser: mc::CHOOSER.with(|c| c.get()),
            threads,
        });
        SESS.with(|x| *x.borrow_mut() = Some(s.clone()));
        ME.with(|x| x.set(0));
        HOLDS.with(|x| x.set(true));
        ON.with(|x| x.set(true));
        let r = {
            let _g = mc::enter(0);
            catch_unwind(AssertUnwindSafe(f))
        };
        ON.with(|x| x.set(false));
        SESS.with(|x| *x.borrow_mut() = None);
        let w: Vec<_> = s.lock().workers.drain(..).flatten().collect();
        for (tx, h) in w {
            drop(tx);
            let _ = h.join();
        }
        match r {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    }
    impl Sess {
        fn lock(&self) -> MutexGuard<'_, St> {
            self.st.lock().unwrap_or_else(|e| e.into_inner())
        }
        fn others(&self) -> Vec<usize> {
            let me = ME.with(|x| x.get());
            let st = self.lock();
            (0..st.tasks.len()).filter(|i| *i != me && st.tasks[*i] == Task::Runnable).collect()
        }
        fn is_free(&self) -> bool {
            self.free.load(SeqCst)
        }
        /// Voluntary scheduling point: 0 = go on.
        fn offer(&self) {
            if self.is_free() || FALLBACKS.load(SeqCst) > 100 {
                return;
            }
            let o = self.others();
            if o.is_empty() {
                return;
            }
            let c = mc::choose("preempt", 1 + o.len() as u32);
            if c > 0 {
                self.switch(o[c as usize - 1])
            }
        }
        fn give(&self, st: &mut St) {
            if HOLDS.with(|h| h.replace(false)) {
                st.ctx = Some((self.carry.take)());
            }
        }
        fn take(&self, st: &mut St) {
            if let Some(c) = st.ctx.take() {
                (self.carry.put)(c);
                HOLDS.with(|h| h.set(true));
            }
        }
        fn switch(&self, to: usize) {
            let mut st = self.lock();
            self.give(&mut st);
            st.running = to;
            self.progress.fetch_add(1, SeqCst);
            self.cv.notify_all();
            self.wait(st);
        }
        /// Until this task is scheduled again.
        fn wait(&self, mut st: MutexGuard<'_, St>) {
            let me = ME.with(|x| x.get());
            loop {
                if st.running == me && (st.ctx.is_some() || self.is_free()) {
                    self.take(&mut st);
                    return;
                }
                if self.is_free() {
                    return;
                }
                let p = self.progress.load(SeqCst);
                let (g, t) = self.cv.wait_timeout(st, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner());
                st = g;
                if t.timed_out() && self.progress.load(SeqCst) == p && !self.is_free() {
                    FALLBACKS.fetch_add(1, SeqCst);
                    self.free.store(true, SeqCst);
                    self.cv.notify_all();
                }
            }
        }
        /// The current task cannot go on: somebody else does. `first` is preferred.
        fn pass(&self, first: Option<usize>, extra: Option<usize>) -> Option<usize> {
            let mut o = self.others();
            o.extend(extra);
            if o.is_empty() {
                return None;
            }
            if let Some(i) = first.and_then(|f| o.iter().position(|x| *x == f)) {
                o[..=i].rotate_right(1)
            }
            Some(if o.len() > 1 && HOLDS.with(|h| h.get()) && !self.is_free() { o[mc::choose("next", o.len() as u32) as usize] } else { o[0] })
        }
        fn finish(&self) {
            let me = ME.with(|x| x.get());
            let parent = self.lock().tasks.iter().position(|t| *t == Task::Waiting(me));
            let to = self.pass(parent, parent);
            // the context is handed back before anybody can see that the task is done
            let mut st = self.lock();
            st.tasks[me] = Task::Done;
            if let Some(p) = parent {
                st.tasks[p] = Task::Runnable;
            }
            if let Some(w) = current_thread_index() {
                st.busy[w] = false;
            }
            self.give(&mut st);
            if let Some(to) = to {
                st.running = to;
            }
            self.progress.fetch_add(1, SeqCst);
            self.cv.notify_all();
        }
        fn await_task(&self, b: usize) {
            let me = ME.with(|x| x.get());
            loop {
                {
                    let mut st = self.lock();
                    if st.tasks[b] == Task::Done {
                        st.tasks[me] = Task::Runnable;
                        if self.is_free() && !HOLDS.with(|h| h.get()) {
                            self.take(&mut st);
                        }
                        return;
                    }
                    st.tasks[me] = Task::Waiting(b);
                    if self.is_free() {
                        drop(self.cv.wait_timeout(st, Duration::from_millis(50)));
                        continue;
                    }
                }
                match self.pass(Some(b), None) {
                    Some(to) => self.switch(to),
                    None => {
                        // cannot happen while every waiting chain ends in a runnable task
                        self.free.store(true, SeqCst);
                        self.cv.notify_all();
                    }
                }
            }
        }
        fn free_worker(&self) -> Option<usize> {
            self.lock().busy.iter().position(|b| !b)
        }
        /// Hands `run` to worker `w` as a new task.
        fn start(self: &Arc<Self>, w: usize, run: Box<dyn FnOnce() + Send>) -> usize {
            let mut st = self.lock();
            let id = st.tasks.len();
            st.tasks.push(Task::Runnable);
            st.busy[w] = true;
            if st.workers[w].is_none() {
                let (tx, rx) = channel::<Job>();
                let s = self.clone();
                let h = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        mc::CHOOSER.with(|c| c.set(s.chooser));
                        mc::set_threads(s.threads);
                        SESS.with(|x| *x.borrow_mut() = Some(s.clone()));
                        ON.with(|x| x.set(true));
                        (s.carry.enter)();
                        let _g = mc::enter(w);
                        while let Ok(j) = rx.recv() {
                            ME.with(|x| x.set(j.id));
                            HOLDS.with(|x| x.set(false));
                            s.wait(s.lock());
                            (j.run)();
                            s.finish();
                        }
                    })
                    .expect("worker thread");
                st.workers[w] = Some((tx, h));
            }
            st.workers[w].as_ref().unwrap().0.send(Job { id, run }).expect("worker gone");
            id
        }
    }
    pub fn join<A, B, RA, RB>(s: Arc<Sess>, oper_a: A, oper_b: B) -> (RA, RB)
    where
        A: FnOnce(FnContext) -> RA + Send,
        B: FnOnce(FnContext) -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let w = if s.is_free() { None } else { s.free_worker() };
        let c = if w.is_some() { mc::choose("join", 3) } else { 0 };
        if c == 0 {
            let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
            let rb = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(false))));
            return finish(ra, rb);
        }
        let mut slot: Option<Result<RB, Box<dyn Any + Send>>> = None;
        struct Ptr<T>(*mut T);
        unsafe impl<T> Send for Ptr<T> {}
        let p = Ptr(&mut slot as *mut _);
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let p = p;
            let r = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(true))));
            unsafe { *p.0 = Some(r) }
        });
        // this call does not return before the job has run
        let job: Box<dyn FnOnce() + Send> = unsafe { std::mem::transmute(job) };
        let id = s.start(w.unwrap(), job);
        if c == 2 {
            s.switch(id)
        } else {
            s.offer()
        }
        let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
        s.await_task(id);
        finish(ra, slot.expect("task has run"))
    }
}
pub use inter::Carry;

pub fn max_num_threads() -> usize {
    0xFFFF
}

pub fn current_num_threads() -> usize {
    mc::THREADS.with(|x| x.get())
}

pub fn current_thread_index() -> Option<usize> {
    mc::INDEX.with(|x| x.get())
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}

pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext {
            migrated,
            _marker: PhantomData,
        }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| oper_a(), move |_| oper_b())
}

fn thief(threads: usize) -> usize {
    let me = current_thread_index().unwrap_or(0);
    (me + 1) % threads.max(1)
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if let Some(s) = inter::current() {
        return inter::join(s, oper_a, oper_b);
    }
    let injected = current_thread_index().is_none();
    let _g = if injected { Some(mc::enter(0)) } else { None };
    let threads = current_num_threads();
    // With one worker nothing can be stolen.
    let c = if threads > 1 { mc::choose("join", 3) } else { 0 };
    match c {
        2 => {
            let rb = {
                let _t = mc::enter(thief(threads));
                catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(true))))
            };
            let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
            finish(ra, rb)
        }
        c => {
            let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
            let rb = {
                let _t = if c == 1 { Some(mc::enter(thief(threads))) } else { None };
                catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(c == 1 || injected))))
            };
            finish(ra, rb)
        }
    }
}

fn finish<RA, RB>(
    ra: Result<RA, Box<dyn Any + Send>>,
    rb: Result<RB, Box<dyn Any + Send>>,
) -> (RA, RB) {
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

// ---------------------------------------------------------------- scopes

type Job<'scope, S> = Box<dyn FnOnce(&S) + Send + 'scope>;

macro_rules! scope_type {
    ($name:ident, $fn:ident, $inplace:ident, $spawn:ident, $pop:ident) => {
        pub struct $name<'scope> {
            queue: RefCell<VecDeque<Job<'scope, $name<'scope>>>>,
            panic: RefCell<Option<Box<dyn Any + Send>>>,
        }

        // The shim never leaves the calling thread; closures handed to `spawn` may capture `&Scope`,
        // which rayon allows because its `Scope` is `Sync`.
        unsafe impl<'scope> Sync for $name<'scope> {}
        unsafe impl<'scope> Send for $name<'scope> {}

        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }

        impl<'scope> $name<'scope> {
            fn new() -> Self {
                Self {
                    queue: RefCell::new(VecDeque::new()),
                    panic: RefCell::new(None),
                }
            }
            fn exec(&self, j: Job<'scope, Self>) {
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| j(self))) {
                    let mut p = self.panic.borrow_mut();
                    if p.is_none() {
                        *p = Some(e);
                    }
                }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                if mc::choose("spawn", 2) == 1 {
                    let _t = mc::enter(thief(current_num_threads()));
                    self.exec(Box::new(body));
                } else {
                    self.queue.borrow_mut().push_back(Box::new(body));
                }
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                self.exec(Box::new(move |s: &$name<'scope>| {
                    for i in 0..n {
                        let _t = mc::enter(i);
                        body(s, BroadcastContext::at(i, n));
                    }
                }));
            }
            fn drain(&self) {
                loop {
                    let j = self.queue.borrow_mut().$pop();
                    match j {
                        Some(j) => self.exec(j),
                        None => break,
                    }
                }
            }
        }

        pub fn $fn<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R + Send,
            R: Send,
        {
            let injected = current_thread_index().is_none();
            let _g = if injected { Some(mc::enter(0)) } else { None };
            $inplace(op)
        }

        pub fn $inplace<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$name<'scope>) -> R,
        {
            let s = $name::new();
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.drain();
            let p = s.panic.borrow_mut().take();
            match (r, p) {
                (Err(e), _) => resume_unwind(e),
                (_, Some(e)) => resume_unwind(e),
                (Ok(r), None) => r,
            }
        }
    };
}

scope_type!(Scope, scope, in_place_scope, spawn, pop_back);
scope_type!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo, pop_front);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    let _t = mc::enter(thief(current_num_threads()));
    func()
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

// ---------------------------------------------------------------- broadcast

pub struct BroadcastContext<'a> {
    index: usize,
    num: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}

impl<'a> BroadcastContext<'a> {
    fn at(index: usize, num: usize) -> Self {
        BroadcastContext {
            index,
            num,
            _marker: PhantomData,
        }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.num
    }
}

impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext")
            .field("index", &self.index)
            .field("num_threads", &self.num)
            .finish()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n)
        .map(|i| {
            let _t = mc::enter(i);
            op(BroadcastContext::at(i, n))
        })
        .collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

// ---------------------------------------------------------------- pools

#[derive(Debug)]
pub struct ThreadPoolBuildError(());

impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool error")
    }
}
impl Error for ThreadPoolBuildError {}

/// Placeholder: the shim never spawns threads.
#[derive(Debug)]
pub struct ThreadBuilder(());

impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct DefaultSpawn;
#[derive(Debug)]
pub struct CustomSpawn<F>(#[allow(dead_code)] F);

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    num_threads: usize,
    _s: S,
}

impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder")
            .field("num_threads", &self.num_threads)
            .finish()
    }
}

impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}

impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder {
            num_threads: 0,
            _s: DefaultSpawn,
        }
    }
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        ThreadPoolBuilder {
            num_threads: self.num_threads,
            _s: CustomSpawn(spawn),
        }
    }
}

impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool {
            threads: if self.num_threads == 0 {
                current_num_threads()
            } else {
                self.num_threads
            },
        })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if self.num_threads != 0 {
            mc::set_threads(self.num_threads);
        }
        Ok(())
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}

#[derive(Debug)]
pub struct ThreadPool {
    threads: usize,
}

impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let _n = mc::with_threads(self.threads);
        let _i = mc::enter(0);
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.threads
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync + Send,
        R: Send,
    {
        self.install(|| broadcast(op))
    }
    pub fn join<A, B, RA, RB>(&self, oper_a: A, oper_b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(oper_a, oper_b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let _n = mc::with_threads(self.threads);
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let _n = mc::with_threads(self.threads);
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.install(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.install(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        self.install(|| broadcast(op));
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
