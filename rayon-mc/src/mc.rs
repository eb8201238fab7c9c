//! Controlled scheduling of parallel regions.
//!
//! Every parallel region (`par_bridge`, `join`) runs inline on the calling thread. What a real pool
//! decides - which worker pulls which item, how item executions are ordered and in what order their
//! results are combined - is decided by the controller installed on this thread. Without one,
//! items run in order.
use crate::iter::plumbing::{Folder, Reducer, UnindexedConsumer};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;

/// What the scheduler does next in a region.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Move {
    /// a worker pulls the next item from the shared iterator
    Pull,
    /// the n-th of the pulled items that have not run yet runs, on the worker (leaf) given
    Run { pos: usize, leaf: usize },
}

/// Decides schedules. All calls of one region are bracketed by `enter` and `leave`; regions nest.
pub trait Controller {
    /// region starts; returns the number of workers (leaves) it has
    fn enter(&mut self, kind: &'static str) -> usize;
    /// `pending`: numbers of pulled items that have not run, in pull order
    fn next(&mut self, pending: &[usize], exhausted: bool) -> Move;
    /// for `join`: run the second closure first
    fn swap(&mut self) -> bool;
    fn leave(&mut self);
}

/// Receives the strand structure; memory accesses between the calls belong to the strand.
pub trait Observer {
    fn region_enter(&self, frame: usize);
    fn pull(&self, item: usize);
    fn run(&self, item: usize);
    /// scheduler code runs
    fn pause(&self);
    fn region_leave(&self);
    /// names this thread's state, for `adopt` on another thread that stands in for this one
    fn state(&self) -> usize;
    fn adopt(&self, state: usize);
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static CTL: RefCell<Option<Box<dyn Controller>>> = const { RefCell::new(None) };
    // a plain cell: nothing is written after the observer has been told that a strand starts
    static OBS: Cell<Option<&'static dyn Observer>> = const { Cell::new(None) };
    // every item runs on an OS thread of its own (one at a time all the same)
    static THREADS: Cell<bool> = const { Cell::new(false) };
    // what `current_thread_index` says, and the next number nobody has had yet
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static PRE: Cell<*mut Preempt> = const { Cell::new(std::ptr::null_mut()) };
}

/// What happens before the atomic operations of the items of a region.
#[allow(missing_debug_implementations)]
pub struct Preempt {
    /// the operation before which other items run, counted over all regions; none: every one
    pub at: Option<u64>,
    /// all items that are left run there; otherwise the next one
    pub all: bool,
    /// operations so far
    pub seen: u64,
    held: Vec<usize>,
    next: Option<*mut (dyn FnMut() -> bool + 'static)>,
}
impl Preempt {
    pub fn new(at: Option<u64>, all: bool) -> Preempt {
        Preempt { at, all, seen: 0, held: Vec::new(), next: None }
    }
}
/// Installs preemption for this thread, returns the previous one.
pub fn preempt(p: *mut Preempt) -> *mut Preempt {
    PRE.with(|x| x.replace(p))
}
/// The calling item is about to perform an atomic operation. An item that holds a lock is left alone, as the others could
/// wait for it.
pub fn point() {
    let p = PRE.with(|x| x.get());
    if p.is_null() {
        return;
    }
    unsafe {
        let Some(next) = (*p).next else { return };
        if !(*p).held.is_empty() {
            return;
        }
        let hit = match (*p).at {
            Some(at) => at == (*p).seen,
            None => true,
        };
        (*p).seen += 1;
        if hit {
            // those that run now are not preempted themselves
            (*p).next = None;
            while (*next)() && (*p).all {}
            (*p).next = Some(next);
            (*p).held.clear();
        }
    }
}
/// An atomic operation has (perhaps) taken or released a lock.
pub fn lock(address: usize, taken: bool) {
    let p = PRE.with(|x| x.get());
    if p.is_null() {
        return;
    }
    unsafe {
        if (*p).next.is_none() {
            return;
        }
        (*p).held.retain(|a| *a != address);
        if taken {
            (*p).held.push(address);
        }
    }
}
/// Runs an item during which `next` runs another one.
fn preemptible<R>(next: &mut dyn FnMut() -> bool, f: impl FnOnce() -> R) -> R {
    struct Back(*mut Preempt, Option<*mut (dyn FnMut() -> bool + 'static)>, Vec<usize>);
    impl Drop for Back {
        fn drop(&mut self) {
            unsafe {
                (*self.0).next = self.1;
                (*self.0).held = std::mem::take(&mut self.2);
            }
        }
    }
    let p = PRE.with(|x| x.get());
    if p.is_null() {
        return f();
    }
    unsafe {
        // within an item that must not be preempted nothing is
        let next: *mut (dyn FnMut() -> bool + 'static) = std::mem::transmute(next as *mut (dyn FnMut() -> bool + '_));
        let _back = Back(p, (*p).next, std::mem::take(&mut (*p).held));
        (*p).next = Some(next);
        f()
    }
}

/// Under an observer every item of a region is taken for one on a worker of its own.
const MANY: usize = 16384;

pub fn threads(on: bool) -> bool {
    NEXT.with(|x| x.set(0));
    THREADS.with(|x| x.replace(on))
}

/// What belongs to the thread that a region runs on; handed to the thread of an item and back.
struct Context1 {
    active: bool,
    ctl: Option<Box<dyn Controller>>,
    obs: Option<&'static dyn Observer>,
    state: usize,
    index: Option<usize>,
    next: usize,
    pre: *mut Preempt,
}
impl Context1 {
    fn take() -> Context1 {
        let obs = OBS.with(|x| x.take());
        Context1 {
            active: ACTIVE.with(|x| x.replace(false)),
            ctl: CTL.with(|x| x.take()),
            obs,
            state: obs.map_or(0, |o| o.state()),
            index: INDEX.with(|x| x.get()),
            next: NEXT.with(|x| x.get()),
            pre: preempt(std::ptr::null_mut()),
        }
    }
    fn put(self) {
        ACTIVE.with(|x| x.set(self.active));
        CTL.with(|x| x.replace(self.ctl));
        OBS.with(|x| x.set(self.obs));
        INDEX.with(|x| x.set(self.index));
        NEXT.with(|x| x.set(self.next));
        preempt(self.pre);
    }
}
/// One thread runs at any time, the other one waits.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}

/// Runs an item as a worker does.
fn on_worker<R>(leaf: usize, f: impl FnOnce() -> R) -> R {
    struct Back(Option<usize>);
    impl Drop for Back {
        fn drop(&mut self) {
            INDEX.with(|x| x.set(self.0));
        }
    }
    let observed = OBS.with(|x| x.get()).is_some();
    let index = if observed {
        NEXT.with(|x| {
            let n = x.get();
            x.set((n + 1) % MANY);
            n
        })
    } else {
        leaf
    };
    let _back = Back(INDEX.with(|x| x.replace(Some(index))));
    if !THREADS.with(|x| x.get()) || !observed && PRE.with(|x| x.get()).is_null() {
        return f();
    }
    let give = Handed((Context1::take(), f));
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let give = give;
                let Handed((c, f)) = give;
                if let Some(o) = c.obs {
                    o.adopt(c.state);
                }
                c.put();
                THREADS.with(|x| x.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                obs(|o| o.pause());
                Handed((Context1::take(), r))
            })
            .expect("a thread for an item");
        t.join().map(|h| h.0).expect("the thread of an item")
    });
    let (mut c, r) = r;
    c.index = Some(index);
    c.put();
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Number of the worker that runs the calling item.
pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|x| x.get()).or_else(rayon_core::current_thread_index)
}

/// Installs a controller for this thread, returns the previous one.
pub fn install(c: Option<Box<dyn Controller>>) -> Option<Box<dyn Controller>> {
    ACTIVE.with(|x| x.set(c.is_some()));
    CTL.with(|x| x.replace(c))
}
pub fn observe(o: Option<&'static dyn Observer>) -> Option<&'static dyn Observer> {
    OBS.with(|x| x.replace(o))
}
// regions that the controller itself starts (operations nested at a scheduling point) run uncontrolled
fn ctl<R>(f: impl FnOnce(&mut dyn Controller) -> R) -> Option<R> {
    let mut c = CTL.with(|x| x.take())?;
    ACTIVE.with(|x| x.set(false));
    let r = f(&mut *c);
    install(Some(c));
    Some(r)
}
#[inline(always)]
fn obs(f: impl FnOnce(&'static dyn Observer)) {
    if let Some(o) = OBS.with(|x| x.get()) {
        f(o)
    }
}

pub(crate) fn bridge<I, C>(iter: I, consumer: C) -> C::Result
where
    I: Iterator,
    C: UnindexedConsumer<I::Item>,
{
    if !ACTIVE.with(|x| x.get()) {
        let mut folder = consumer.into_folder();
        for item in iter.fuse() {
            folder = on_worker(0, || folder.consume(item));
            if folder.full() {
                break;
            }
        }
        return folder.complete();
    }
    controlled(iter, consumer)
}

#[inline(never)]
fn controlled<I, C>(iter: I, consumer: C) -> C::Result
where
    I: Iterator,
    C: UnindexedConsumer<I::Item>,
{
    let anchor = 0u64;
    let frame = std::hint::black_box(&anchor) as *const u64 as usize;
    let r = controlled_inner(iter.fuse(), consumer, frame);
    std::hint::black_box(&anchor);
    r
}

/// leaves the region also when an item panics
struct Leave;
impl Drop for Leave {
    fn drop(&mut self) {
        ctl(|c| c.leave());
        obs(|o| o.region_leave());
    }
}

#[inline(never)]
fn controlled_inner<I, C>(mut iter: std::iter::Fuse<I>, consumer: C, frame: usize) -> C::Result
where
    I: Iterator,
    C: UnindexedConsumer<I::Item>,
{
    // observers see nothing of the scheduler itself: entered first, left last
    obs(|o| o.region_enter(frame));
    let _guard = Leave;
    let leaves = ctl(|c| c.enter("bridge")).unwrap().max(1);
    let mut reducers = Vec::with_capacity(leaves);
    let mut folders = Vec::with_capacity(leaves);
    for _ in 1..leaves {
        let left = consumer.split_off_left();
        reducers.push(consumer.to_reducer());
        folders.push(Some(left.into_folder()));
    }
    folders.push(Some(consumer.into_folder()));
    let mut pending: VecDeque<(usize, I::Item)> = VecDeque::new();
    let mut names: Vec<usize> = Vec::new();
    let mut pulled = 0;
    let mut exhausted = false;
    loop {
        obs(|o| o.pause());
        if exhausted && pending.is_empty() {
            break;
        }
        match ctl(|c| c.next(&names, exhausted)).unwrap() {
            Move::Pull => {
                assert!(!exhausted, "controller pulls from an exhausted region");
                obs(|o| o.pull(pulled));
                let item = iter.next();
                obs(|o| o.pause());
                match item {
                    Some(item) => {
                        pending.push_back((pulled, item));
                        names.push(pulled);
                        pulled += 1;
                    }
                    None => exhausted = true,
                }
            }
            Move::Run { pos, leaf } => {
                names.remove(pos);
                let (n, item) = pending.remove(pos).expect("controller runs an item that is not there");
                let mut folder = folders[leaf].take().expect("controller uses a worker that is not there");
                if !folder.full() {
                    // the next item, on another worker
                    let mut another = || {
                        if leaves < 2 {
                            return false;
                        }
                        let item = match pending.pop_front() {
                            Some((_, item)) => {
                                names.remove(0);
                                item
                            }
                            None if exhausted => return false,
                            None => match iter.next() {
                                Some(item) => {
                                    pulled += 1;
                                    item
                                }
                                None => {
                                    exhausted = true;
                                    return false;
                                }
                            },
                        };
                        let leaf = (leaf + 1) % leaves;
                        let folder = folders[leaf].take().expect("a worker that is not there");
                        folders[leaf] = Some(if folder.full() { folder } else { on_worker(leaf, || folder.consume(item)) });
                        true
                    };
                    folder = on_worker(leaf, || {
                        obs(|o| o.run(n));
                        let f = preemptible(&mut another, || folder.consume(item));
                        obs(|o| o.pause());
                        f
                    });
                }
                folders[leaf] = Some(folder);
            }
        }
    }
    let mut results: Vec<C::Result> = folders.into_iter().map(|f| f.unwrap().complete()).collect();
    let mut r = results.pop().unwrap();
    while let Some(left) = results.pop() {
        r = reducers.pop().unwrap().reduce(left, r);
    }
    r
}

/// Controlled `join`.
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !ACTIVE.with(|x| x.get()) {
        let ra = on_worker(0, a);
        return (ra, on_worker(0, b));
    }
    let anchor = 0u64;
    let frame = std::hint::black_box(&anchor) as *const u64 as usize;
    let r = join_inner(a, b, frame);
    std::hint::black_box(&anchor);
    r
}
#[inline(never)]
fn join_inner<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B, frame: usize) -> (RA, RB) {
    obs(|o| o.region_enter(frame));
    let _guard = Leave;
    ctl(|c| c.enter("join"));
    let swap = ctl(|c| c.swap()).unwrap();
    let a = || {
        obs(|o| o.run(0));
        let r = a();
        obs(|o| o.pause());
        r
    };
    let b = || {
        obs(|o| o.run(1));
        let r = b();
        obs(|o| o.pause());
        r
    };
    let r = if swap {
        let rb = on_worker(1, b);
        (on_worker(0, a), rb)
    } else {
        let ra = on_worker(0, a);
        (ra, on_worker(1, b))
    };
    obs(|o| o.pause());
    r
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(crate::mc::Context) -> RA + Send,
    B: FnOnce(crate::mc::Context) -> RB + Send,
    RA: Send,
    RB: Send,
{
    join(|| a(Context), || b(Context))
}
/// Stands in for `FnContext`.
#[derive(Debug)]
pub struct Context;
impl Context {
    pub fn migrated(&self) -> bool {
        false
    }
}

/// The controlled pool pretends to have this many workers.
pub fn current_num_threads() -> usize {
    if OBS.with(|x| x.get()).is_some() {
        MANY
    } else {
        splits()
    }
}
/// What adaptive splitting goes by.
pub(crate) fn splits() -> usize {
    4
}

type Task<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
/// Stands in for rayon's `Scope` and `ScopeFifo`. The body of the scope plays the part of the iterator of a bridge: letting
/// it go on to its next `spawn` is a pull. Tasks that tasks spawn run at once, as a part of them.
pub struct Scope<'scope> {
    pending: RefCell<VecDeque<(usize, Task<'scope>)>>,
    spawned: Cell<usize>,
    controlled: bool,
    in_task: Cell<bool>,
}
// everything runs on one thread
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
impl std::fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Scope")
    }
}
impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        if !self.controlled || self.in_task.get() {
            return on_worker(0, || body(self));
        }
        obs(|o| o.pause());
        self.pending.borrow_mut().push_back((self.spawned.get(), Box::new(body)));
        self.spawned.set(self.spawned.get() + 1);
        self.steps(false);
        obs(|o| o.pull(self.spawned.get()));
    }
    pub fn spawn_fifo<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.spawn(body)
    }
    pub fn spawn_broadcast<B>(&self, body: B)
    where
        B: Fn(&Scope<'scope>, ()) + Send + Sync + 'scope,
    {
        let _ = body;
        unimplemented!("broadcasts are not under control")
    }
    /// tasks run until the body may go on (or, at its end, none is left)
    fn steps(&self, exhausted: bool) {
        loop {
            let names: Vec<usize> = self.pending.borrow().iter().map(|t| t.0).collect();
            if exhausted && names.is_empty() {
                return;
            }
            match ctl(|c| c.next(&names, exhausted)).unwrap() {
                Move::Pull => {
                    assert!(!exhausted, "controller pulls from an exhausted region");
                    return;
                }
                Move::Run { pos, leaf } => {
                    let (n, task) = self.pending.borrow_mut().remove(pos).expect("controller runs a task that is not there");
                    self.in_task.set(true);
                    on_worker(leaf, || {
                        obs(|o| o.run(n));
                        task(self);
                        obs(|o| o.pause());
                    });
                    self.in_task.set(false);
                }
            }
        }
    }
}
pub fn in_place_scope<'scope, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { pending: Default::default(), spawned: Cell::new(0), controlled: ACTIVE.with(|x| x.get()), in_task: Cell::new(false) };
    if !s.controlled {
        return f(&s);
    }
    let anchor = 0u64;
    let frame = std::hint::black_box(&anchor) as *const u64 as usize;
    let r = scope_inner(&s, f, frame);
    std::hint::black_box(&anchor);
    r
}
#[inline(never)]
fn scope_inner<'scope, R>(s: &Scope<'scope>, f: impl FnOnce(&Scope<'scope>) -> R, frame: usize) -> R {
    obs(|o| o.region_enter(frame));
    let _guard = Leave;
    ctl(|c| c.enter("scope"));
    obs(|o| o.pause());
    assert!(matches!(ctl(|c| c.next(&[], false)).unwrap(), Move::Pull), "the body comes first");
    obs(|o| o.pull(0));
    let r = f(s);
    obs(|o| o.pause());
    s.steps(true);
    r
}
pub fn scope<'scope, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(f)
}
