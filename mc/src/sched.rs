//! Stateless exploration of the schedules of parallel regions (needs the controllable rayon).
use rayon::mc::{install, Controller, Move};
use std::cell::RefCell;
use std::rc::Rc;

/// How the items of a region are ordered when it is not the one that is explored.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// one worker, in order
    InOrder,
    /// everything is pulled, then runs in reverse; one worker each as far as there are workers
    Reverse,
    /// everything is pulled, odd items run first, alternating workers, results of later items first
    OddFirst,
    /// the first item runs last, on the last worker
    FirstLast,
    /// two items always in flight, the later one runs first
    Swap,
    /// in order, every item on a worker of its own
    Isolated,
    /// in order, but the worker with this item is held up until `by` more items have run
    Delay { item: usize, by: usize },
}
/// Workers of a region under `Isolated`: items that share a worker also share its list of results, which is no conflict
/// and which is moved when it outgrows four results, so no region may have more than four items for each.
const ISOLATED: usize = 4096;
pub const POLICIES: [Policy; 5] = [Policy::InOrder, Policy::Reverse, Policy::OddFirst, Policy::FirstLast, Policy::Swap];

#[derive(Default)]
pub struct Trace {
    /// (chosen, alternatives) of every choice made in the explored region
    pub choices: Vec<(u16, u16)>,
    /// number of items of every region, in the order in which regions start
    pub regions: Vec<(&'static str, usize)>,
    pub moves: u64,
    pub schedule: String,
    pub diverged: bool,
}

struct Frame {
    index: usize,
    explored: bool,
    pulled: usize,
    leaves: usize,
}

/// Replays `prefix` in region `target` and takes choice 0 afterwards; other regions follow `policy`.
struct Ctl {
    target: Option<usize>,
    policy: Policy,
    leaves: usize,
    window: usize,
    prefix: Vec<u16>,
    stack: Vec<Frame>,
    t: Rc<RefCell<Trace>>,
}

impl Ctl {
    fn choose(&mut self, n: usize) -> usize {
        let mut t = self.t.borrow_mut();
        if n <= 1 {
            return 0;
        }
        let k = t.choices.len();
        let c = if k < self.prefix.len() { self.prefix[k] as usize } else { 0 };
        if c >= n {
            t.diverged = true;
            t.choices.push((0, n as u16));
            return 0;
        }
        t.choices.push((c as u16, n as u16));
        c
    }
}

impl Controller for Ctl {
    fn enter(&mut self, kind: &'static str) -> usize {
        let index = {
            let mut t = self.t.borrow_mut();
            t.regions.push((kind, if kind == "join" { 2 } else { 0 }));
            t.regions.len() - 1
        };
        let explored = self.target == Some(index);
        let leaves = if explored { self.leaves } else {
            match self.policy {
                Policy::InOrder | Policy::Delay { .. } => 1,
                Policy::Isolated => ISOLATED,
                _ => 3,
            }
        };
        self.stack.push(Frame { index, explored, pulled: 0, leaves });
        leaves
    }
    fn next(&mut self, pending: &[usize], exhausted: bool) -> Move {
        self.t.borrow_mut().moves += 1;
        let f = self.stack.last_mut().unwrap();
        let (explored, leaves, n, pulled) = (f.explored, f.leaves, pending.len(), f.pulled);
        let m = if explored {
            // choice 0 runs the oldest pulled item, or pulls if there is none
            let can_pull = !exhausted && n < self.window;
            let alts = n + can_pull as usize;
            let c = if alts == 0 { 0 } else { self.choose(alts) };
            if n > 0 && c < n {
                let leaf = self.choose(leaves);
                Move::Run { pos: c, leaf }
            } else {
                Move::Pull
            }
        } else {
            match self.policy {
                Policy::InOrder => if n > 0 { Move::Run { pos: 0, leaf: 0 } } else { Move::Pull },
                Policy::Isolated => if n > 0 { Move::Run { pos: 0, leaf: pending[0] % ISOLATED } } else { Move::Pull },
                Policy::Reverse => if !exhausted { Move::Pull } else { Move::Run { pos: n - 1, leaf: (n - 1).min(leaves - 1) } },
                Policy::OddFirst => if !exhausted { Move::Pull } else {
                    match pending.iter().position(|i| i & 1 == 1) {
                        Some(p) => Move::Run { pos: p, leaf: pending[p] / 2 % 2 },
                        None => Move::Run { pos: 0, leaf: 2 },
                    }
                },
                Policy::FirstLast => if n == 0 || (n == 1 && pending[0] == 0 && !exhausted) { Move::Pull } else if n > 1 {
                    Move::Run { pos: 1, leaf: 0 }
                } else { Move::Run { pos: 0, leaf: leaves - 1 } },
                Policy::Delay { item, by } => if n > 1 && pending[0] == item {
                    Move::Run { pos: 1, leaf: 0 }
                } else if n == 0 || (pending[0] == item && !exhausted && pulled < item + 1 + by) {
                    Move::Pull
                } else { Move::Run { pos: 0, leaf: 0 } },
                Policy::Swap => if n < 2 && !exhausted { Move::Pull } else { Move::Run { pos: n - 1, leaf: (n - 1).min(1) } },
            }
        };
        let f = self.stack.last_mut().unwrap();
        let mut t = self.t.borrow_mut();
        match m {
            Move::Pull => {
                // the last pull only finds the end
                f.pulled += 1;
                t.regions[f.index].1 = f.pulled - 1;
                if f.explored {
                    t.schedule.push_str("pull ");
                }
            }
            Move::Run { pos, leaf } => if f.explored {
                t.schedule.push_str(&format!("run{}@{} ", pending[pos], leaf));
            },
        }
        m
    }
    fn swap(&mut self) -> bool {
        self.t.borrow_mut().moves += 1;
        if self.stack.last().unwrap().explored {
            self.choose(2) == 1
        } else {
            self.policy != Policy::InOrder
        }
    }
    fn leave(&mut self) {
        self.stack.pop();
    }
}

/// Runs `f` once under a fixed policy. Returns what it returned and the trace.
pub fn run_policy<R>(policy: Policy, f: impl FnOnce() -> R) -> (R, Trace) {
    run(None, policy, 1, 1, vec![], f)
}

/// Runs `f` under a policy with several workers; before atomic operation number `at` of the items of a region (or before
/// each) the next item runs, or all that are left. Returns what `f` returned and the number of such operations.
pub fn run_preempted<R>(policy: Policy, at: Option<u64>, all: bool, f: impl FnOnce() -> R) -> (R, u64) {
    struct Reset(*mut rayon::mc::Preempt);
    impl Drop for Reset {
        fn drop(&mut self) {
            rayon::mc::preempt(self.0);
        }
    }
    let mut p = rayon::mc::Preempt::new(at, all);
    let reset = Reset(rayon::mc::preempt(&mut p));
    let (r, _) = run_policy(policy, f);
    drop(reset);
    (r, p.seen)
}

fn run<R>(target: Option<usize>, policy: Policy, leaves: usize, window: usize, prefix: Vec<u16>, f: impl FnOnce() -> R) -> (R, Trace) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            install(None);
        }
    }
    let t = Rc::new(RefCell::new(Trace::default()));
    install(Some(Box::new(Ctl { target, policy, leaves, window, prefix, stack: vec![], t: t.clone() })));
    let reset = Reset;
    let r = f();
    drop(reset);
    let t = std::mem::take(&mut *t.borrow_mut());
    (r, t)
}

pub struct Stats {
    pub schedules: u64,
    pub moves: u64,
}

/// Explores every schedule of region `target` with at most `deviations` choices other than the default,
/// `leaves` workers and at most `window` items in flight. `check` judges each result.
pub fn explore<R>(target: usize, leaves: usize, window: usize, deviations: usize, f: impl Fn() -> R,
    mut check: impl FnMut(R) -> Result<(), String>) -> Result<Stats, String> {
    let mut prefix: Vec<u16> = vec![];
    let mut st = Stats { schedules: 0, moves: 0 };
    loop {
        let (r, t) = run(Some(target), Policy::InOrder, leaves, window, prefix.clone(), &f);
        if t.diverged || t.choices.len() < prefix.len() {
            return Err(format!("behaviour diverges while the schedule {:?} of region {} is replayed: not a function of the schedule", prefix, target));
        }
        check(r).map_err(|e| format!("{} [region {} of {:?}, schedule {}]", e, target, t.regions, t.schedule))?;
        st.schedules += 1;
        st.moves += t.moves;
        let mut ch = t.choices;
        loop {
            match ch.pop() {
                None => return Ok(st),
                Some((c, n)) => {
                    let used = ch.iter().filter(|x| x.0 != 0).count();
                    if c + 1 < n && used < deviations {
                        prefix = ch.iter().map(|x| x.0).collect();
                        prefix.push(c + 1);
                        break;
                    }
                }
            }
        }
    }
}

/// Calls `f` at the scheduling points of the regions of the operation it runs in.
struct Nest<F> {
    inner: Ctl,
    /// the point at which to call, or every one
    at: Option<u64>,
    seen: u64,
    f: F,
}
impl<F: FnMut()> Nest<F> {
    fn point(&mut self) {
        if self.at.map_or(true, |a| a == self.seen) {
            (self.f)();
        }
        self.seen += 1;
    }
}
impl<F: FnMut()> Controller for Nest<F> {
    fn enter(&mut self, kind: &'static str) -> usize {
        self.inner.enter(kind)
    }
    fn next(&mut self, pending: &[usize], exhausted: bool) -> Move {
        self.point();
        self.inner.next(pending, exhausted)
    }
    fn swap(&mut self) -> bool {
        self.point();
        self.inner.swap()
    }
    fn leave(&mut self) {
        self.inner.leave()
    }
}
/// Runs `f` under a policy; `nested` is called at the given scheduling point (or at all of them).
/// Returns what `f` returned and the number of scheduling points.
pub fn run_nested<R>(policy: Policy, at: Option<u64>, nested: impl FnMut() + 'static, f: impl FnOnce() -> R) -> (R, u64) {
    struct Reset(Option<Box<dyn Controller>>);
    impl Drop for Reset {
        fn drop(&mut self) {
            install(self.0.take());
        }
    }
    let t = Rc::new(RefCell::new(Trace::default()));
    let inner = Ctl { target: None, policy, leaves: 1, window: 1, prefix: vec![], stack: vec![], t: t.clone() };
    let reset = Reset(install(Some(Box::new(Nest { inner, at, seen: 0, f: nested }))));
    let r = f();
    drop(reset);
    let n = t.borrow().moves;
    (r, n)
}
