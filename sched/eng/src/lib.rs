//! A controlled scheduler: every thread of an execution is a coroutine of one OS thread, and each operation
//! on a synchronisation object is a point where the explorer decides which thread goes on.
//!
//! An *execution* is one run of a closure under one sequence of decisions. `explore` runs executions until
//! all those within the bounds of the strategy have been run:
//!  * `Strategy::Dpor`: every execution up to the order of independent operations (source sets, sleep sets);
//!  * `Strategy::Bounded`: every execution with at most `bound` deviations from the default schedule
//!    (run the current thread until it blocks, then the next one).
//!
//! Happens-before between threads is tracked with vector clocks along the edges that the objects guarantee
//! (and not more: a relaxed atomic gives none), so two accesses to a raw buffer which are not ordered are
//! reported even in the executions where they happen to come in the right order.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::Cell;
use std::collections::HashMap;

pub mod explore;
pub use explore::{explore, Limits, Report, Strategy};

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Start, Lock, TryLock, CondWait, Wake, Notify, RLock, WLock, OnceInit, OnceGet, OnceSet, Load, Store, Rmw,
    Send, SendFull, Recv, TryRecv, Join, Pool, Data, Yield, Park, Unpark, User,
}
use Kind::*;

/// What a thread is about to do, on which objects.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op { pub kind: Kind, pub a: u32, pub b: u32 }

/// An operation with names of objects that do not depend on the order of independent operations.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct OpK { pub kind: Kind, pub a: u64, pub b: u64 }

impl OpK {
    fn touches(&self, o: u64) -> Option<bool> {
        if o == 0 || (self.a != o && self.b != o) { return None }
        Some(!matches!(self.kind, RLock | OnceGet | Load))
    }
    pub fn dep(&self, x: &OpK) -> bool {
        for o in [self.a, self.b] {
            if let (Some(w), Some(v)) = (self.touches(o), x.touches(o)) { if w || v { return true } }
        }
        false
    }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Clock(Vec<u32>);
impl Clock {
    pub fn get(&self, t: usize) -> u32 { self.0.get(t).copied().unwrap_or(0) }
    fn join(&mut self, o: &Clock) {
        if self.0.len() < o.0.len() { self.0.resize(o.0.len(), 0) }
        for (a, b) in self.0.iter_mut().zip(&o.0) { *a = (*a).max(*b) }
    }
    fn tick(&mut self, t: usize) {
        if self.0.len() <= t { self.0.resize(t + 1, 0) }
        self.0[t] += 1;
    }
    pub fn le(&self, o: &Clock) -> bool { self.0.iter().enumerate().all(|(i, v)| *v <= o.get(i)) }
}

#[derive(Default)]
struct Obj {
    key: u64,
    name: &'static str,
    /// mutex: owner + 1; rwlock: writer + 1; once: initialising thread + 1
    owner: u32,
    readers: u32,
    /// once: value present; channel: no sender left
    done: bool,
    /// channel: items; pool: running jobs
    len: usize,
    cap: usize,
    waiters: Vec<usize>,
    /// what happened before what is next acquired from here
    clock: Clock,
    rclock: Clock,
    items: std::collections::VecDeque<(Clock, usize)>,
    /// steps that enable what is next done here, in the order of exploration
    edges: Vec<usize>,
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct Task {
    co: Option<Co>,
    yielder: Cell<*const Yielder<(), ()>>,
    name: String,
    key: u64,
    made: u64,
    pending: Op,
    finished: bool,
    notified: bool,
    notified_by: usize,
    spurious: u32,
    unparked: bool,
    clock: Clock,
    end: usize,
    born: usize,
    quiet: u32,
    target: usize,
    waits: u32,
}

/// A decision taken, for the explorer.
#[derive(Clone, Debug)]
pub struct Step {
    pub task: u32,
    pub op: OpK,
    /// earlier steps without which this one was not possible
    pub preds: Vec<usize>,
}

/// The explorer's part of an execution.
pub trait Chooser {
    /// the thread to run next; None: nothing new can come from here, finish in any way
    fn task(&mut self, enabled: &[(u32, OpK)], cur: Option<u32>) -> Option<u32>;
    /// one of `n` alternatives
    fn alternative(&mut self, n: usize) -> usize;
    fn trace(&self) -> &[u32];
}

struct Write { lo: usize, hi: usize, task: usize, clock: Clock, inst: u64 }
struct Read { lo: usize, hi: usize, task: usize, clock: Clock, what: String, inst: u64 }

pub struct Exec {
    epoch: u32,
    tasks: Vec<Task>,
    objs: Vec<Obj>,
    statics: HashMap<usize, (usize, unsafe fn(*mut u8))>,
    static_ids: HashMap<usize, u32>,
    cur: usize,
    next: Option<usize>,
    quiet: u32,
    recorded: usize,
    chooser: Box<dyn Chooser>,
    pub steps: Vec<Step>,
    ops: u64,
    cap: u64,
    fault: Option<String>,
    stacks: Vec<DefaultStack>,
    writes: Vec<Write>,
    reads: Vec<Read>,
    spurious: u32,
    streak: u32,
    log: Option<Vec<String>>,
    pub parallelism: usize,
    insts: u64,
    pub max_live: usize,
    tls: HashMap<(usize, usize), (usize, unsafe fn(*mut u8))>,
}

thread_local! {
    static EX: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static EPOCH: Cell<u32> = const { Cell::new(0) };
}

#[allow(clippy::mut_from_ref)]
fn ex() -> &'static mut Exec {
    let p = EX.with(|e| e.get());
    assert!(!p.is_null(), "operation outside of an execution");
    unsafe { &mut *p }
}
pub fn active() -> bool { !EX.with(|e| e.get()).is_null() }

const STACK: usize = 1024 * 1024;

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (x ^ (x >> 31)) | 1
}

impl Exec {
    fn new(chooser: Box<dyn Chooser>, l: &Limits) -> Exec {
        let epoch = EPOCH.with(|e| { e.set(e.get() + 1); e.get() });
        Exec {
            epoch, tasks: vec![], objs: vec![], statics: HashMap::new(), static_ids: HashMap::new(), cur: 0, next: None, quiet: 1,
            recorded: 0, chooser, steps: vec![], ops: 0, cap: l.steps, fault: None, stacks: vec![], writes: vec![], reads: vec![],
            spurious: l.spurious, streak: 0, log: None, parallelism: 4, insts: 0, max_live: 0, tls: HashMap::new(),
        }
    }

    fn opk(&self, op: &Op) -> OpK {
        let k = |o: u32| if o == NONE { 0 } else { self.objs[o as usize].key };
        OpK { kind: op.kind, a: k(op.a), b: k(op.b) }
    }

    fn enabled(&self, t: usize) -> bool {
        let k = &self.tasks[t];
        if k.finished { return false }
        let o = |i: u32| &self.objs[i as usize];
        match k.pending.kind {
            Lock => o(k.pending.a).owner == 0,
            Wake => (k.notified || k.spurious > 0) && o(k.pending.a).owner == 0,
            RLock => o(k.pending.a).owner == 0,
            WLock => o(k.pending.a).owner == 0 && o(k.pending.a).readers == 0,
            OnceInit => o(k.pending.a).owner == 0,
            Recv => { let c = o(k.pending.a); !c.items.is_empty() || c.done }
            SendFull => { let c = o(k.pending.a); c.items.len() < c.cap || c.done }
            Join => self.tasks[k.target].finished,
            Kind::Pool => { let p = o(k.target as u32); p.len < p.cap && p.waiters.iter().take(p.cap - p.len).any(|w| *w == t) }
            Park => k.unparked,
            _ => true,
        }
    }

    fn say(&mut self, s: String) { if let Some(l) = &mut self.log { l.push(s) } }

    fn fail(&mut self, m: String) {
        if self.fault.is_none() { self.fault = Some(m) }
    }

    fn state(&self) -> String {
        self.tasks.iter().filter(|t| !t.finished).map(|t| {
            let n = |o: u32| if o == NONE { String::new() } else { format!(" {}", self.objs[o as usize].name) };
            format!("{} at {:?}{}", t.name, t.pending.kind, n(t.pending.a))
        }).collect::<Vec<_>>().join(", ")
    }

    /// Which task goes on; its pending operation is recorded.
    fn decide(&mut self) -> Option<usize> {
        if self.fault.is_some() { return None }
        self.ops += 1;
        if self.ops > self.cap {
            let s = self.state();
            self.fail(format!("no end after {} operations: {s}", self.cap));
            return None;
        }
        let n = self.tasks.len();
        let mut en: [u32; 64] = [0; 64];
        let mut c = 0;
        for t in 0..n { if c < 64 && self.enabled(t) { en[c] = t as u32; c += 1; } }
        let en = &en[..c];
        if en.is_empty() {
            if self.tasks.iter().any(|t| !t.finished) {
                let s = self.state();
                self.fail(format!("deadlock: {s}"));
            }
            return None;
        }
        let yielding = matches!(self.tasks[self.cur].pending.kind, Yield);
        let mut cur = en.contains(&(self.cur as u32)) && !(yielding && c > 1);
        // nobody runs alone for ever while others could go on
        if self.streak > 400 && c > 1 { cur = false; }
        let def = if cur { self.cur as u32 } else { en.iter().copied().find(|t| *t as usize > self.cur).unwrap_or(en[0]) };
        let t = if self.quiet > 0 || self.tasks[self.cur].quiet > 0 && cur || c == 1 && self.quiet > 0 { def } else {
            let mut v: Vec<(u32, OpK)> = Vec::with_capacity(c);
            v.push((def, self.opk(&self.tasks[def as usize].pending)));
            for t in en { if *t != def { v.push((*t, self.opk(&self.tasks[*t as usize].pending))); } }
            match self.chooser.task(&v, cur.then_some(self.cur as u32)) {
                Some(t) => {
                    let op = self.opk(&self.tasks[t as usize].pending);
                    self.steps.push(Step { task: t, op, preds: vec![] });
                    self.recorded = self.steps.len();
                    t
                }
                None => { self.quiet += 1; def }
            }
        };
        if t as usize == self.cur { self.streak += 1 } else { self.streak = 0 }
        if self.log.is_some() {
            let k = &self.tasks[t as usize];
            let n = if k.pending.a == NONE { "" } else { self.objs[k.pending.a as usize].name };
            let s = format!("{}: {:?} {n}", k.name, k.pending.kind);
            self.say(s);
        }
        Some(t as usize)
    }

    /// Index of the current step, for edges.
    fn here(&self) -> usize { self.steps.len().wrapping_sub(1) }

    fn pred(&mut self, i: usize) {
        if self.quiet == 0 && i != usize::MAX { if let Some(s) = self.steps.last_mut() { if !s.preds.contains(&i) { s.preds.push(i) } } }
    }
}

/// A scheduling point: returns when the explorer lets this thread perform `op`.
fn point(op: Op) {
    let e = ex();
    if std::thread::panicking() { return }
    let me = e.cur;
    e.tasks[me].pending = op;
    match e.decide() {
        Some(t) if t == me => {}
        Some(t) => { e.next = Some(t); suspend(me); }
        // the execution is over, this thread never runs again
        None => { e.next = None; suspend(me); }
    }
    let e = ex();
    e.cur = me;
    let t = &mut e.tasks[me];
    t.clock.tick(me);
}

fn suspend(me: usize) {
    let y = ex().tasks[me].yielder.get();
    unsafe { (*y).suspend(()) }
}

fn add_task(name: String, f: Box<dyn FnOnce()>, pending: Op) -> usize {
    let e = ex();
    let id = e.tasks.len();
    if e.tasks.iter().filter(|t| !t.finished).count() >= 63 { e.fail("more than 63 threads".into()) }
    let stack = e.stacks.pop().or_else(|| POOL.with(|p| p.borrow_mut().pop())).unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        {
            let e = ex();
            let t = &mut e.tasks[id];
            t.yielder.set(y as *const _);
            t.clock.tick(id);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let e = ex();
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            let n = e.tasks[id].name.clone();
            e.fail(format!("{n} panics: {m}{}", LAST.with(|l| l.borrow().clone())));
        }
    });
    let (parent_key, made, clock, born) = if id == 0 { (7, 0, Clock::default(), usize::MAX) } else {
        let h = e.here();
        let c = e.cur;
        let p = &mut e.tasks[c];
        p.made += 1;
        p.clock.tick(c);
        (p.key, p.made, p.clock.clone(), h)
    };
    e.tasks.push(Task {
        co: Some(co), yielder: Cell::new(std::ptr::null()), name, key: mix(parent_key, made), made: 0, pending,
        finished: false, notified: false, notified_by: usize::MAX, spurious: 0, unparked: false, clock, end: usize::MAX, born, quiet: 0, target: 0, waits: 0,
    });
    e.max_live = e.max_live.max(e.tasks.iter().filter(|t| !t.finished).count());
    id
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<DefaultStack>> = const { std::cell::RefCell::new(vec![]) };
    /// where the last panic was
    pub static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub struct Outcome {
    pub fault: Option<String>,
    pub steps: Vec<Step>,
    pub births: Vec<usize>,
    pub ops: u64,
    pub trace: Vec<u32>,
    pub log: Vec<String>,
    pub chooser: Box<dyn Chooser>,
    pub max_live: usize,
}

/// One execution of `f`.
pub fn run(chooser: Box<dyn Chooser>, l: &Limits, log: bool, f: impl FnOnce() + 'static) -> Outcome {
    let mut e = Box::new(Exec::new(chooser, l));
    if log { e.log = Some(vec![]) }
    let p: *mut Exec = &mut *e;
    EX.with(|x| x.set(p));
    add_task("main".into(), Box::new(f), Op { kind: Start, a: NONE, b: NONE });
    let mut next = Some(0usize);
    while let Some(t) = next {
        let e = ex();
        e.cur = t;
        e.next = None;
        let mut co = e.tasks[t].co.take().unwrap();
        match co.resume(()) {
            CoroutineResult::Yield(()) => {
                let e = ex();
                e.tasks[t].co = Some(co);
                next = e.next;
            }
            CoroutineResult::Return(()) => {
                let e = ex();
                let here = e.here();
                let k = &mut e.tasks[t];
                k.finished = true;
                k.end = here;
                e.stacks.push(co.into_stack());
                next = e.decide();
            }
        }
    }
    // statics of the execution
    let ex_ = ex();
    if ex_.fault.is_none() {
        ex_.quiet += 1;
        for (_, (p, d)) in std::mem::take(&mut ex_.statics) { unsafe { d(p as *mut u8) } }
        for (_, (p, d)) in std::mem::take(&mut ex_.tls) { unsafe { d(p as *mut u8) } }
    }
    EX.with(|x| x.set(std::ptr::null_mut()));
    let e = *e;
    let Exec { tasks, steps, ops, chooser, fault, stacks, log, max_live, .. } = e;
    let births = tasks.iter().map(|t| t.born).collect();
    for t in tasks { if let Some(c) = t.co { std::mem::forget(c) } }
    POOL.with(|p| p.borrow_mut().extend(stacks));
    let trace = chooser.trace().to_vec();
    Outcome { fault, steps, births, ops, trace, log: log.unwrap_or_default(), chooser, max_live }
}

// ------------------------------------------------------------------ harness side

/// From here on the explorer decides.
pub fn begin() { let e = ex(); e.quiet = 0; e.streak = 0; }
/// From here on the default schedule is followed.
pub fn end() { ex().quiet += 1; }
/// Points of this thread are not decisions while `f` runs.
pub fn alone<T>(f: impl FnOnce() -> T) -> T {
    let me = ex().cur;
    ex().tasks[me].quiet += 1;
    let r = f();
    ex().tasks[me].quiet -= 1;
    r
}
pub fn violate(m: String) -> ! {
    ex().fail(m);
    let me = ex().cur;
    ex().next = None;
    loop { suspend(me) }
}
pub fn set_parallelism(n: usize) { ex().parallelism = n }
pub fn parallelism() -> usize { if active() { ex().parallelism } else { 4 } }
pub fn say(s: impl FnOnce() -> String) { if active() && ex().log.is_some() { let n = ex().tasks[ex().cur].name.clone(); let t = s(); ex().say(format!("{n}: {t}")) } }
pub fn now() -> Clock { ex().tasks[ex().cur].clock.clone() }
/// How the current thread got here: what it waited for, and how often it went on at once.
pub fn trail() -> String { let e = ex(); let t = &e.tasks[e.cur]; format!("[{} waits, clock {}]", t.waits, t.clock.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")) }
pub fn me() -> usize { ex().cur }
/// A plain scheduling point (on an object that orders it with its other users, or none).
pub fn user(obj: Option<&Id>) { if active() { let a = obj.map(|o| o.get("user")).unwrap_or(NONE); point(Op { kind: User, a, b: NONE }) } }

// ------------------------------------------------------------------ objects

/// The identity of an object in the current execution.
#[derive(Debug)]
pub struct Id(Cell<(u32, u32)>);
unsafe impl Sync for Id {}
unsafe impl std::marker::Send for Id {}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
fn is_static(p: *const ()) -> bool {
    let p = p as usize;
    unsafe { p >= &__data_start as *const u8 as usize && p < &_end as *const u8 as usize }
}

fn add_obj(name: &'static str, stat: Option<usize>) -> u32 {
    let e = ex();
    let key = match stat {
        Some(a) => mix(a as u64, 3),
        None => { let c = e.cur; let t = &mut e.tasks[c]; t.made += 1; mix(t.key, t.made) }
    };
    e.objs.push(Obj { key, name, ..Default::default() });
    (e.objs.len() - 1) as u32
}

impl Id {
    pub const fn lazy() -> Id { Id(Cell::new((0, 0))) }
    pub fn new(name: &'static str) -> Id {
        if !active() { return Id::lazy() }
        Id(Cell::new((ex().epoch, add_obj(name, None))))
    }
    pub fn get(&self, name: &'static str) -> u32 {
        let e = ex();
        let p = self as *const Id as *const ();
        if is_static(p) {
            if let Some(i) = e.static_ids.get(&(p as usize)) { return *i }
            let i = add_obj(name, Some(p as usize));
            ex().static_ids.insert(p as usize, i);
            return i;
        }
        let (ep, i) = self.0.get();
        if ep == e.epoch { return i }
        let i = add_obj(name, None);
        self.0.set((ex().epoch, i));
        i
    }
    pub fn is_static(&self) -> bool { is_static(self as *const Id as *const ()) }
}

fn obj(i: u32) -> &'static mut Obj { &mut ex().objs[i as usize] }
fn acquire(i: u32) { let e = ex(); let c = e.cur; let k = e.objs[i as usize].clock.clone(); e.tasks[c].clock.join(&k) }
fn release(i: u32) { let e = ex(); let c = e.cur; let k = e.tasks[c].clock.clone(); e.objs[i as usize].clock.join(&k); e.tasks[c].clock.tick(c) }
fn enabling(i: u32) { let e = ex(); let h = e.here(); if e.quiet == 0 { e.objs[i as usize].edges.push(h) } }
fn enabled_by(i: u32) { let v = ex().objs[i as usize].edges.clone(); for s in v { ex().pred(s) } }

// mutexes

pub fn lock(m: u32) {
    point(Op { kind: Lock, a: m, b: NONE });
    obj(m).owner = ex().cur as u32 + 1;
    acquire(m);
}
pub fn try_lock(m: u32) -> bool {
    point(Op { kind: TryLock, a: m, b: NONE });
    if obj(m).owner != 0 { return false }
    obj(m).owner = ex().cur as u32 + 1;
    acquire(m);
    true
}
pub fn unlock(m: u32) { release(m); obj(m).owner = 0; }

pub fn cond_wait(cv: u32, m: u32) {
    point(Op { kind: CondWait, a: cv, b: NONE });
    let e = ex();
    let me = e.cur;
    unlock(m);
    obj(cv).waiters.push(me);
    let s = e.spurious;
    e.tasks[me].notified = false;
    e.tasks[me].notified_by = usize::MAX;
    e.tasks[me].spurious = s;
    e.tasks[me].waits += 1;
    point(Op { kind: Wake, a: m, b: cv });
    let e = ex();
    if !e.tasks[me].notified { obj(cv).waiters.retain(|w| *w != me); if e.spurious > 0 { e.spurious -= 1; } }
    let by = e.tasks[me].notified_by;
    e.pred(by);
    e.tasks[me].spurious = 0;
    obj(m).owner = me as u32 + 1;
    acquire(m);
}
pub fn notify(cv: u32, all: bool) {
    point(Op { kind: Notify, a: cv, b: NONE });
    let here = ex().here();
    let n = obj(cv).waiters.len();
    if n == 0 { return }
    let woken: Vec<usize> = if all { std::mem::take(&mut obj(cv).waiters) } else {
        let k = if n > 1 && ex().quiet == 0 { ex().chooser.alternative(n) } else { 0 };
        vec![obj(cv).waiters.remove(k)]
    };
    for w in woken { let t = &mut ex().tasks[w]; t.notified = true; t.notified_by = here; }
}

// rwlocks

pub fn rlock(l: u32) {
    point(Op { kind: RLock, a: l, b: NONE });
    obj(l).readers += 1;
    acquire(l);
}
pub fn wlock(l: u32) {
    point(Op { kind: WLock, a: l, b: NONE });
    obj(l).owner = ex().cur as u32 + 1;
    let r = obj(l).rclock.clone();
    let e = ex();
    let c = e.cur;
    e.tasks[c].clock.join(&r);
    acquire(l);
}
pub fn try_rlock(l: u32) -> bool {
    point(Op { kind: TryLock, a: l, b: NONE });
    if obj(l).owner != 0 { return false }
    obj(l).readers += 1;
    acquire(l);
    true
}
pub fn try_wlock(l: u32) -> bool {
    point(Op { kind: TryLock, a: l, b: NONE });
    if obj(l).owner != 0 || obj(l).readers != 0 { return false }
    obj(l).owner = ex().cur as u32 + 1;
    let r = obj(l).rclock.clone();
    let e = ex();
    let c = e.cur;
    e.tasks[c].clock.join(&r);
    acquire(l);
    true
}
pub fn runlock(l: u32) {
    obj(l).readers -= 1;
    let e = ex();
    let c = e.cur;
    let k = e.tasks[c].clock.clone();
    obj(l).rclock.join(&k);
    e.tasks[c].clock.tick(c);
}
pub fn wunlock(l: u32) { release(l); obj(l).owner = 0; }

// once cells

pub fn once_get(o: u32) -> bool {
    point(Op { kind: OnceGet, a: o, b: NONE });
    let d = obj(o).done;
    if d { acquire(o) }
    d
}
/// true: the caller initialises, then calls `once_done`
pub fn once_begin(o: u32) -> bool {
    point(Op { kind: OnceInit, a: o, b: NONE });
    if obj(o).done { acquire(o); return false }
    obj(o).owner = ex().cur as u32 + 1;
    true
}
pub fn once_done(o: u32, value: bool) {
    if value { obj(o).done = true }
    release(o);
    obj(o).owner = 0;
}

// atomics

pub fn atomic(o: u32, kind: Kind, acq: bool, rel: bool) {
    point(Op { kind, a: o, b: NONE });
    let me = ex().cur;
    if acq && kind != Store { acquire(o) }
    match kind {
        // a store ends the release sequence of the previous one
        Store => { obj(o).clock = Clock::default(); if rel { release(o) } }
        Rmw => if rel { release(o) },
        _ => {}
    }
    ex().tasks[me].clock.tick(me);
}

// channels: `a` receives, `b` sends

pub fn chan(cap: usize) -> (u32, u32) {
    let r = add_obj("channel", None);
    let s = add_obj("channel", None);
    obj(r).cap = cap;
    (r, s)
}
/// false: nobody receives any more
pub fn send(r: u32, s: u32, bounded: bool) -> bool {
    if bounded { point(Op { kind: SendFull, a: r, b: s }) } else { point(Op { kind: Send, a: s, b: NONE }) }
    if obj(s).done { return false }
    let here = ex().here();
    let c = now();
    obj(r).items.push_back((c, here));
    let me = ex().cur;
    ex().tasks[me].clock.tick(me);
    true
}
/// false: nothing left and nobody sends any more
pub fn recv(r: u32, s: u32, block: bool) -> bool {
    if block { point(Op { kind: Recv, a: r, b: NONE }) } else { point(Op { kind: TryRecv, a: r, b: s }) }
    match obj(r).items.pop_front() {
        Some((c, i)) => { let e = ex(); let me = e.cur; e.tasks[me].clock.join(&c); e.pred(i); true }
        None => { if block { enabled_by(r); acquire(r); } false }
    }
}
pub fn senders_gone(r: u32) { if !active() { return } enabling(r); release(r); obj(r).done = true; }
pub fn sender_gone(r: u32) { if !active() { return } enabling(r); release(r); }
pub fn receivers_gone(s: u32) { if !active() { return } obj(s).done = true; }
pub fn disconnected(r: u32) -> bool { obj(r).done }

// threads

pub fn spawn(name: String, f: impl FnOnce() + 'static) -> usize {
    add_task(name, Box::new(f), Op { kind: Start, a: NONE, b: NONE })
}
pub fn join(t: usize) {
    let me = ex().cur;
    ex().tasks[me].target = t;
    point(Op { kind: Join, a: NONE, b: NONE });
    let e = ex();
    let k = e.tasks[t].clock.clone();
    e.tasks[me].clock.join(&k);
    let end = e.tasks[t].end;
    e.pred(end);
}
fn token(t: usize) -> u32 {
    let key = usize::MAX - t;
    if let Some(i) = ex().static_ids.get(&key) { return *i }
    let i = add_obj("token", Some(key));
    ex().static_ids.insert(key, i);
    i
}
pub fn park() {
    let me = ex().cur;
    let o = token(me);
    point(Op { kind: Park, a: o, b: NONE });
    ex().tasks[me].unparked = false;
    acquire(o);
}
pub fn unpark(t: usize) {
    let o = token(t);
    point(Op { kind: Unpark, a: o, b: NONE });
    ex().tasks[t].unparked = true;
    release(o);
}

pub fn finished(t: usize) -> bool { ex().tasks[t].finished }
pub fn yield_now() { point(Op { kind: Yield, a: NONE, b: NONE }) }

// pools

pub struct Pool { o: u32, q: u32, jobs: Cell<usize> }
unsafe impl Sync for Pool {}
unsafe impl std::marker::Send for Pool {}
pub fn pool(threads: usize) -> Pool {
    let o = add_obj("pool", None);
    obj(o).cap = threads.max(1);
    Pool { o, q: add_obj("pool queue", None), jobs: Cell::new(0) }
}
impl Pool {
    pub fn spawn(&self, name: String, f: impl FnOnce() + 'static) {
        let o = self.o;
        // who comes first in the queue
        point(Op { kind: Send, a: self.q, b: NONE });
        let cap = obj(o).cap;
        self.jobs.set(self.jobs.get() + 1);
        let late = self.jobs.get() > cap;
        let t = add_task(name, Box::new(move || {
            obj(o).len += 1;
            let me = ex().cur;
            obj(o).waiters.retain(|w| *w != me);
            f();
            // ends commute; what waits for a place may begin after any of them
            point(Op { kind: Load, a: o, b: NONE });
            obj(o).len -= 1;
        }), Op { kind: Kind::Pool, a: if late { o } else { NONE }, b: NONE });
        ex().tasks[t].target = o as usize;
        obj(o).waiters.push(t);
    }
}

// ------------------------------------------------------------------ values of static cells

/// The place of the value of a static once cell in this execution.
pub fn static_value<T>(key: usize) -> Option<*mut T> { ex().statics.get(&key).map(|x| x.0 as *mut T) }
pub fn set_static_value<T>(key: usize, v: T) -> *mut T {
    unsafe fn d<T>(p: *mut u8) { drop(unsafe { Box::from_raw(p as *mut T) }) }
    let p = Box::into_raw(Box::new(v));
    ex().statics.insert(key, (p as usize, d::<T>));
    p
}
/// The place of the value of a thread-local in the current thread of this execution.
pub fn tls_value<T>(key: usize, init: impl FnOnce() -> T) -> *mut T {
    unsafe fn d<T>(p: *mut u8) { drop(unsafe { Box::from_raw(p as *mut T) }) }
    let k = (ex().cur, key);
    if let Some(x) = ex().tls.get(&k) { return x.0 as *mut T }
    let p = Box::into_raw(Box::new(init()));
    ex().tls.insert(k, (p as usize, d::<T>));
    p
}

// ------------------------------------------------------------------ raw buffers

/// A new producer of bytes.
pub fn producer() -> u64 { if !active() { return 0 } ex().insts += 1; ex().insts }

/// A scheduling point before bytes are produced.
pub fn produce_point() { if active() { point(Op { kind: Data, a: NONE, b: NONE }) } }

/// The current thread has written these bytes.
pub fn wrote(inst: u64, p: *const u8, len: usize) {
    if !active() || len == 0 { return }
    let e = ex();
    let me = e.cur;
    e.tasks[me].clock.tick(me);
    let (lo, hi) = (p as usize, p as usize + len);
    let clock = e.tasks[me].clock.clone();
    // an earlier producer's buffer was here: it is gone
    e.writes.retain(|w| w.inst == inst || w.hi <= lo || hi <= w.lo);
    e.reads.retain(|r| r.inst == inst || r.hi <= lo || hi <= r.lo);
    for r in &e.reads {
        if r.task != me && r.lo < hi && lo < r.hi && !r.clock.le(&clock) {
            let m = format!("race: {} and a later write of {} bytes at +{} by {} are not ordered", r.what, len, lo as isize - r.lo as isize, e.tasks[me].name);
            e.fail(m);
            return;
        }
    }
    e.writes.push(Write { lo, hi, task: me, clock, inst });
    e.tasks[me].clock.tick(me);
}

/// Thread `task` has read these bytes when its clock was `clock`.
pub fn has_read(p: *const u8, len: usize, clock: &Clock, what: impl FnOnce() -> String) {
    if !active() || len == 0 { return }
    let e = ex();
    let me = e.cur;
    let (lo, hi) = (p as usize, p as usize + len);
    let mut inst = 0;
    let mut bad = None;
    for w in &e.writes {
        if w.lo < hi && lo < w.hi {
            inst = inst.max(w.inst);
            if w.task != me && w.clock.get(w.task) > clock.get(w.task) { bad = Some((w.task, w.lo)); }
        }
    }
    if inst == 0 { return }
    if let Some((t, at)) = bad {
        let m = format!("race: {} is not ordered after the write at +{} by {}", what(), at as isize - lo as isize, e.tasks[t].name);
        e.fail(m);
        violate(String::new());
    }
    e.reads.push(Read { lo, hi, task: me, clock: clock.clone(), what: what(), inst });
}
/// How many bytes of this range are known to be written by producers.
pub fn produced(p: *const u8, len: usize) -> usize {
    let (lo, hi) = (p as usize, p as usize + len);
    ex().writes.iter().map(|w| w.hi.min(hi).saturating_sub(w.lo.max(lo))).sum()
}
