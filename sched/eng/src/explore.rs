//! Enumeration of executions.

use crate::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strategy {
    /// all executions, one for each order of dependent operations
    Dpor,
    /// all executions with at most this many deviations from the default schedule
    /// (`free`: choosing who goes on when a thread blocks is no deviation)
    Bounded { bound: u32, free: bool },
}

#[derive(Clone, Debug)]
pub struct Limits {
    /// operations in one execution
    pub steps: u64,
    /// condition variable waits that return without a notification, in one execution
    pub spurious: u32,
    /// executions
    pub runs: u64,
    pub secs: f64,
    /// this part of the executions (first deviation at a point `= k mod n`); Bounded only
    pub shard: (u64, u64),
}
impl Default for Limits {
    fn default() -> Self { Limits { steps: 50_000, spurious: 0, runs: u64::MAX, secs: 1e9, shard: (0, 1) } }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub runs: u64,
    /// executions that only repeat others (found so before their end)
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
    pub fault: Option<(String, Vec<u32>, Vec<String>)>,
    pub max_threads: usize,
    pub max_depth: usize,
    /// the program did not do the same thing under the same decisions
    pub diverged: Option<String>,
}

struct Node {
    /// decision among threads; otherwise among `n` alternatives
    is_task: bool,
    enabled: Vec<(u32, OpK)>,
    cur: Option<u32>,
    chosen: u32,
    n: u32,
    // dpor
    backtrack: Vec<u32>,
    done: Vec<u32>,
    sleep: Vec<(u32, OpK)>,
    // bounded: deviations left when arriving here
    left: u32,
}

#[derive(Default)]
struct Tree {
    nodes: Vec<Node>,
    depth: usize,
    states: u64,
    pruned: bool,
    diverged: Option<String>,
}

struct Walk { t: Rc<RefCell<Tree>>, strategy: Strategy, trace: Vec<u32> }

fn cost(n: &Node, chosen: u32, free: bool) -> u32 {
    if !n.is_task { return (chosen != 0) as u32 }
    let def = n.enabled[0].0;
    if chosen == def { 0 } else if n.cur.is_none() && free { 0 } else { 1 }
}

impl Walk {
    fn left(&self, t: &Tree) -> u32 {
        match (self.strategy, t.nodes.last()) {
            (Strategy::Bounded { bound, .. }, None) => bound,
            (Strategy::Bounded { free, .. }, Some(n)) => n.left - cost(n, n.chosen, free),
            _ => 0,
        }
    }
}

impl Chooser for Walk {
    fn task(&mut self, enabled: &[(u32, OpK)], cur: Option<u32>) -> Option<u32> {
        let mut t = self.t.borrow_mut();
        let d = t.depth;
        if d < t.nodes.len() {
            let n = &t.nodes[d];
            if !n.is_task || n.enabled != enabled {
                let m = format!("decision {d}: {:?} then {:?}", n.enabled, enabled);
                t.diverged = Some(m);
                return None;
            }
            let c = n.chosen;
            t.depth += 1;
            self.trace.push(c);
            return Some(c);
        }
        let mut sleep = vec![];
        let chosen;
        if self.strategy == Strategy::Dpor {
            if let Some(p) = t.nodes.last() {
                let op = if p.is_task { p.enabled.iter().find(|e| e.0 == p.chosen).map(|e| e.1) } else { None };
                sleep = match op {
                    Some(op) => p.sleep.iter().filter(|(q, o)| *q != p.chosen && !o.dep(&op)).cloned().collect(),
                    None => p.sleep.clone(),
                };
            }
            match enabled.iter().find(|(q, _)| !sleep.iter().any(|(s, _)| s == q)) {
                Some((q, _)) => chosen = *q,
                None => { t.pruned = true; return None }
            }
        } else {
            chosen = enabled[0].0;
        }
        let left = self.left(&t);
        t.nodes.push(Node { is_task: true, enabled: enabled.to_vec(), cur, chosen, n: 0, backtrack: vec![chosen], done: vec![], sleep, left });
        t.depth += 1;
        t.states += 1;
        self.trace.push(chosen);
        Some(chosen)
    }

    fn alternative(&mut self, n: usize) -> usize {
        let mut t = self.t.borrow_mut();
        let d = t.depth;
        if d < t.nodes.len() {
            if t.nodes[d].is_task || t.nodes[d].n as usize != n {
                let m = format!("decision {d}: other alternatives");
                t.diverged = Some(m);
                return 0;
            }
            let c = t.nodes[d].chosen;
            t.depth += 1;
            self.trace.push(c);
            return c as usize;
        }
        let mut sleep = vec![];
        if self.strategy == Strategy::Dpor {
            if let Some(p) = t.nodes.last() {
                let op = if p.is_task { p.enabled.iter().find(|e| e.0 == p.chosen).map(|e| e.1) } else { None };
                sleep = match op { Some(op) => p.sleep.iter().filter(|(q, o)| *q != p.chosen && !o.dep(&op)).cloned().collect(), None => p.sleep.clone() };
            }
        }
        let left = self.left(&t);
        t.nodes.push(Node { is_task: false, enabled: vec![], cur: None, chosen: 0, n: n as u32, backtrack: vec![], done: vec![], sleep, left });
        t.depth += 1;
        t.states += 1;
        self.trace.push(0);
        0
    }

    fn trace(&self) -> &[u32] { &self.trace }
}

/// Orders of dependent steps that were not tried are added to the nodes.
fn races(t: &mut Tree, steps: &[Step], births: &[usize]) {
    let n = steps.len();
    // node of each step
    let at: Vec<usize> = t.nodes.iter().enumerate().filter(|(_, x)| x.is_task).map(|(i, _)| i).collect();
    let words = n.div_ceil(64);
    // clock of a step: the steps it depends on, itself included
    let mut clock: Vec<Vec<u64>> = Vec::with_capacity(n);
    let mut last: Vec<Option<usize>> = vec![None; births.len()];
    let has = |c: &[u64], i: usize| c[i / 64] >> (i % 64) & 1 == 1;
    for j in 0..n {
        let p = steps[j].task as usize;
        let mut c = vec![0u64; words];
        let join = |c: &mut Vec<u64>, o: &[u64]| for (a, b) in c.iter_mut().zip(o) { *a |= b };
        match last[p] {
            Some(i) => join(&mut c, &clock[i]),
            None => if births[p] < j { join(&mut c, &clock[births[p]]) },
        }
        for i in &steps[j].preds { if *i < j { join(&mut c, &clock[*i]) } }
        for i in (0..j).rev() {
            if has(&c, i) || steps[i].task == steps[j].task || !steps[i].op.dep(&steps[j].op) { continue }
            // a race between i and j
            let node = at[i];
            if node < t.nodes.len() {
                // what comes after i without depending on it, then j: who can begin it
                let mut v: Vec<usize> = ((i + 1)..j).filter(|k| !has(&clock[*k], i)).collect();
                v.push(j);
                let mut initials: Vec<u32> = vec![];
                for (x, k) in v.iter().enumerate() {
                    let q = steps[*k].task;
                    if v[..x].iter().any(|m| steps[*m].task == q) { continue }
                    let first = if *k == j {
                        // j's own clock is being computed: c holds what precedes it, apart from i
                        !v[..x].iter().any(|m| has(&c, *m) || steps[*m].op.dep(&steps[j].op))
                    } else {
                        !v[..x].iter().any(|m| has(&clock[*k], *m))
                    };
                    if first && !initials.contains(&q) { initials.push(q) }
                }
                let nd = &mut t.nodes[node];
                if !initials.iter().any(|q| nd.backtrack.contains(q) || nd.sleep.iter().any(|s| s.0 == *q)) {
                    match initials.iter().find(|q| nd.enabled.iter().any(|e| e.0 == **q)) {
                        Some(q) => nd.backtrack.push(*q),
                        None => for e in &nd.enabled { if !nd.backtrack.contains(&e.0) { nd.backtrack.push(e.0) } },
                    }
                }
            }
            let o = clock[i].clone();
            join(&mut c, &o);
        }
        c[j / 64] |= 1 << (j % 64);
        clock.push(c);
        last[p] = Some(j);
    }
}

/// The next execution, if any.
fn advance(t: &mut Tree, l: &Limits, s: Strategy) -> bool {
    while let Some(d) = t.nodes.len().checked_sub(1) {
        // nothing before this one deviates from the default schedule
        let clean = t.nodes[..d].iter().all(|n| cost(n, n.chosen, false) == 0);
        let n = t.nodes.last_mut().unwrap();
        match s {
            Strategy::Dpor => {
                if n.is_task {
                    let op = n.enabled.iter().find(|e| e.0 == n.chosen).unwrap().1;
                    n.done.push(n.chosen);
                    n.sleep.push((n.chosen, op));
                    let sl = &n.sleep;
                    if let Some(q) = n.backtrack.iter().copied().find(|q| !n.done.contains(q) && !sl.iter().any(|s| s.0 == *q)) { n.chosen = q; return true }
                } else if n.chosen + 1 < n.n { n.chosen += 1; return true }
            }
            Strategy::Bounded { free, .. } => {
                let total = if n.is_task { n.enabled.len() as u32 } else { n.n };
                let pos = if n.is_task { n.enabled.iter().position(|e| e.0 == n.chosen).unwrap() as u32 } else { n.chosen };
                let mine = !clean || d as u64 % l.shard.1 == l.shard.0;
                if mine {
                    for k in pos + 1..total {
                        let c = if n.is_task { n.enabled[k as usize].0 } else { k };
                        if cost(n, c, free) <= n.left { n.chosen = c; return true }
                    }
                }
            }
        }
        t.nodes.pop();
    }
    false
}

/// Runs `f` under every decision sequence of the strategy. `f` builds everything it uses.
pub fn explore(s: Strategy, l: &Limits, f: Rc<dyn Fn()>) -> Report {
    let t0 = Instant::now();
    let t = Rc::new(RefCell::new(Tree::default()));
    let mut r = Report::default();
    loop {
        { let mut t = t.borrow_mut(); t.depth = 0; t.pruned = false; }
        let g = f.clone();
        let o = run(Box::new(Walk { t: t.clone(), strategy: s, trace: vec![] }), l, false, move || g());
        r.runs += 1;
        r.transitions += o.steps.len() as u64;
        r.max_threads = r.max_threads.max(o.max_live);
        r.max_depth = r.max_depth.max(o.steps.len());
        let mut tr = t.borrow_mut();
        if tr.pruned { r.pruned += 1 }
        r.states = tr.states;
        if let Some(d) = tr.diverged.take() { r.diverged = Some(d); return r }
        if tr.depth < tr.nodes.len() { r.diverged = Some(format!("ended after {} of {} decisions", tr.depth, tr.nodes.len())); return r }
        if let Some(m) = o.fault {
            // once more, to tell the story
            drop(tr);
            t.borrow_mut().depth = 0;
            let g = f.clone();
            let again = run(Box::new(Walk { t: t.clone(), strategy: s, trace: vec![] }), l, true, move || g());
            r.fault = Some((m, o.trace, again.log));
            return r;
        }
        if s == Strategy::Dpor { races(&mut tr, &o.steps, &o.births) }
        if !advance(&mut tr, l, s) { r.complete = true; return r }
        if r.runs >= l.runs || t0.elapsed().as_secs_f64() > l.secs { return r }
    }
}
