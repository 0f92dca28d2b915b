//! Cases of the explorer as cases of the harness.

use crate::infra::*;
use eng::{Limits, Strategy};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

thread_local! { static SINK: RefCell<BTreeMap<String, u64>> = const { RefCell::new(BTreeMap::new()) }; }
/// What an execution came to.
pub fn outcome(s: String) { SINK.with(|m| *m.borrow_mut().entry(s).or_default() += 1) }

/// `make` is called in the thread that explores and gives the program that every execution runs.
pub struct Case { pub name: String, pub strategy: Strategy, pub limits: Limits, pub make: Box<dyn Fn(&std::path::Path) -> Rc<dyn Fn()> + Send + Sync> }

impl Case {
    pub fn new(name: String, strategy: Strategy, make: impl Fn(&std::path::Path) -> Rc<dyn Fn()> + Send + Sync + 'static) -> Case {
        Case { name, strategy, limits: Limits { steps: 20_000, ..Default::default() }, make: Box::new(make) }
    }
    pub fn spurious(mut self, n: u32) -> Case { self.limits.spurious = n; if n > 0 { self.name += &format!(", {n} spurious wake-up"); } self }
    pub fn steps(mut self, n: u64) -> Case { self.limits.steps = n; self }
    pub fn shard(mut self, k: u64, n: u64) -> Case { self.limits.shard = (k, n); if n > 1 { self.name += &format!(", part {k} of {n}"); } self }
}

pub fn go(c: &Case, secs: f64, cx: &Cx) -> Result<(), String> {
    let f = (c.make)(cx.dir);
    let mut l = c.limits.clone();
    l.secs = secs;
    SINK.with(|m| m.borrow_mut().clear());
    let t = std::time::Instant::now();
    let r = eng::explore(c.strategy, &l, f);
    if std::env::var_os("JVS_TIMES").is_some() {
        eprintln!("{:>8} ms {:>9} executions ({} repeat) {:>9} states depth {:>4} threads {:>2} {:?} {} {}", t.elapsed().as_millis(), r.runs, r.pruned, r.states, r.max_depth, r.max_threads, c.strategy,
            if r.complete { "complete" } else { "CUT" }, c.name);
    }
    cx.states(r.states);
    cx.transitions(r.transitions);
    cx.traces(r.runs - r.pruned);
    cx.note("executions", r.runs);
    cx.note("executions that only repeat others", r.pruned);
    cx.note(match c.strategy { Strategy::Dpor => "programs explored up to independence", _ => "programs explored up to a number of deviations" }, 1);
    SINK.with(|m| for k in m.borrow().keys() { cx.outcome(&format!("{}: {k}", c.name)) });
    cx.sample(|| format!("{}: {} executions, {} states, depth {}, {} threads", c.name, r.runs, r.states, r.max_depth, r.max_threads));
    if let Some(d) = &r.diverged { cx.note("programs that do not repeat themselves", 1); cx.sample(|| format!("{}: {d}", c.name)); cx.partial(); }
    else if !r.complete && r.fault.is_none() { cx.note("programs not explored to the end", 1); cx.partial(); }
    match r.fault {
        None => Ok(()),
        Some((m, trace, log)) => {
            let n = log.len();
            let tail = log[n.saturating_sub(60)..].join(" | ");
            Err(format!("{m} [execution {} of this program; decisions {trace:?}; last operations: {tail}]", r.runs))
        }
    }
}

pub fn space(name: &str, cases: Vec<Case>, secs: f64) -> Space {
    let cases = Arc::new(cases);
    let names = cases.clone();
    Space::new(name, cases.len() as u64, move |i, cx| go(&cases[i as usize], secs, cx))
        .desc(move |i| names[i as usize].name.clone())
        .horizon(secs as u64 * 2 + 60)
}

pub fn litmus() -> Space {
    let p = crate::litmus::programs();
    Space::new("explorer-self-check", p.len() as u64, |i, cx| {
        let (a, b, n) = crate::litmus::check(i as usize)?;
        cx.note("executions by reduction", a);
        cx.note("executions in full", b);
        cx.note("results", n as u64);
        Ok(())
    }).desc(move |i| p[i as usize].0.to_string())
}
