//! Exploration infrastructure: spaces of cases, supervised child, violations, evidence.
//!
//! parent: `jv check ID TIER`  - runs the exploration in a child, watches it, reports.
//! child : `jv child ...`      - enumerates the spaces over all cores.
//! one   : `jv one ID TIER KEY`- runs exactly one case (confirmation and replay).

use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Default)]
pub struct Counters {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub nontrivial: AtomicU64,
    pub outcomes: Mutex<HashSet<u64>>,
    pub notes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    /// a case was not explored to its end
    pub partial: AtomicBool,
}

/// What a case sees.
pub struct Cx<'a> {
    pub dir: &'a Path,
    pub c: &'a Counters,
    pub tier: Tier,
}
impl Cx<'_> {
    pub fn states(&self, n: u64) { self.c.states.fetch_add(n, Relaxed); }
    pub fn transitions(&self, n: u64) { self.c.transitions.fetch_add(n, Relaxed); }
    pub fn traces(&self, n: u64) { self.c.traces.fetch_add(n, Relaxed); }
    pub fn evals(&self, n: u64) { self.c.evals.fetch_add(n, Relaxed); }
    pub fn nontrivial(&self, n: u64) { self.c.nontrivial.fetch_add(n, Relaxed); }
    pub fn note(&self, k: &str, n: u64) { *self.c.notes.lock().unwrap().entry(k.into()).or_insert(0) += n; }
    pub fn partial(&self) { self.c.partial.store(true, Relaxed); }
    pub fn outcome(&self, x: &str) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        let mut o = self.c.outcomes.lock().unwrap();
        if o.len() < 2_000_000 { o.insert(h.finish()); }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.c.samples.lock().unwrap();
        if v.len() < 12 { v.push(s()); }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &Cx) -> Result<(), String> + Send + Sync>;

/// A finite space of cases, all of them executed.
pub struct Space {
    pub name: String,
    pub n: u64,
    /// a case that runs longer than this is a hang
    pub horizon: u64,
    pub threads: usize,
    pub run: CaseFn,
    pub desc: Box<dyn Fn(u64) -> String + Send + Sync>,
}
impl Space {
    pub fn new(name: &str, n: u64, run: impl Fn(u64, &Cx) -> Result<(), String> + Send + Sync + 'static) -> Space {
        Space { name: name.into(), n, horizon: 60, threads: 8, run: Box::new(run), desc: Box::new(|i| format!("case {i}")) }
    }
    pub fn desc(mut self, d: impl Fn(u64) -> String + Send + Sync + 'static) -> Space { self.desc = Box::new(d); self }
    pub fn horizon(mut self, s: u64) -> Space { self.horizon = s; self }
    pub fn threads(mut self, s: usize) -> Space { self.threads = s; self }
}

pub struct Suite {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub exhaustive: bool,
    /// also run under the debug build
    pub dbg: bool,
    /// the spaces; `dir` is a scratch directory that outlives them
    pub spaces: fn(Tier, &Path) -> Vec<Space>,
}

// ---------------------------------------------------------------- panics

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// also told about panics
pub static ON_PANIC: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panic at {l}: {}", cut(&m, 300));
        if let Ok(mut p) = PANICS.lock() { if p.len() < 1000 { p.push(format!("[{}] {s}", std::thread::current().name().unwrap_or("?"))); } }
        if let Some(f) = ON_PANIC.get() { f(&l) }
        LAST.with(|x| *x.borrow_mut() = s);
    }));
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut i = n;
    while !s.is_char_boundary(i) { i -= 1; }
    format!("{}…", &s[..i])
}

/// Runs `f`; a panic becomes its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST.with(|x| x.borrow_mut().clear());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let m = LAST.with(|x| x.borrow().clone());
        if !m.is_empty() { return m; }
        // resumed from another thread
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
        let last = PANICS.lock().ok().and_then(|v| v.last().cloned()).unwrap_or_default();
        format!("panic in another thread: {m} (last seen {last})")
    })
}

// ---------------------------------------------------------------- shared slots

const SLOT: usize = 512;
const SLOTS: usize = 64;

struct Shm { p: *mut u8 }
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
impl Shm {
    fn open(path: &Path) -> Shm {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8 }
    }
    fn start(&self, t: usize, horizon: u64, key: &str) {
        unsafe {
            let s = self.p.add(t * SLOT);
            let k = &key.as_bytes()[..key.len().min(SLOT - 20)];
            std::ptr::copy_nonoverlapping(k.as_ptr(), s.add(18), k.len());
            (s.add(16) as *mut u16).write_volatile(k.len() as u16);
            (s.add(8) as *mut u64).write_volatile(horizon);
            std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
            (s as *mut u64).write_volatile(now_ms());
        }
    }
    fn stop(&self, t: usize) {
        unsafe { (self.p.add(t * SLOT) as *mut u64).write_volatile(0) }
    }
    fn get(&self, t: usize) -> Option<(u64, u64, String)> {
        unsafe {
            let s = self.p.add(t * SLOT);
            let a = (s as *const u64).read_volatile();
            if a == 0 { return None; }
            let h = (s.add(8) as *const u64).read_volatile();
            let n = (s.add(16) as *const u16).read_volatile() as usize;
            let k = std::slice::from_raw_parts(s.add(18), n.min(SLOT - 20));
            Some((a, h, String::from_utf8_lossy(k).into_owned()))
        }
    }
    fn clear(&self) { for t in 0..SLOTS { self.stop(t) } }
}

pub fn now_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 + 1
}

// ---------------------------------------------------------------- child

pub fn child(suite: &Suite, tier: Tier, work: &Path, label: &str, budget: u64) {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    quiet_panics();
    let shm = Arc::new(Shm::open(&work.join("shm")));
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut skip: BTreeSet<String> = BTreeSet::new();
    for l in std::fs::read_to_string(work.join("done")).unwrap_or_default().lines() { done.insert(l.into()); }
    for l in std::fs::read_to_string(work.join("skip")).unwrap_or_default().lines() { skip.insert(l.into()); }
    let log = Mutex::new(std::fs::OpenOptions::new().append(true).create(true).open(work.join("log")).unwrap());
    let emit = |j: J| { let mut l = log.lock().unwrap(); let _ = writeln!(l, "{j}"); };
    let fix = work.join("fix");
    let _ = std::fs::create_dir_all(&fix);
    shm.start(SLOTS - 1, 240, "setup:0");
    let spaces = match guard(|| (suite.spaces)(tier, &fix)) {
        Ok(s) => s,
        Err(m) => {
            emit(json!({"v": "setup:0", "label": label, "msg": format!("the base containers cannot be made: {m}"), "desc": "set-up"}));
            emit(json!({"end": true}));
            return;
        }
    };
    shm.stop(SLOTS - 1);
    // Rounds: every space gets an equal share of the time that is left, and those that did not end go on in
    // the next round, so that a slow machine takes from the deepest spaces and not from the last ones.
    struct Run { c: Counters, back: Vec<std::ops::Range<u64>>, next: AtomicU64, ran: AtomicU64, viol: AtomicU64, ms: u64, ended: bool }
    let end = Instant::now() + Duration::from_secs(budget);
    // for development: the spaces of this name only
    let only = std::env::var("JV_ONLY").ok();
    let mut runs: Vec<(&Space, Run)> = spaces.iter().filter(|s| !done.contains(&s.name) && only.as_ref().is_none_or(|o| s.name.starts_with(o.as_str())))
        .map(|s| (s, Run { c: Counters::default(), back: vec![], next: AtomicU64::new(0), ran: AtomicU64::new(0), viol: AtomicU64::new(0), ms: 0, ended: false })).collect();
    for round in 0.. {
        let mut todo = runs.iter().filter(|r| !r.1.ended).count() as u32;
        let last = Instant::now() >= end;
        if todo == 0 || (last && round > 0) { break; }
        for (sp, r) in runs.iter_mut().filter(|r| !r.1.ended) {
            let t0 = Instant::now();
            let till = t0 + end.saturating_duration_since(t0) / todo + Duration::from_millis(300);
            todo -= 1;
            let chunk = (sp.n / (sp.threads as u64 * 64)).clamp(1, 256);
            let capped = AtomicBool::new(false);
            // what the threads took and did not run when the time was over
            let back: Mutex<Vec<std::ops::Range<u64>>> = Mutex::new(vec![]);
            let todo: Mutex<Vec<std::ops::Range<u64>>> = Mutex::new(std::mem::take(&mut r.back));
            std::thread::scope(|s| {
                for t in 0..sp.threads.min(SLOTS - 1) {
                    let (shm, r, capped, skip, emit, back, todo, sp) = (&shm, &*r, &capped, &skip, &emit, &back, &todo, &*sp);
                    std::thread::Builder::new().name(format!("jv-{t}")).stack_size(16 << 20).spawn_scoped(s, move || {
                        let dir = work.join(format!("t{t}"));
                        let _ = std::fs::create_dir_all(&dir);
                        let cx = Cx { dir: &dir, c: &r.c, tier };
                        'o: loop {
                            let again = todo.lock().unwrap().pop();
                            let range = again.unwrap_or_else(|| {
                                let a = r.next.fetch_add(chunk, Relaxed);
                                a.min(sp.n)..(a + chunk).min(sp.n)
                            });
                            if range.is_empty() { break; }
                            for i in range.clone() {
                                if r.viol.load(Relaxed) >= 10 { break 'o; }
                                if Instant::now() >= till {
                                    capped.store(true, Relaxed);
                                    back.lock().unwrap().push(i..range.end);
                                    break 'o;
                                }
                                let key = format!("{}:{}", sp.name, i);
                                if skip.contains(&key) { continue; }
                                shm.start(t, sp.horizon, &key);
                                let x = guard(|| (sp.run)(i, &cx)).and_then(|x| x);
                                shm.stop(t);
                                r.ran.fetch_add(1, Relaxed);
                                if let Err(m) = x {
                                    r.viol.fetch_add(1, Relaxed);
                                    emit(json!({"v": key, "label": label, "msg": cut(&m, 1500), "desc": cut(&(sp.desc)(i), 1500)}));
                                }
                            }
                        }
                        let _ = std::fs::remove_dir_all(&dir);
                    }).unwrap();
                }
            });
            let mut rest = back.into_inner().unwrap();
            rest.extend(todo.into_inner().unwrap());
            r.back = rest;
            r.ms += t0.elapsed().as_millis() as u64;
            r.ended = !capped.load(Relaxed) || r.viol.load(Relaxed) >= 10;
            if r.ended {
                report(sp.name.as_str(), sp.n, label, &r.c, &r.ran, &r.viol, r.ms, false, &emit);
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(work.join("done")).unwrap();
                let _ = writeln!(f, "{}", sp.name);
            }
        }
    }
    for (sp, r) in &runs {
        if !r.ended { report(sp.name.as_str(), sp.n, label, &r.c, &r.ran, &r.viol, r.ms, true, &emit); }
    }
    emit(json!({"end": true}));
}

#[allow(clippy::too_many_arguments)]
fn report(name: &str, n: u64, label: &str, c: &Counters, ran: &AtomicU64, viol: &AtomicU64, ms: u64, capped: bool, emit: &dyn Fn(J)) {
    let g = |a: &AtomicU64| a.load(Relaxed);
    emit(json!({"space": name, "label": label, "n": n, "ran": g(ran), "capped": capped || c.partial.load(Relaxed) || g(viol) >= 10,
        "states": g(&c.states), "transitions": g(&c.transitions), "traces": g(&c.traces), "evals": g(&c.evals),
        "nontrivial": g(&c.nontrivial), "outcomes": c.outcomes.lock().unwrap().len(),
        "notes": *c.notes.lock().unwrap(), "samples": *c.samples.lock().unwrap(), "ms": ms}));
}

/// Exit: 0 holds, 1 violation, 2 unknown key.
pub fn one(suite: &Suite, tier: Tier, key: &str, work: &Path) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
    quiet_panics();
    let fix = work.join("fix");
    let _ = std::fs::create_dir_all(&fix);
    let spaces = match guard(|| (suite.spaces)(tier, &fix)) {
        Ok(s) => s,
        Err(m) => { println!("the base containers cannot be made: {m}"); return 1; }
    };
    if key == "setup:0" { println!("set-up succeeds"); return 0; }
    let Some((n, i)) = key.rsplit_once(':') else { println!("bad key {key}"); return 2 };
    let (Some(sp), Ok(i)) = (spaces.iter().find(|s| s.name == n), i.parse::<u64>()) else { println!("unknown key {key}"); return 2 };
    println!("case {key}: {}", (sp.desc)(i));
    let dir = work.join("one");
    let _ = std::fs::create_dir_all(&dir);
    let c = Counters::default();
    match guard(|| (sp.run)(i, &Cx { dir: &dir, c: &c, tier })).and_then(|x| x) {
        Ok(()) => { println!("holds"); 0 }
        Err(m) => { println!("VIOLATED: {m}"); 1 }
    }
}

// ---------------------------------------------------------------- parent

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("jv-{tag}-{}-{}", std::process::id(), now_ms()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Viol { key: String, label: String, msg: String, desc: String }

fn wait(ch: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() { return Some(s); }
        if t.elapsed().as_secs() >= secs { return None; }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn run_one(exe: &Path, id: &str, tier: Tier, key: &str, horizon: u64) -> Result<(), String> {
    let sc = Scratch::new("one");
    let mut ch = std::process::Command::new(exe)
        .args(["one", id, tname(tier), key]).arg(&sc.0)
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let st = wait(&mut ch, horizon + 60);
    if st.is_none() { let _ = ch.kill(); let _ = ch.wait(); }
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let mut err = String::new();
    let _ = ch.stderr.take().unwrap().read_to_string(&mut err);
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => Err(format!("does not terminate within {horizon} s")),
        Some(s) if s.code() == Some(0) => Ok(()),
        Some(s) if s.code() == Some(1) => Err(out.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("violated").to_string()),
        Some(s) => Err(format!("the process died ({}) {}", s.signal().map(|x| format!("signal {x}")).unwrap_or_else(|| format!("{s}")), cut(&err, 400))),
    }
}

pub fn tname(t: Tier) -> &'static str { match t { Tier::Quick => "quick", Tier::Thorough => "thorough" } }

/// Known findings: `finding: property=<id> case=<key or prefix*> match=<text in message> | <what fails>`
fn known(id: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let Some((h, what)) = r.split_once(" | ") else { continue };
        let Some(h) = h.strip_prefix(&format!("property={id} case=")) else { continue };
        let (case, m) = h.split_once(" match=").unwrap_or((h, ""));
        out.push((case.to_string(), m.to_string(), what.to_string()));
    }
    out
}

pub fn check(id: &str, suite: &Suite, tier: Tier, exes: &[(String, PathBuf)], budget: u64) -> i32 {
    let t0 = Instant::now();
    let mut viols: Vec<Viol> = vec![];
    let mut spaces: Vec<J> = vec![];
    let mut engine_error: Option<String> = None;
    let left = exes.len() as u64;
    for (n, (label, exe)) in exes.iter().enumerate() {
        let sc = Scratch::new(id);
        let shm = Shm::open(&sc.0.join("shm"));
        let per = (budget.saturating_sub(t0.elapsed().as_secs())) / (left - n as u64).max(1);
        let phase = Instant::now();
        let mut deaths = 0;
        let mut unexplained = 0;
        loop {
            shm.clear();
            let rest = per.saturating_sub(phase.elapsed().as_secs()).max(1);
            let mut ch = std::process::Command::new(exe)
                .args(["child", id, tname(tier)]).arg(&sc.0).arg(label).arg(rest.to_string())
                .stdout(std::process::Stdio::null())
                .stderr(std::fs::OpenOptions::new().create(true).append(true).open(sc.0.join("stderr")).unwrap())
                .spawn().unwrap();
            let mut stuck: Option<String> = None;
            let st = loop {
                if let Ok(Some(s)) = ch.try_wait() { break Some(s); }
                let now = now_ms();
                for t in 0..SLOTS {
                    if let Some((a, h, k)) = shm.get(t) {
                        if now.saturating_sub(a) > h * 1000 { stuck = Some(k); }
                    }
                }
                if stuck.is_some() { let _ = ch.kill(); let _ = ch.wait(); break None; }
                std::thread::sleep(Duration::from_millis(50));
            };
            let ended = std::fs::File::open(sc.0.join("log")).map(|f| {
                std::io::BufReader::new(f).lines().map_while(Result::ok).any(|l| l == "{\"end\":true}")
            }).unwrap_or(false);
            if st.map(|s| s.success()).unwrap_or(false) && ended { break; }
            // The child died or is stuck: find the case, alone.
            deaths += 1;
            let mut cands: Vec<(String, u64)> = vec![];
            for t in 0..SLOTS { if let Some((_, h, k)) = shm.get(t) { cands.push((k, h)); } }
            let confirm: Vec<(String, Result<(), String>)> = std::thread::scope(|s| {
                let hs: Vec<_> = cands.iter().map(|(k, h)| s.spawn(move || (k.clone(), run_one(exe, id, tier, k, *h)))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut any = false;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(sc.0.join("skip")).unwrap();
            for (k, r) in confirm {
                if let Err(m) = r {
                    any = true;
                    let _ = writeln!(f, "{k}");
                    viols.push(Viol { key: k, label: label.clone(), msg: m, desc: String::new() });
                }
            }
            if !any {
                unexplained += 1;
                let e = std::fs::read_to_string(sc.0.join("stderr")).unwrap_or_default();
                let what = format!("child died ({st:?}, stuck {stuck:?}) and none of {cands:?} reproduces it; stderr: {}", cut(&e, 600));
                eprintln!("{what}");
                if unexplained >= 3 { engine_error = Some(what); break; }
            }
            if deaths >= 6 || viols.len() >= 12 { break; }
        }
        for l in std::fs::read_to_string(sc.0.join("log")).unwrap_or_default().lines() {
            let Ok(j) = serde_json::from_str::<J>(l) else { continue };
            if let Some(k) = j["v"].as_str() {
                let v = Viol { key: k.into(), label: j["label"].as_str().unwrap_or("").into(), msg: j["msg"].as_str().unwrap_or("").into(), desc: j["desc"].as_str().unwrap_or("").into() };
                if !viols.iter().any(|x| x.key == v.key && x.label == v.label) { viols.push(v); }
            } else if j["space"].is_string() { spaces.push(j); }
        }
    }
    // evidence
    let sum = |k: &str| spaces.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let samples: Vec<J> = spaces.iter().flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default().into_iter().take(3)
        .map(move |x| json!({"space": s["space"], "case": x}))).take(40).collect();
    let list: Vec<J> = spaces.iter().map(|s| { let mut s = s.clone(); s.as_object_mut().unwrap().remove("samples"); s }).collect();
    let capped = spaces.iter().any(|s| s["capped"] == json!(true));
    let mut cov = json!({
        "samples": samples, "rule": suite.rule, "spaces": list, "exhaustive": suite.exhaustive && !capped && engine_error.is_none(),
        "distinct_outcomes": sum("outcomes"), "cases_run": sum("ran"),
    });
    let o = cov.as_object_mut().unwrap();
    if suite.level == "model_checking" {
        o.insert("states".into(), json!(sum("states")));
        o.insert("transitions".into(), json!(sum("transitions")));
        o.insert("traces_validated_against_impl".into(), json!(sum("traces")));
    } else {
        o.insert("evaluations".into(), json!(sum("evals")));
        o.insert("distinct_nontrivial".into(), json!(sum("nontrivial")));
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let kf = known(id);
    let mut bad = 0;
    let mut seen = BTreeSet::new();
    for v in &viols {
        let k = kf.iter().find(|(case, m, _)| {
            (case == &v.key || case.strip_suffix('*').map(|p| v.key.starts_with(p)).unwrap_or(false)) && v.msg.contains(m.as_str())
        });
        if let Some((_, _, what)) = k {
            if seen.insert(what.clone()) { println!("KNOWN-FINDING: property={id} {what}"); }
            continue;
        }
        bad += 1;
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{id}-{}-{}.json", v.key.replace([':', '/', ' '], "_"), v.label));
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": id, "tier": tname(tier), "build": v.label, "key": v.key, "case": v.desc, "violation": v.msg})).unwrap());
        if bad <= 4 {
            println!("{} [{}] {} :: {}", v.key, v.label, cut(&v.msg, 400), cut(&v.desc, 400));
            println!("VIOLATION property={id} replay={}", p.display());
        }
    }
    let ev = json!({"property": id, "tier": tname(tier), "seed": seed, "level": suite.level, "coverage": cov,
        "assumptions": suite.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": bad});
    let edir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for s in &spaces {
        println!("  {:<28} [{}] {:>9} of {:>9} cases, {} outcomes, {} ms{}", s["space"].as_str().unwrap_or(""), s["label"].as_str().unwrap_or(""),
            s["ran"], s["n"], s["outcomes"], s["ms"], if s["capped"] == json!(true) { " (stopped early)" } else { "" });
    }
    if bad > 0 { return 1; }
    if let Some(e) = engine_error { println!("ENGINE ERROR: {e}"); return 3; }
    println!("{id}: held on everything explored ({} cases, {:.1} s)", sum("ran"), t0.elapsed().as_secs_f64());
    0
}
