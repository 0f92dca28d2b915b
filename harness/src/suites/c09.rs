//! C09: the destination after the creator died or met an I/O error, at every operation it makes on files.

use super::kit;
use super::util::*;
use crate::build;
use crate::dump;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use crate::trace::{self, Act, End, Op, Point};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Arc;

/// One creation: what is written, over what.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Scenario { mode: u8, kind: u8, previous: bool, name: u8 }

const MODES: [Mode; 3] = [Mode::One, Mode::Two, Mode::No];
const KINDS: u8 = 4;
/// Names of the destination; the second one is what a content pack beside the entry point is usually called.
const NAMES: [&str; 2] = ["c.jbk", "c.jbkc"];

impl Scenario {
    fn name(&self) -> String { format!("{:?}-{}-{}", MODES[self.mode as usize], self.kind, if self.previous { "over" } else { "new" }) + ["", "-jbkc"][self.name as usize] }
    fn main(&self) -> &'static str { NAMES[self.name as usize] }
    fn parse(s: &str) -> Option<Scenario> {
        all().into_iter().find(|x| x.name() == s)
    }
    fn spec(&self) -> ContainerSpec {
        let mode = MODES[self.mode as usize];
        match self.kind {
            // small, nothing to compress
            0 => { let mut s = kit::container(Comp::None, mode, 0, 2); s.contents.truncate(2); s }
            // compressed and raw contents, from memory and files, bigger than the buffers; another pack
            1 => {
                let mut s = kit::container(Comp::Zstd(3), mode, 1, 3);
                s.contents.push(ct(2, 20_000, 5, Hint::No, Src::File));
                s.contents.push(ct(2, 30_000, 6, Hint::Yes, Src::Range(10, 20)));
                s.contents.push(ct(2, 9_000, 7, Hint::No, Src::Mem));
                s
            }
            // no content at all
            2 => { let mut s = kit::container(Comp::Zstd(3), mode, 0, 1); s.contents.clear(); s }
            // two other packs, one of them raw, a directory bigger than the buffers
            _ => { let mut s = kit::container(Comp::Lz4(3), mode, 2, 60); s.contents.truncate(3); s }
        }
    }
}

fn all() -> Vec<Scenario> {
    let mut v = vec![];
    for kind in 0..KINDS { for mode in 0..3 { for previous in [false, true] { v.push(Scenario { mode, kind, previous, name: 0 }) } } }
    for mode in 0..3 { for previous in [false, true] { v.push(Scenario { mode, kind: 0, previous, name: 1 }) } }
    v
}

/// What the previous creation at the same place left.
fn older(s: &Scenario) -> ContainerSpec {
    let mut c = kit::container(Comp::None, MODES[s.mode as usize], s.spec().extra.len(), 4);
    c.contents.push(ct(2, 50_000, 99, Hint::No, Src::Mem));
    c
}

/// `jv create SCENARIO SRC OUT`: the process that is killed.
pub fn create_child(name: &str, src: &Path, out: &Path) -> i32 {
    let Some(s) = Scenario::parse(name) else { return 3 };
    match build::create_from(&s.spec(), src, out, s.main(), Arc::new(())) { Ok(_) => 0, Err(_) => 10 }
}

/// A scenario and what its fault-free run did.
struct Base { s: Scenario, want: Dump, indexes: Vec<String>, packs: u16, old: Vec<(String, Vec<u8>)>, ops: Vec<Op>, done: Vec<String> }

impl Base {
    fn new(root: &Path, s: Scenario) -> Base {
        let spec = s.spec();
        let dir = root.join(format!("base-{}", s.name()));
        let m = kit::make_as(&dir, "new", &spec, s.main());
        let old = if s.previous { kit::make_as(&dir, "old", &older(&s), s.main()).files } else { vec![] };
        let mut b = Base { s, want: m.want.clone(), indexes: m.indexes.clone(), packs: m.packs, old, ops: vec![], done: m.files.iter().map(|f| f.0.clone()).collect() };
        let w = dir.join("run");
        let r = b.run(&w, &[]).unwrap();
        assert!(r.end == End::Exit(0), "{}: creation under observation ends with {:?}", s.name(), r.end);
        let st = b.judge(&w).unwrap_or_else(|e| panic!("{}: {e}", s.name()));
        assert!(st == "new", "{}: creation succeeds, the destination is {st}", s.name());
        b.ops = r.ops;
        b
    }

    fn run(&self, w: &Path, faults: &[(Point, Act)]) -> Result<trace::Run, String> {
        let (src, out) = (w.join("src"), w.join("out"));
        let _ = std::fs::remove_dir_all(w);
        for d in [&src, &out] { std::fs::create_dir_all(d).map_err(|e| e.to_string())?; }
        for (n, b) in &self.old { std::fs::write(out.join(n), b).map_err(|e| e.to_string())?; }
        let mut c = Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
        c.arg("create").arg(self.s.name()).arg(&src).arg(&out);
        unsafe {
            use std::os::unix::process::CommandExt;
            // one worker thread is enough, operations on files are not theirs
            c.pre_exec(|| {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let cpu = libc::sched_getcpu().max(0) as usize;
                libc::CPU_SET(cpu, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                Ok(())
            });
        }
        trace::run(c, &[&src, &out], faults, 4).map_err(|e| format!("cannot trace: {e}"))
    }

    fn judge(&self, w: &Path) -> Result<&'static str, String> {
        let out = w.join("out");
        let old = |n: &str| self.old.iter().find(|o| o.0 == n).map(|o| &o.1);
        // 1. the entry point
        let main = out.join(self.s.main());
        let state = match std::fs::read(&main) {
            // a file that was there stays until the new one takes its place
            Err(_) if !main.exists() && old(self.s.main()).is_some() => return Err("the previous file is gone and nothing is at the destination".into()),
            Err(_) if !main.exists() => "absent",
            Err(e) => return Err(format!("the destination cannot be read: {e}")),
            Ok(b) if old(self.s.main()) == Some(&b) => "previous",
            Ok(_) => {
                let o = dump::Opts { indexes: &self.indexes, check: true, max_pack: self.packs, cap: 100_000, ..Default::default() };
                let got = dump::observe(&main, &o);
                if got.get("#check") != Some(&Obs::Bool(true)) { return Err(format!("the destination holds a container whose check is {:?} (opening: {:?})", got.get("#check").map(Obs::brief), got.get("open").map(Obs::brief))) }
                if let Some(d) = model::disagree(&self.want, &got) { return Err(format!("the destination holds a container which is not the one created: {d}")) }
                "new"
            }
        };
        // 2. the other files the creator puts at their final place are complete as soon as they are there
        for f in files(&out) {
            let n = f.file_name().unwrap().to_str().unwrap().to_string();
            if n == self.s.main() || n.starts_with(".tmp") || !self.done.contains(&n) { continue }
            let b = read(&f);
            if old(&n) == Some(&b) { continue }
            let ok = jubako::tools::open_pack(&f).and_then(|p| p.check());
            if !matches!(ok, Ok(true)) { return Err(format!("the pack file {n} ({} bytes) is at its place and incomplete: check is {:?}; the destination is {state}", b.len(), ok.map_err(|e| e.to_string()))) }
        }
        Ok(state)
    }

    fn one(&self, cx: &Cx, faults: &[(Point, Act)]) -> Result<trace::Run, String> {
        let w = cx.dir.join("run");
        let r = guard(|| self.run(&w, faults)).and_then(|x| x)?;
        let say = || faults.iter().map(|(p, a)| format!("{a:?} at operation {} on {} ", p.n, p.file)).collect::<String>();
        let state = self.judge(&w).map_err(|e| format!("{}: {}; the creation ended with {:?}: {e}", self.s.name(), say(), r.end))?;
        cx.states(1);
        cx.transitions(r.ops.iter().filter(|o| o.mutates).count() as u64);
        cx.traces(1);
        cx.evals(1);
        if r.hit.iter().any(|h| h.is_some()) { cx.nontrivial(1); }
        cx.outcome(&format!("{:?} {state}", r.end));
        cx.note(&format!("{} then {state}", match &r.end { End::Exit(0) => "success".into(), End::Exit(10) => "error returned".into(), End::Exit(n) => format!("exit {n}"), End::Signal(_) => "death".into(), End::Stuck => "stuck, ended".to_string() }), 1);
        Ok(r)
    }
}

fn faults(o: &Op, t: bool, every: bool) -> Vec<Act> {
    let mut v = vec![];
    if o.mutates {
        v.push(Act::Kill);
        let len = o.len;
        if len > 0 {
            let mut cuts: Vec<u64> = if every || len <= if t { 256 } else { 8 } { (1..=len).collect() }
                else { (1..=if t { 64 } else { 1 }).chain([len / 2, len - 1, len]).chain((1..).map(|k| k * if t { 64 } else { 4096 }).take_while(|k| *k < len)).collect() };
            cuts.sort();
            cuts.dedup();
            v.extend(cuts.iter().map(|c| Act::KillAfter(*c)));
            for k in [1, len / 2, len - 1] { if k > 0 && k < len { v.push(Act::Short(k)); } }
        } else {
            v.push(Act::KillAfter(0));
        }
        v.push(Act::Full(libc::ENOSPC));
    } else if o.len > 0 {
        v.push(Act::Short(1));
    }
    v.push(Act::Err(libc::EIO));
    v.push(Act::Err(libc::EINTR));
    if t { v.extend([Act::Err(libc::ENOSPC), Act::Err(libc::EACCES), Act::Err(libc::EXDEV), Act::Err(libc::EAGAIN)]); }
    else if o.call.starts_with("rename") || o.call.starts_with("link") { v.extend([Act::Err(libc::EXDEV), Act::Err(libc::EACCES)]); }
    v
}

fn spaces(tier: Tier, dir: &Path) -> Vec<Space> {
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let dir: PathBuf = dir.to_path_buf();
    for s in all() {
        if !t && s.kind >= 1 && !s.previous { continue }
        let b = Arc::new(Base::new(&dir, s));
        // one fault
        let mut cases = vec![];
        for o in &b.ops { for a in faults(o, t, t && s.kind == 0) { cases.push((o.clone(), a)); } }
        let cases = Arc::new(cases);
        let (b2, c2) = (b.clone(), cases.clone());
        out.push(Space::new(&format!("fault-{}", s.name()), cases.len() as u64, move |i, cx| {
            let (o, a) = &c2[i as usize];
            let r = b2.one(cx, &[(o.at.clone(), *a)])?;
            if r.hit[0].is_none() { cx.note("operation not met again", 1); }
            Ok(())
        }).desc({ let c = cases.clone(); move |i| { let (o, a) = &c[i as usize]; format!("{a:?} at {} {} of {} ({} bytes)", o.call, o.at.n, o.at.file, o.len) } }).horizon(30));
        // an error, then the death of the process at each operation made after it
        let firsts: Arc<Vec<(Op, Act)>> = Arc::new(b.ops.iter().flat_map(|o| {
            let mut v = vec![(o.clone(), Act::Err(libc::EIO))];
            if o.mutates { v.push((o.clone(), Act::Full(libc::ENOSPC))); if o.call.starts_with("rename") || o.call.starts_with("link") { v.push((o.clone(), Act::Err(libc::EXDEV))); v.push((o.clone(), Act::Err(libc::EEXIST))); } }
            v
        }).collect());
        if t || s.kind == 0 {
            let f2 = firsts.clone();
            out.push(Space::new(&format!("error-then-death-{}", s.name()), firsts.len() as u64, move |i, cx| {
                let (o, a) = &f2[i as usize];
                let first = (o.at.clone(), *a);
                let r = b.one(cx, &[first.clone()])?;
                let Some(h) = r.hit[0] else { return Ok(()) };
                for o in r.ops[h + 1..].iter().filter(|o| o.mutates) {
                    b.one(cx, &[first.clone(), (o.at.clone(), Act::Kill)])?;
                    if o.len > 1 { b.one(cx, &[first.clone(), (o.at.clone(), Act::KillAfter(o.len / 2))])?; }
                }
                Ok(())
            }).desc(move |i| { let (o, a) = &firsts[i as usize]; format!("{a:?} at {} {} of {}, then death at each later operation", o.call, o.at.n, o.at.file) }).horizon(300));
        }
    }
    out
}

pub fn suite() -> Suite {
    Suite {
        level: "fault_enumeration",
        rule: "every operation the creating process makes on files under its directories (found by tracing a fault-free run of the same creation) x {death before it, death after each enumerated number of bytes, each errno, full disk from there on, short count}, and pairs error + later death; after each run the destination is absent, byte-identical to the previous file, or a container that opens, verifies and reads back as the model says, with all its pack files complete",
        assumptions: vec![
            "x86_64 Linux, ptrace of the check's own children",
            "process death, not power loss: what was written before the death is visible after it",
        ],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}
