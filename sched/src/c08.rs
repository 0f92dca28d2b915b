//! C08: one sequence of insertions, every order of the compression workers and the writer.

use crate::build;
use crate::infra::*;
use crate::pack::text;
use crate::run::{outcome, space, Case};
use crate::spec::*;
use eng::Strategy;
use jubako as jbk;
use jbk::creator;
use jbk::reader::ContentPack;
use jbk::Pack;
use std::collections::HashSet;
use std::path::Path;
use std::rc::Rc;
use std::sync::Arc;

fn bad(m: String) -> ! { eng::violate(m) }

/// A sequence of insertions, one letter each:
/// c, C: to compress, short and longer; r, R: not to; e, z: empty ones; f: not to, from a file; d: as detected;
/// x: to compress, and cannot be read
fn contents(seq: &str) -> Vec<ContentSpec> {
    seq.chars().enumerate().map(|(i, k)| {
        let s = i as u64 + 1;
        let (len, hint, src) = match k {
            'c' => (40 + 11 * i, Hint::Yes, Src::Mem),
            'C' => (9000 + 13 * i, Hint::Yes, Src::Mem),
            'r' => (25 + 7 * i, Hint::No, Src::Mem),
            'R' => (20_000 + 7 * i, Hint::No, Src::Mem),
            'e' => (0, Hint::Yes, Src::Mem),
            'z' => (0, Hint::No, Src::Mem),
            'f' => (300 + i, Hint::No, Src::File),
            'd' => (120 + 5 * i, Hint::Detect, Src::Mem),
            'x' => (50 + i, Hint::Yes, Src::Custom),
            'D' => (4096, Hint::Detect, Src::Mem),
            _ => unreachable!(),
        };
        let data = if k == 'D' { bytes(2, len, s) } else { text(len, s) };
        ContentSpec { data: Arc::new(data), hint, src }
    }).collect()
}

struct Points;
impl creator::Progress for Points {
    fn new_cluster(&self, _i: u32, _c: bool) { eng::user(None) }
    fn handle_cluster(&self, _i: u32, _c: bool) { eng::user(None) }
    fn handle_cluster_written(&self, _i: u32) { eng::user(None) }
}

#[derive(Clone)]
struct Plan { seq: String, comp: Comp, workers: usize, points: bool }

/// What the pack holds, whatever the order of its clusters: nothing to add when it is what was put in.
fn judge(file: &[u8], want: &[ContentSpec], addrs: &[(u16, u32)]) -> String {
    let c = match crate::indep::content(file, true) { Ok(c) => c, Err(e) => bad(format!("the pack is not one: {e}")) };
    if addrs.len() != want.len() { bad(format!("{} addresses for {} contents", addrs.len(), want.len())) }
    for (i, (a, w)) in addrs.iter().zip(want).enumerate() {
        match c.contents.get(a.1 as usize) {
            None => bad(format!("content {i}: address {a:?} is not in the pack of {} contents", c.contents.len())),
            Some(x) if x.obs != Obs::data(&w.data) => bad(format!("content {i} (address {a:?}) is not what was put in: {} instead of {}", x.obs.brief(), Obs::data(&w.data).brief())),
            _ => {}
        }
    }
    let mut order: Vec<((u64, u64), usize)> = c.clusters.iter().enumerate().map(|(i, k)| (k.tail, i)).collect();
    order.sort();
    order.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(" ")
}

/// The same through the library.
fn read_back(path: &Path, want: &[ContentSpec], addrs: &[(u16, u32)]) {
    let p = match jbk::FileSource::open(path).map_err(|e| e.to_string()).and_then(|f| ContentPack::new(jbk::Reader::from(f)).map_err(|e| e.to_string())) { Ok(p) => p, Err(e) => bad(format!("the pack does not open: {e}")) };
    match p.check() { Ok(true) => {} x => bad(format!("the pack does not verify: {x:?}")) }
    for (i, (a, w)) in addrs.iter().zip(want).enumerate() {
        match p.get_content(jbk::ContentIdx::from(a.1)) {
            Ok(Some(r)) => match r.get_slice(jbk::Offset::zero(), r.size().into_u64() as usize) {
                Ok(s) if s.as_ref() == w.data.as_slice() => {}
                Ok(s) => bad(format!("content {i} read back: {} bytes instead of {}", s.len(), w.data.len())),
                Err(e) => bad(format!("content {i} read back: {e}")),
            },
            x => bad(format!("content {i} read back: {:?}", x.map(|o| o.is_some()))),
        }
    }
}

fn program(p: &Plan, dir: &Path) -> Rc<dyn Fn()> {
    let want = Rc::new(contents(&p.seq));
    let p = p.clone();
    let dir = dir.to_path_buf();
    let known: Rc<std::cell::RefCell<HashSet<String>>> = Default::default();
    for (i, c) in want.iter().enumerate() { if c.src == Src::File { std::fs::write(dir.join(format!("in-{i}")), c.data.as_slice()).unwrap() } }
    Rc::new(move || {
        eng::set_parallelism(p.workers + 1);
        let path = camino::Utf8PathBuf::from_path_buf(dir.join("out.jbkc")).unwrap();
        let progress: Arc<dyn creator::Progress> = if p.points { Arc::new(Points) } else { Arc::new(()) };
        eng::begin();
        let run = || -> std::io::Result<Vec<(u16, u32)>> {
            let mut cc = creator::ContentPackCreator::new_with_progress(&path, jbk::PackId::from(1), build::vendor(), Default::default(), build::compression(p.comp), fstd_arc(progress))?;
            let mut addrs = vec![];
            for (i, c) in want.iter().enumerate() {
                let input: Box<dyn creator::InputReader> = if c.src == Src::Custom {
                    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(dir.join("unreadable"))?;
                    f.set_len(c.data.len() as u64)?;
                    Box::new(creator::InputFile::new(f)?)
                } else if c.src == Src::File { Box::new(creator::InputFile::open(dir.join(format!("in-{i}")))?) } else { Box::new(std::io::Cursor::new(c.data.as_ref().clone())) };
                addrs.push(build::addr(cc.add_content(input, build::hint(c.hint))?));
            }
            cc.finalize()?;
            Ok(addrs)
        };
        let addrs = match run() {
            Ok(_) if p.seq.contains('x') => bad("creation succeeds although a content could not be read".into()),
            Ok(a) => a,
            Err(_) if p.seq.contains('x') => { eng::end(); outcome("refused".into()); return }
            Err(e) => bad(format!("creation fails: {e}")),
        };
        eng::end();
        let file = std::fs::read(&path).unwrap();
        let order = judge(&file, &want, &addrs);
        if known.borrow_mut().insert(order.clone()) { read_back(path.as_std_path(), &want, &addrs) }
        outcome(order);
    })
}

fn fstd_arc(p: Arc<dyn creator::Progress>) -> Arc<dyn creator::Progress> { p }

fn case(seq: &str, comp: Comp, workers: usize, points: bool, st: Strategy) -> Case {
    let p = Plan { seq: seq.into(), comp, workers, points };
    let name = format!("{seq} {comp:?} {workers} workers{}", if points { ", stops at each progress" } else { "" });
    Case::new(name, st, move |d| program(&p, d))
}

fn sequences(letters: &str, len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len { v = v.iter().flat_map(|s| letters.chars().map(move |c| format!("{s}{c}"))).collect() }
    v
}

/// A whole container.
fn whole(spec: &ContainerSpec, workers: usize, dir: &Path) -> Rc<dyn Fn()> {
    let spec = Rc::new(spec.clone());
    let dir = dir.to_path_buf();
    let known: Rc<std::cell::RefCell<HashSet<String>>> = Default::default();
    Rc::new(move || {
        eng::set_parallelism(workers + 1);
        let d = dir.join("w");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        eng::begin();
        let built = match build::create(&spec, &d, "c.jbk") { Ok(b) => b, Err(e) => bad(format!("creation fails: {e}")) };
        eng::end();
        let ix = crate::model::index_names(&spec.dir);
        let want = match crate::model::expect(&spec, &built) { Ok(w) => w, Err(e) => bad(e) };
        let mut files = vec![std::fs::read(&built.main).unwrap()];
        let mut names: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).filter(|p| *p != built.main).collect();
        names.sort();
        for p in &names { files.push(std::fs::read(p).unwrap()) }
        let got = match crate::indep::to_dump(&files, &ix) { Ok(g) => g, Err(e) => bad(format!("the container is not one: {e}")) };
        if let Some(x) = diff(&want, &got, crate::model::modelled) { bad(format!("the container is not what was put in: {x}")) }
        let mut order = String::new();
        for f in &files {
            for (_, c) in crate::indep::decode(f).map(|d| d.contents).unwrap_or_default() {
                let mut o: Vec<_> = c.clusters.iter().enumerate().map(|(i, k)| (k.tail, i)).collect();
                o.sort();
                order += &format!("{:?}", o.iter().map(|x| x.1).collect::<Vec<_>>());
            }
        }
        if known.borrow_mut().insert(order.clone()) {
            let got = crate::dump::observe(&built.main, &crate::dump::Opts { indexes: &ix, check: true, max_pack: 2 + spec.extra.len() as u16, ..Default::default() });
            for (k, v) in &got { if k.ends_with("#check") && *v != Obs::Bool(true) { bad(format!("{k} says {v:?}")) } }
            let mut want = want;
            want.insert("p0/pack".into(), Obs::None);
            if let Some(x) = crate::model::disagree(&want, &got) { bad(format!("the container does not read back: {x}")) }
        }
        outcome(order);
    })
}

fn wcase(name: &str, spec: ContainerSpec, workers: usize, st: Strategy) -> Case {
    Case::new(format!("container {name} {:?}, {workers} workers", spec.mode), st, move |d| whole(&spec, workers, d))
}

fn spaces(t: Tier, _dir: &Path) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let secs = if deep { 400. } else { 60. };
    let d = Strategy::Dpor;
    let b = |bound| Strategy::Bounded { bound, free: false };
    let z = Comp::Zstd(1);
    let mut out = vec![crate::run::litmus()];
    // every short sequence
    let mut v = vec![];
    for n in 0..=if deep { 9 } else { 7 } { for s in sequences("cr", n) { for w in 1..=2 { v.push(case(&s, z, w, false, d)); } } }
    out.push(space("every-short-sequence", v, secs));
    // every kind of content
    let mut v = vec![];
    for n in 1..=if deep { 4 } else { 3 } { for s in sequences("cCrRezfdD", n) { for w in 1..=2 { v.push(case(&s, z, w, false, d)); } } }
    for s in ["cCecCe", "CCeeCC", "eeeeee", "dDdDdD", "fRfRfR", "zrzrcc", "CfCfCfCf", "ReRcRcRc"] { for comp in [Comp::None, Comp::Lz4(1), Comp::Lzma(0), z] { for w in [1, 2, 3] {
        if !deep && w == 3 && comp == Comp::Lzma(0) { continue }
        v.push(case(s, comp, w, false, d));
    } } }
    out.push(space("every-content", v, secs));
    // three workers and more
    let mut v = vec![];
    for s in ["ccccc", "rcrcrc", "crrcrcc", "cccccc", "crccrccr"] { for w in 3..=if deep { 5 } else { 4 } {
        if deep || w == 3 || s.len() < 8 { v.push(case(s, z, w, false, d)); }
    } }
    for s in ["ccccccc", "rccrccrcc"] { for w in 2..=if deep { 4 } else { 3 } { v.push(case(s, z, w, false, if deep { d } else { b(2) })); } }
    out.push(space("three-workers", v, secs));
    // more clusters than the queue takes
    let mut v = vec![];
    for w in 1..=4usize { for clusters in 2 * w..=2 * w + 3 { for mix in 0..3 {
        let s: String = (0..2 * clusters).map(|i| match mix { 0 => "c", 1 => if i % 2 == 0 { "cr" } else { "c" }, _ => if i % 3 == 2 { "crr" } else { "c" } }).collect();
        if w == 1 || w == 2 && (deep || clusters == 4) { for sp in 0..2 { v.push(case(&s, z, w, false, d).spurious(sp)); } }
        let k = if w <= 2 { 2 } else { 1 } + deep as u32;
        for sp in 0..2 { v.push(case(&s, z, w, false, b(k)).spurious(sp)); }
        if mix == 0 { v.push(case(&s, z, w, true, b(k))); }
    } } }
    out.push(space("full-queue", v, secs));
    // contents that cannot be read
    let mut v = vec![];
    for n in 1..=4 { for s in sequences("cx", n) { if s.contains('x') { for w in 1..=2 { v.push(case(&s, z, w, false, d)); } } } }
    for w in 1..=3usize { for s in ["x".repeat(4 * w + 6), format!("ccxc{}", "c".repeat(4 * w + 3)), format!("{}x", "c".repeat(4 * w)), format!("xxrrxxrr{}", "cr".repeat(2 * w + 2))] {
        v.push(case(&s, z, w, false, if w == 1 { d } else { b(if deep { 3 } else { 4 - w as u32 }) }));
    } }
    out.push(space("unreadable-contents", v, secs));
    // up to fifteen workers
    let mut v = vec![];
    for w in 1..=15usize { for clusters in [1, w, 2 * w + 2] { for mixed in [false, true] {
        let s: String = (0..2 * clusters).map(|i| if mixed && i % 3 == 0 { "cr" } else { "c" }).collect();
        v.push(case(&s, z, w, false, b(if deep && clusters <= 4 { 2 } else { 1 })));
    } } }
    out.push(space("many-workers", v, secs));
    // whole containers
    let mut v = vec![];
    for mode in [Mode::One, Mode::Two, Mode::No] { for (name, seq, dedup, extra) in [("of one pack", "ccrcc", false, ""), ("of two packs", "ccc", false, "ccrcc"), ("without duplicates", "ccrcc", true, "")] { for w in 1..=3 {
        let mut c = contents(seq);
        if dedup { let x = c[0].clone(); c.insert(3, x.clone()); c.push(x); }
        let spec = ContainerSpec { comp: z, dedup, contents: c, dir: simple_dir(3), mode, extra: if extra.is_empty() { vec![] } else { vec![(Comp::Lz4(1), contents(extra))] } };
        v.push(wcase(name, spec, w, b(if w == 1 && extra.is_empty() || deep && w < 3 { 3 } else if w == 3 && !extra.is_empty() && !deep { 1 } else { 2 })));
    } } }
    out.push(space("whole-containers", v, secs));
    out
}

pub fn suite() -> Suite {
    Suite { level: "model_checking", rule: "the real creator runs with its threads, channels, locks and condition variables handed to the explorer, and with clusters of at most two contents (hook); for each sequence of insertions and number of workers all executions are run: one per order of dependent operations (DPOR), or all within a number of deviations from the default schedule; at the end of each one an independent decoder finds in the pack, at each returned address, the bytes put in, and each order of the clusters is also read back and verified with the library", assumptions: vec![
        "threads interleave at operations on synchronisation objects and, where stated, in progress callbacks; safe Rust has no other communication between them",
        "the number of contents at which a cluster is closed changes nothing else",
        "15 workers and full queues are explored with one deviation from the default schedule (two in some thorough programs), fewer workers with more or with all orders",
    ], exhaustive: true, dbg: false, spaces }
}
