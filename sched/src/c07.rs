//! C07: readers of one container, in every order with the decompression and with each other.

use crate::infra::*;
use crate::pack::{content_pack, text, Cluster};
use crate::run::{outcome, space, Case};
use crate::spec::*;
use eng::Strategy;
use fstd::sync::Arc;
use fstd::thread;
use jubako as jbk;
use jbk::reader::{ByteRegion, ContentPack};
use jbk::Pack;
use std::io::Read;
use std::path::Path;
use std::rc::Rc;

/// What a reader does.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// the region of a content, and this part of it as a slice
    Slice(usize, usize, usize),
    /// all of it through a stream, that many bytes asked at a time
    Stream(usize, usize),
    /// a part of it through a stream on the part, in one go
    Exact(usize, usize, usize),
    /// several slices of one region, in that order
    Slices(usize, Vec<(usize, usize)>),
    Check,
    /// the region is obtained and forgotten
    Touch(usize),
}
use Act::*;

#[derive(Clone)]
pub struct Setup {
    pub name: String,
    pub clusters: Vec<Cluster>,
    pub file: bool,
    /// contents obtained beforehand, in that order; their regions are kept if `held`
    pub before: Vec<usize>,
    pub held: bool,
    /// decompression of what is obtained beforehand is over before the readers begin
    pub settled: bool,
    pub readers: Vec<Vec<Act>>,
}

struct Seen { region: ByteRegion, off: usize, len: usize, clock: eng::Clock, what: String }

fn bad(m: String) -> ! { eng::violate(m) }

fn region(p: &ContentPack, held: &[(usize, ByteRegion)], c: usize, exp: &[Vec<u8>]) -> ByteRegion {
    if let Some(r) = held.iter().find(|h| h.0 == c) { return r.1.clone() }
    match p.get_content(jbk::ContentIdx::from(c as u32)) {
        Ok(Some(r)) => {
            if r.size().into_u64() != exp[c].len() as u64 { bad(format!("content {c} has {} bytes instead of {}", r.size().into_u64(), exp[c].len())) }
            r
        }
        Ok(None) => bad(format!("content {c} is not there")),
        Err(e) => bad(format!("content {c}: {e}")),
    }
}

fn same(got: &[u8], want: &[u8], what: &str) {
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        bad(format!("{what}: {} bytes, expected {}, first difference at {i}: {:02x?} instead of {:02x?}", got.len(), want.len(), &got[i..got.len().min(i + 8)], &want[i..want.len().min(i + 8)]))
    }
}

fn slice(r: &ByteRegion, c: usize, off: usize, len: usize, exp: &[Vec<u8>], who: usize, seen: &mut Vec<Seen>) {
    let what = format!("reader {who}: content {c} slice {off}+{len}");
    match r.get_slice(jbk::Offset::from(off as u64), len) {
        Ok(s) => {
            let clock = eng::now();
            same(&s, &exp[c][off..off + len], &what);
            drop(s);
            seen.push(Seen { region: r.clone(), off, len, clock, what });
        }
        Err(e) => bad(format!("{what}: {e}")),
    }
}

fn act(p: &ContentPack, held: &[(usize, ByteRegion)], exp: &[Vec<u8>], a: &Act, who: usize, seen: &mut Vec<Seen>) {
    match a {
        Slice(c, off, len) => { let r = region(p, held, *c, exp); slice(&r, *c, *off, *len, exp, who, seen); }
        Slices(c, v) => { let r = region(p, held, *c, exp); for (o, l) in v { slice(&r, *c, *o, *l, exp, who, seen); } }
        Stream(c, n) => {
            let r = region(p, held, *c, exp);
            let mut s = r.stream();
            let mut got = Vec::with_capacity(exp[*c].len());
            let mut buf = vec![0xEEu8; *n];
            let mut turns = 0;
            loop {
                let what = format!("reader {who}: content {c} stream at {}", got.len());
                match s.read(&mut buf) {
                    Ok(0) => break,
                    Ok(k) => {
                        let clock = eng::now();
                        if k > *n { bad(format!("{what}: {k} bytes in a buffer of {n}")) }
                        seen.push(Seen { region: r.clone(), off: got.len(), len: k.min(exp[*c].len().saturating_sub(got.len())), clock, what });
                        got.extend_from_slice(&buf[..k]);
                    }
                    Err(e) => bad(format!("{what}: {e}")),
                }
                turns += 1;
                if turns > exp[*c].len() + 2 { bad(format!("reader {who}: content {c}: the stream does not end")) }
            }
            same(&got, &exp[*c], &format!("reader {who}: content {c} as a stream by {n}"));
        }
        Exact(c, off, len) => {
            let r = region(p, held, *c, exp);
            let what = format!("reader {who}: content {c} part {off}+{len}");
            let mut buf = vec![0xEEu8; *len];
            if let Err(e) = r.cut(jbk::Offset::from(*off as u64), jbk::Size::from(*len as u64)).stream().read_exact(&mut buf) { bad(format!("{what}: {e}")) }
            let clock = eng::now();
            same(&buf, &exp[*c][*off..*off + *len], &what);
            seen.push(Seen { region: r, off: *off, len: *len, clock, what });
        }
        Touch(c) => { region(p, held, *c, exp); }
        Check => match p.check() {
            Ok(true) => {}
            x => bad(format!("reader {who}: check: {x:?}")),
        },
    }
}

/// The bytes that were read had all been written by then.
fn ordered(seen: Vec<Seen>) {
    for s in seen {
        if let Ok(std::borrow::Cow::Borrowed(b)) = s.region.get_slice(jbk::Offset::from(s.off as u64), s.len) {
            let what = s.what;
            eng::has_read(b.as_ptr(), b.len(), &s.clock, || what);
        }
    }
}

pub fn program(s: &Setup, dir: &Path) -> Rc<dyn Fn()> {
    let bytes = Rc::new(content_pack(&s.clusters, [7; 16]));
    let exp: std::sync::Arc<Vec<Vec<u8>>> = std::sync::Arc::new(s.clusters.iter().flat_map(|c| c.blobs.clone()).collect());
    let path = dir.join("pack");
    if s.file { std::fs::write(&path, bytes.as_slice()).unwrap(); }
    let s = s.clone();
    Rc::new(move || {
        let reader = if s.file { jbk::Reader::from(jbk::FileSource::open(&path).unwrap()) } else { jbk::Reader::from(bytes.as_ref().clone()) };
        let pack = match ContentPack::new(reader) { Ok(p) => Arc::new(p), Err(e) => bad(format!("the pack does not open: {e}")) };
        let mut held = vec![];
        for c in &s.before {
            let r = region(&pack, &held, *c, &exp);
            if s.settled && !exp[*c].is_empty() {
                // the whole cluster is there once its end is
                if let Err(e) = r.get_slice(jbk::Offset::from(0u64), exp[*c].len()) { bad(format!("content {c}: {e}")) }
            }
            if s.held { held.push((*c, r)); }
        }
        let held = Arc::new(held);
        let acts = Rc::new(s.readers.clone());
        eng::begin();
        let hs: Vec<_> = (0..acts.len()).map(|k| {
            let (pack, held, exp) = (pack.clone(), held.clone(), exp.clone());
            let mine = acts[k].clone();
            thread::Builder::new().name(format!("reader {k}")).spawn(move || {
                let mut seen = vec![];
                for a in &mine { act(&pack, &held, &exp, a, k, &mut seen); }
                drop((pack, held));
                (seen, eng::trail())
            }).unwrap()
        }).collect();
        drop(pack);
        drop(held);
        let mut out = String::new();
        let mut all = vec![];
        for h in hs { let (s, t) = h.join().unwrap(); all.extend(s); out += &t; }
        eng::end();
        ordered(all);
        outcome(out);
    })
}

fn case(s: Setup, st: Strategy) -> Case {
    let name = format!("{} {:?}", s.name, s.readers);
    Case::new(name, st, move |d| program(&s, d))
}

/// One cluster: blobs of these sizes.
pub fn one(comp: u8, sizes: &[usize]) -> Vec<Cluster> {
    vec![Cluster { comp, blobs: sizes.iter().enumerate().map(|(i, n)| text(*n, i as u64 + 1)).collect() }]
}


// ---------------------------------------------------------------- whole containers

#[derive(Clone, Debug, PartialEq)]
pub enum CAct {
    /// pack, content, part
    Bytes(u16, u32, usize, usize),
    /// through a stream
    Stream(u16, u32, usize),
    /// every entry of an index, with the values in the value stores
    Index(usize),
    Check,
    /// what is in no pack
    Nothing,
}

fn container_spec(mode: Mode) -> ContainerSpec {
    let c = |len, salt, h| ContentSpec { data: std::sync::Arc::new(text(len, salt)), hint: h, src: Src::Mem };
    let store = |vs: usize, tag: u8| EStoreSpec {
        common: vec![Col::A(1, vs, "s"), Col::C("c"), Col::U("n")],
        variants: vec![],
        sort: None,
        entries: (0..3u8).map(|i| EntrySpec { variant: None, vals: vec![("s", Val::A(text(4 + i as usize * 3, (tag + i) as u64))), ("c", Val::C(1, i as u32)), ("n", Val::U(tag as u64 * 1000 + i as u64))] }).collect(),
    };
    ContainerSpec {
        comp: Comp::Zstd(1),
        dedup: false,
        contents: vec![c(5000, 1, Hint::Yes), c(300, 2, Hint::No), c(200, 3, Hint::Yes)],
        dir: DirSpec {
            vstores: vec![false, true],
            estores: vec![store(0, 10), store(1, 20)],
            indexes: (0..2).map(|i| IndexSpec { name: format!("ix{i}"), store: i, offset: 0, count: 3, offset_of: None }).collect(),
        },
        mode,
        extra: vec![(Comp::Lz4(1), vec![c(4500, 4, Hint::Yes), c(100, 5, Hint::No)])],
    }
}

type Container = jbk::reader::Container;

fn get(c: &Container, p: u16, k: u32) -> ByteRegion {
    use jbk::reader::MayMissPack::*;
    match c.get_bytes(jbk::ContentAddress::new(jbk::PackId::from(p), jbk::ContentIdx::from(k))) {
        Ok(Some(FOUND(Some(r)))) => r,
        Ok(Some(FOUND(None))) => bad(format!("content {k} of pack {p} is not there")),
        Ok(Some(MISSING(_))) => bad(format!("pack {p} is missing")),
        Ok(None) => bad(format!("pack {p} is unknown")),
        Err(e) => bad(format!("content {k} of pack {p}: {e}")),
    }
}

fn index(c: &Container, i: usize) -> Dump {
    let mut d = Dump::new();
    match c.get_index_for_name(&format!("ix{i}")) {
        Ok(Some(ix)) => crate::dump::observe_index(ix.get_store(c.get_entry_storage()), c.get_value_storage(), &ix, "ix", 100, &mut d),
        x => { d.insert("index".into(), Obs::Str(format!("{:?}", x.map(|_| ())))); }
    }
    d
}

fn cact(c: &Container, exp: &[Vec<Vec<u8>>], dumps: &[Dump], a: &CAct, who: usize, seen: &mut Vec<Seen>) {
    match a {
        CAct::Bytes(p, k, off, len) => {
            let r = get(c, *p, *k);
            let all = &exp[*p as usize - 1];
            if r.size().into_u64() != all[*k as usize].len() as u64 { bad(format!("reader {who}: content {k} of pack {p} has {} bytes", r.size().into_u64())) }
            slice(&r, *k as usize, *off, *len, all, who, seen);
        }
        CAct::Stream(p, k, n) => {
            let mut got = vec![];
            let mut s = get(c, *p, *k).stream();
            let mut buf = vec![0u8; *n];
            while got.len() < 100_000 { match s.read(&mut buf) { Ok(0) => break, Ok(k) => got.extend_from_slice(&buf[..k]), Err(e) => bad(format!("reader {who}: {e}")) } }
            same(&got, &exp[*p as usize - 1][*k as usize], &format!("reader {who}: content {k} of pack {p} as a stream"));
        }
        CAct::Index(i) => if let Some(x) = crate::spec::diff(&dumps[*i], &index(c, *i), |_| true) { bad(format!("reader {who}: index {i}: {x}")) },
        CAct::Check => match c.check() { Ok(true) => {} x => bad(format!("reader {who}: check: {x:?}")) },
        CAct::Nothing => match c.get_pack(jbk::PackId::from(9)) { Ok(None) => {} x => bad(format!("reader {who}: pack 9: {}", x.is_ok())) },
    }
}

/// Runs `f` once under the default schedule.
pub fn quietly(f: impl FnOnce() + 'static) -> Result<(), String> {
    struct Never;
    impl eng::Chooser for Never {
        fn task(&mut self, e: &[(u32, eng::OpK)], _: Option<u32>) -> Option<u32> { Some(e[0].0) }
        fn alternative(&mut self, _: usize) -> usize { 0 }
        fn trace(&self) -> &[u32] { &[] }
    }
    let o = eng::run(Box::new(Never), &eng::Limits { steps: 10_000_000, ..Default::default() }, false, f);
    o.fault.map_or(Ok(()), Err)
}

pub struct Fixture { path: std::path::PathBuf, exp: Vec<Vec<Vec<u8>>>, dumps: Vec<Dump> }

/// A container on disk, and what each index says when nothing else happens.
fn fixture(mode: Mode, dir: &Path) -> Fixture {
    let dir = dir.join(format!("{mode:?}"));
    std::fs::create_dir_all(&dir).unwrap();
    let spec = container_spec(mode);
    let path = dir.join("c.jbk");
    let exp: Vec<Vec<Vec<u8>>> = std::iter::once(&spec.contents).chain(spec.extra.iter().map(|e| &e.1)).map(|v| v.iter().map(|c| c.data.as_ref().clone()).collect()).collect();
    let out: std::sync::Arc<std::sync::Mutex<Vec<Dump>>> = Default::default();
    let (p, o, d) = (path.clone(), out.clone(), dir.clone());
    let n = std::thread::current().name().unwrap_or("").to_string();
    let _ = n;
    quietly(move || {
        if !p.exists() { if let Err(e) = crate::build::create(&spec, &d, "c.jbk") { bad(format!("creation: {e}")) } }
        match Container::new(&p) {
            Ok(c) => for i in 0..2 { let x = index(&c, i); o.lock().unwrap().push(x) },
            Err(e) => bad(format!("opening: {e}")),
        }
    }).unwrap_or_else(|e| panic!("{e}"));
    let dumps = std::mem::take(&mut *out.lock().unwrap());
    // the values are those put in
    for (i, d) in dumps.iter().enumerate() {
        for k in 0..3u8 {
            let want = (Obs::A(text(4 + k as usize * 3, (10 * (i as u8 + 1) + k) as u64)), Obs::U(10_000 * (i as u64 + 1) + k as u64));
            if d.get(&format!("ix/e{k}/s")) != Some(&want.0) || d.get(&format!("ix/e{k}/n")) != Some(&want.1) { panic!("index {i} of the container is not what was stored: {d:?}") }
        }
    }
    Fixture { path, exp, dumps }
}

fn cprogram(x: &Fixture, readers: &[Vec<CAct>], before: &[CAct]) -> Rc<dyn Fn()> {
    let (path, exp, dumps) = (x.path.clone(), std::sync::Arc::new(x.exp.clone()), std::sync::Arc::new(x.dumps.clone()));
    let acts = readers.to_vec();
    let before = before.to_vec();
    Rc::new(move || {
        let c = match Container::new(&path) { Ok(c) => Arc::new(c), Err(e) => bad(format!("the container does not open: {e}")) };
        let mut none = vec![];
        for a in &before { cact(&c, &exp, &dumps, a, 99, &mut none) }
        eng::begin();
        let hs: Vec<_> = acts.iter().cloned().enumerate().map(|(k, mine)| {
            let (c, exp, dumps) = (c.clone(), exp.clone(), dumps.clone());
            thread::Builder::new().name(format!("reader {k}")).spawn(move || {
                let mut seen = vec![];
                for a in &mine { cact(&c, &exp, &dumps, a, k, &mut seen) }
                drop(c);
                (seen, eng::trail())
            }).unwrap()
        }).collect();
        drop(c);
        let mut out = String::new();
        let mut all = vec![];
        for h in hs { let (s, t) = h.join().unwrap(); all.extend(s); out += &t; }
        eng::end();
        ordered(all);
        outcome(out);
    })
}

fn ccase(fx: &std::sync::Arc<Fixture>, name: &str, readers: Vec<Vec<CAct>>, before: Vec<CAct>, st: Strategy) -> Case {
    let f = fx.clone();
    Case::new(format!("{name} {readers:?}{}", if before.is_empty() { String::new() } else { format!(" after {before:?}") }), st, move |_| cprogram(&f, &readers, &before))
}

// ---------------------------------------------------------------- spaces

const NAMES: [&str; 4] = ["raw", "lz4", "lzma", "zstd"];

fn setup(name: &str, clusters: Vec<Cluster>, file: bool, before: Vec<usize>, held: bool, settled: bool, readers: Vec<Vec<Act>>) -> Setup {
    let name = format!("{name}{}{}", if file { ", from a file" } else { "" }, match (before.is_empty(), held, settled) { (true, ..) => "", (_, true, true) => ", held and settled", (_, true, _) => ", held", (_, _, true) => ", settled", _ => ", obtained" });
    Setup { name, clusters, file, before, held, settled, readers }
}

fn spaces(t: Tier, dir: &Path) -> Vec<Space> {
    let deep = t == Tier::Thorough;
    let secs = if deep { 400. } else { 60. };
    let d = Strategy::Dpor;
    let mut out = vec![crate::run::litmus()];
    // 9000 bytes: three chunks of the decompression
    let p = [Slice(0, 0, 9000), Slice(0, 0, 4096), Slice(0, 4095, 2), Slice(0, 8999, 1), Slice(0, 9000, 0), Exact(0, 4000, 4193), Stream(0, 9000), Slices(0, vec![(8000, 1000), (0, 10)]), Stream(0, 5000)];
    // one reader against the decompression, every compression
    let mut v = vec![];
    for comp in 0..4u8 { for held in [true, false] { for file in [false, true] { for sp in 0..2 {
        for a in &p {
            let s = setup(&format!("{} of 9000", NAMES[comp as usize]), one(comp, &[9000]), file, if held { vec![0] } else { vec![] }, held, false, vec![vec![a.clone()]]);
            v.push(case(s, d).spurious(sp));
        }
        // blobs that end on, before and after the end of a chunk, and empty ones
        for sizes in [vec![4096, 0, 4095, 2, 807], vec![0], vec![1], vec![4096], vec![4097], vec![8192]] {
            let n = sizes.len();
            let acts = (0..n).map(|c| Slice(c, 0, sizes[c])).chain((0..n).map(|c| Stream(c, 700))).collect();
            let s = setup(&format!("{} of {sizes:?}", NAMES[comp as usize]), one(comp, &sizes), file, if held { (0..n).collect() } else { vec![] }, held, false, vec![acts]);
            v.push(case(s, Strategy::Bounded { bound: if deep { 3 } else { 2 }, free: true }).spurious(sp));
        }
    } } } }
    out.push(space("one-reader", v, secs));
    // two readers of one cluster
    let mut v = vec![];
    let n = if deep { p.len() } else { 8 };
    for held in [true, false] { for i in 0..n { for j in i..n {
        if !deep && !held && i >= 6 && j >= 6 { continue }
        let s = setup("zstd of 9000", one(3, &[9000]), false, if held { vec![0] } else { vec![] }, held, false, vec![vec![p[i].clone()], vec![p[j].clone()]]);
        v.push(case(s.clone(), d));
        if i < 4 && j < 4 || deep && i < 6 && j < 6 { v.push(case(s, d).spurious(1)); }
    } } }
    for comp in [1u8, 2] { for (i, j) in [(0, 2), (1, 5), (3, 3)] {
        v.push(case(setup(&format!("{} of 9000", NAMES[comp as usize]), one(comp, &[9000]), false, vec![], false, false, vec![vec![p[i].clone()], vec![p[j].clone()]]), d));
    } }
    out.push(space("two-readers", v, secs));
    // three readers of one cluster: three chunks
    let mut v = vec![];
    let m = if deep { 7 } else { 3 };
    for i in 0..m { for j in i..m { for k in j..m {
        let s = setup("zstd of 9000", one(3, &[9000]), false, vec![0], true, false, vec![vec![p[i].clone()], vec![p[j].clone()], vec![p[k].clone()]]);
        v.push(case(s, d));
    } } }
    let two = |_: ()| one(3, &[5000]);
    for (i, j, k) in [(0, 0, 0), (0, 1, 2), (1, 2, 2)] {
        let q = [Slice(0, 0, 5000), Slice(0, 10, 4086), Slice(0, 4999, 1)];
        v.push(case(setup("zstd of 5000", two(()), false, vec![], false, false, vec![vec![q[i].clone()], vec![q[j].clone()], vec![q[k].clone()]]), if deep { d } else { Strategy::Bounded { bound: 3, free: false } }));
    }
    out.push(space("three-readers", v, secs));
    // more clusters than the cache keeps
    let many = |first: u8, last: u8| -> Vec<Cluster> {
        (0..42usize).map(|i| Cluster { comp: if i == 0 { first } else if i >= 40 { last } else { 0 }, blobs: vec![text(if i == 0 { 5000 } else { 30 + i }, i as u64 + 100)] }).collect()
    };
    let mut v = vec![];
    for (f, l) in [(3u8, 0u8), (3, 3), (0, 0)] { for file in [false, true] { for (held, settled) in [(false, false), (false, true), (true, false)] {
        for (x, readers) in [
            vec![vec![Slice(0, 0, 5000)], vec![Slice(40, 0, 70)]],
            vec![vec![Slices(0, vec![(0, 10), (4000, 1000)])], vec![Slice(40, 0, 70), Slice(0, 4990, 10)]],
            vec![vec![Slice(40, 0, 70), Slice(1, 0, 31)], vec![Slice(41, 0, 71), Slice(0, 0, 100)]],
            vec![vec![Slice(0, 0, 5000)], vec![Slice(40, 0, 70)], vec![Slice(1, 3, 20)]],
        ].into_iter().enumerate() {
            let st = if (file || x == 3 || x == 1 && l == 3 && !held && !settled) && !deep { Strategy::Bounded { bound: 2, free: false } } else if file || x == 3 { Strategy::Bounded { bound: 3, free: false } } else { d };
            v.push(case(setup(&format!("42 clusters, {} and {}", NAMES[f as usize], NAMES[l as usize]), many(f, l), file, (0..40).collect(), held, settled, readers), st));
        }
    } } }
    // one reader uses all the clusters while another one is anywhere in its own read
    for (f, l) in [(0u8, 0u8), (3, 0)] { for file in [false, true] { for before in [vec![], (0..40).collect::<Vec<_>>()] {
        let all: Vec<Act> = (0..42).map(Touch).chain([Slice(41, 0, 71)]).collect();
        v.push(case(setup(&format!("42 clusters, {} and {}, all used", NAMES[f as usize], NAMES[l as usize]), many(f, l), file, before, false, false, vec![vec![Slice(0, 0, 5000)], all]), Strategy::Bounded { bound: if deep { 3 } else { 2 }, free: false }));
    } } }
    out.push(space("evicted-clusters", v, secs));
    // more decompressions than threads to run them
    let mut v = vec![];
    for n in [9usize, 10] {
        let cl: Vec<Cluster> = (0..n).map(|i| Cluster { comp: 3, blobs: vec![text(if i == 0 { 5000 } else { 40 + i }, i as u64 + 200)] }).collect();
        for readers in [vec![vec![Slice(n - 1, 0, 40 + n - 1)]], vec![vec![Slice(n - 1, 0, 40)], vec![Slice(0, 4990, 10)]], vec![vec![Slice(n - 1, 0, 40)], vec![Slice(n - 1, 10, 30)], vec![Slice(n - 2, 0, 20)]]] {
            for held in [true, false] {
                let before = if held { (0..n).collect() } else { (0..n - 1).collect() };
                v.push(case(setup(&format!("{n} clusters at once"), cl.clone(), false, before, held, false, readers.clone()), Strategy::Bounded { bound: if deep { 3 } else if n == 9 && readers.len() < 3 { 2 } else { 1 }, free: false }));
            }
        }
    }
    out.push(space("pool-exhausted", v, secs));
    // several clusters of one file
    let mut v = vec![];
    let cl = vec![Cluster { comp: 3, blobs: vec![text(5000, 31), text(100, 32)] }, Cluster { comp: 1, blobs: vec![text(5000, 33)] }, Cluster { comp: 0, blobs: vec![text(3000, 34), text(2000, 35)] }];
    for file in [true, false] { for readers in [
        vec![vec![Stream(3, 1500)], vec![Slice(0, 0, 5000)]],
        vec![vec![Slice(2, 0, 5000)], vec![Slice(0, 0, 5000)]],
        vec![vec![Stream(3, 1500)], vec![Stream(4, 2000)]],
        vec![vec![Exact(3, 10, 2000)], vec![Slice(4, 0, 2000)], vec![Slice(1, 0, 100)]],
        vec![vec![Slice(0, 0, 5000), Slice(3, 0, 3000)], vec![Slice(3, 5, 10), Slice(0, 4990, 10)]],
        vec![vec![Check], vec![Slice(0, 0, 5000)]],
        vec![vec![Check], vec![Check]],
    ] { for held in [false, true] {
        let before = if held { vec![0, 1, 2, 3, 4] } else { vec![] };
        v.push(case(setup("zstd, lz4 and raw", cl.clone(), file, before, held, false, readers.clone()), Strategy::Bounded { bound: if deep { 4 } else { 3 }, free: false }));
    } } }
    out.push(space("several-clusters", v, secs));
    // whole containers
    let mut v = vec![];
    for mode in [Mode::One, Mode::No] {
        let fx = std::sync::Arc::new(fixture(mode, dir));
        let name = format!("container {mode:?}");
        use CAct::*;
        for (i, readers) in [
            vec![vec![Bytes(1, 0, 0, 5000)], vec![Bytes(1, 0, 4990, 10)]],
            vec![vec![Bytes(1, 1, 0, 300)], vec![Bytes(2, 1, 0, 100)]],
            vec![vec![Bytes(1, 0, 0, 5000)], vec![Bytes(2, 0, 0, 4500)]],
            vec![vec![Bytes(2, 0, 10, 4000), Bytes(1, 1, 0, 300)], vec![Stream(1, 1, 128), Nothing]],
            vec![vec![Index(0)], vec![Index(0)]],
            vec![vec![Index(0)], vec![Index(1)]],
            vec![vec![Index(0), Bytes(1, 1, 0, 300)], vec![Bytes(1, 2, 0, 200), Index(0)]],
            vec![vec![CAct::Check], vec![Bytes(1, 0, 0, 5000)]],
            vec![vec![CAct::Check], vec![CAct::Check]],
            vec![vec![CAct::Check], vec![Index(1)]],
            vec![vec![Bytes(1, 0, 0, 5000)], vec![Bytes(1, 1, 0, 300)], vec![Bytes(1, 2, 0, 200)]],
        ].into_iter().enumerate() {
            let three = readers.len() == 3;
            for before in [vec![], vec![Bytes(1, 1, 0, 10), Index(1)]] {
                let st = Strategy::Bounded { bound: if deep && !three { 4 } else if deep || i != 8 { 3 } else { 2 }, free: false };
                v.push(ccase(&fx, &name, readers.clone(), before, st));
            }
        }
    }
    out.push(space("whole-containers", v, secs));
    out
}

pub fn suite() -> Suite {
    Suite { level: "model_checking", rule: "the library's own sources run with their locks, condition variables, channels, threads, thread pool and decoders replaced by ones that hand every operation to the explorer; for each program (readers, what each reads, state of the cache and of the decompressions before) all executions are run: one per order of dependent operations (DPOR), or all within a number of deviations from the default schedule; every byte read is compared with what an independent encoder put there, and must have been written before it in the order the synchronisation guarantees", assumptions: vec![
        "threads interleave at operations on synchronisation objects and before each read from a decoder; what happens between two of those is checked with vector clocks, for the bytes decoders write and readers get",
        "atomics are sequentially consistent in value; a relaxed access gives no order to other memory",
        "memory-mapped and file sources are not modified by others",
    ], exhaustive: true, dbg: false, spaces }
}
