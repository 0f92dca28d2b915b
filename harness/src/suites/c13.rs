//! C13: all views of a stored content agree.  Model: the byte string and a cursor.

use super::util::*;
use crate::build;
use crate::infra::*;
use crate::spec::*;
use jubako::reader::{ByteRegion, ByteSlice, ByteStream, ContainerPack, ContentPack};
use jubako::{Offset, Size};
use std::collections::HashMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "a state is a view (region, slice or stream with its cursor) of a stored content, a transition an operation on it (cut, conversion, read of k bytes); all chains of cuts nested to depth 3 with every conversion in between, and all partitions of the length in read sizes, are run on the real views and compared with the byte string",
        assumptions: vec!["long contents are cut at boundary offsets only", "a stream may return fewer bytes than asked, but at least one while some are left"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via { Memory, File, Mmap, InContainer }
const VIAS: [Via; 4] = [Via::Memory, Via::File, Via::Mmap, Via::InContainer];
const COMPS: [Comp; 4] = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];

/// The fixture of one (compression, lengths): a lone content pack and a container with another pack before it.
struct Fixture { pack: PathBuf, container: PathBuf, contents: Vec<Vec<u8>> }

fn fixture(dir: &Path, comp: Comp, lens: &[usize]) -> Fixture {
    let name = format!("{comp:?}-{}", lens.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("_")).replace(['(', ')'], "");
    let hint = Hint::Yes;
    let v: Vec<ContentSpec> = lens.iter().enumerate().map(|(k, l)| ct([2, 1, 2][k % 3], *l, 30 + k as u64, hint, Src::Mem)).collect();
    let d = dir.join(&name);
    std::fs::create_dir_all(&d).unwrap();
    let (pack, addrs, _) = build::create_content_pack(comp, false, &v, &d, "lone.jbkc").unwrap();
    assert!(addrs.iter().enumerate().all(|(k, a)| a.1 == k as u32));
    let mut s = ContainerSpec::contents_only(comp, v.clone());
    s.extra = vec![];
    let b = build::create(&s, &d, "c.jbk").unwrap();
    Fixture { pack, container: b.main, contents: v.iter().map(|c| c.data.as_ref().clone()).collect() }
}

fn open(f: &Fixture, via: Via) -> Result<ContentPack, String> {
    let e = |e: jubako::Error| e.to_string();
    let reader = match via {
        Via::Memory => jubako::Reader::from(read(&f.pack)),
        Via::File => jubako::Reader::from(jubako::FileSource::open(&f.pack).map_err(|e| e.to_string())?),
        Via::Mmap => {
            let file = std::fs::File::open(&f.pack).map_err(|e| e.to_string())?;
            jubako::Reader::from(unsafe { memmap2::Mmap::map(&file) }.map_err(|e| e.to_string())?)
        }
        Via::InContainer => {
            let c = ContainerPack::new(jubako::Reader::from(jubako::FileSource::open(&f.container).map_err(|e| e.to_string())?)).map_err(e)?;
            let all: Vec<jubako::Reader> = c.iter().map(|(_, r)| r.clone()).collect();
            for r in all { if let Ok(p) = ContentPack::new(r) { return Ok(p) } }
            return Err("no content pack in the container".into());
        }
    };
    ContentPack::new(reader).map_err(e)
}

fn content(p: &ContentPack, k: usize) -> Result<ByteRegion, String> {
    p.get_content(jubako::ContentIdx::from(k as u32)).map_err(|e| e.to_string())?.ok_or_else(|| format!("no content {k}"))
}

fn off(o: usize) -> Offset { Offset::from(o as u64) }
fn sz(s: usize) -> Size { Size::from(s as u64) }
fn short(b: &[u8]) -> String { if b.len() > 24 { format!("{:?}.. ({})", &b[..24], b.len()) } else { format!("{b:?}") } }

/// Reads with these sizes, checking size, offset and bytes left after each; then to the end.
fn drive(mut st: ByteStream, want: &[u8], sizes: &[usize], how: &str, evals: &mut u64) -> Result<(), String> {
    let mut at = 0;
    let state = |st: &ByteStream, at: usize| -> Result<(), String> {
        if st.size() != want.len() as u64 { return Err(format!("{how}: stream size {} of {}", st.size(), want.len())); }
        if st.offset() != at as u64 { return Err(format!("{how}: stream offset {} after reading {at}", st.offset())); }
        if st.size_left() != (want.len() - at) as u64 { return Err(format!("{how}: {} left after reading {at} of {}", st.size_left(), want.len())); }
        Ok(())
    };
    state(&st, 0)?;
    for k in sizes {
        let mut buf = vec![0xEEu8; *k];
        let n = st.read(&mut buf).map_err(|e| format!("{how}: read({k}) at {at}: {e}"))?;
        if n > *k || n > want.len() - at || (n == 0 && *k > 0 && at < want.len()) { return Err(format!("{how}: read({k}) at {at} of {} returned {n}", want.len())); }
        if buf[..n] != want[at..at + n] { return Err(format!("{how}: read({k}) at {at}: {} instead of {}", short(&buf[..n]), short(&want[at..at + n]))); }
        at += n;
        *evals += 1;
        state(&st, at)?;
    }
    let mut rest = vec![];
    st.read_to_end(&mut rest).map_err(|e| format!("{how}: read_to_end at {at}: {e}"))?;
    if rest != want[at..] { return Err(format!("{how}: read_to_end at {at}: {} instead of {}", short(&rest), short(&want[at..]))); }
    state(&st, want.len())?;
    if st.read(&mut [0; 3]).map_err(|e| e.to_string())? != 0 { return Err(format!("{how}: bytes after the end")); }
    Ok(())
}

fn partitions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![], vec![0], vec![1], vec![5, 1]]; }
    if n <= 8 {
        // all compositions; plus each with an empty read in front and an oversized one at the end
        let mut v = vec![];
        for m in 0..1u32 << (n - 1) {
            let mut p = vec![]; let mut run = 1;
            for b in 0..n - 1 { if m >> b & 1 == 1 { p.push(run); run = 1 } else { run += 1 } }
            p.push(run);
            let mut q = vec![0]; q.extend(&p); *q.last_mut().unwrap() += 3; q.push(2);
            v.push(p); v.push(q);
        }
        return v;
    }
    let s = [1usize, 2, 3, 7, 1023, 1024, 1025, 4095, 4096, 4097, 8192, n - 1, n, n + 1];
    let mut v = vec![];
    for a in s {
        if a * 3000 >= n { v.push(vec![a; n / a + 1]); }
        for b in s { if a != b { v.push(vec![a, b, a, b, 0, a]); } }
    }
    v
}

enum View<'a> { R(ByteRegion), S(ByteSlice<'a>) }

/// Everything that can be asked of one view.
fn probe(r: Option<&ByteRegion>, s: Option<&ByteSlice>, want: &[u8], full: bool, path: &str, ev: &mut u64) -> Result<(), String> {
    let n = want.len();
    let cuts: Vec<(usize, usize)> = if n <= 8 { (0..=n).flat_map(|o| (0..=n - o).map(move |s| (o, s))).collect() } else {
        let m = marks(n);
        m.iter().flat_map(|a| m.iter().filter(move |b| *b >= a).map(move |b| (*a, *b - *a))).collect()
    };
    let slice = |o: usize, k: usize| -> Result<Vec<u8>, String> {
        match (r, s) { (Some(r), _) => r.get_slice(off(o), k).map(|c| c.into_owned()), (_, Some(s)) => s.get_slice(off(o), k).map(|c| c.into_owned()), _ => unreachable!() }
            .map_err(|e| format!("{path}: get_slice({o}, {k}): {e}"))
    };
    let size = r.map(|r| r.size()).unwrap_or_else(|| s.unwrap().size());
    if size != sz(n) { return Err(format!("{path}: size {:?} instead of {n}", size)); }
    let all = slice(0, n)?;
    if all != want { return Err(format!("{path}: get_slice of it all: {} instead of {}", short(&all), short(want))); }
    if full || n <= 8 {
        for (o, k) in cuts {
            let g = slice(o, k)?;
            if g != want[o..o + k] { return Err(format!("{path}: get_slice({o}, {k}): {} instead of {}", short(&g), short(&want[o..o + k]))); }
            *ev += 1;
        }
    }
    let ps = if full { partitions(n) } else { vec![vec![], vec![1, 0, 2], vec![n.div_ceil(2), n]] };
    for p in &ps {
        let st = match (r, s) { (Some(r), _) => r.stream(), (_, Some(s)) => s.stream(), _ => unreachable!() };
        drive(st, want, p, &format!("{path}/stream"), ev)?;
        if let Some(r) = r { drive(ByteStream::from(r.clone()), want, p, &format!("{path}/into stream"), ev)?; }
        if let Some(s) = s { drive(ByteStream::from(ByteRegion::from(s.clone())), want, p, &format!("{path}/region/into stream"), ev)?; }
    }
    Ok(())
}

fn marks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 1023, 1024, 4095, 4096, 4097, 8192, 12288, n / 2, n.saturating_sub(4096), n.saturating_sub(1), n].into_iter().filter(|x| *x <= n).collect();
    v.sort(); v.dedup();
    v
}

/// All cuts of the view, to `depth` levels, through every conversion.
fn explore(v: View, want: &[u8], depth: u32, path: &str, full: bool, ev: &mut u64, nodes: &mut u64) -> Result<(), String> {
    *nodes += 1;
    match &v {
        View::R(r) => {
            probe(Some(r), None, want, full, path, ev)?;
            probe(None, Some(&r.as_slice()), want, false, &format!("{path}/as_slice"), ev)?;
            probe(Some(&ByteRegion::from(r.as_slice())), None, want, false, &format!("{path}/as_slice/region"), ev)?;
        }
        View::S(s) => {
            probe(None, Some(s), want, full, path, ev)?;
            probe(Some(&ByteRegion::from(s.clone())), None, want, false, &format!("{path}/region"), ev)?;
        }
    }
    if depth == 0 { return Ok(()) }
    let n = want.len();
    let pts: Vec<usize> = if n <= 16 { (0..=n).collect() } else { marks(n) };
    for (i, o) in pts.iter().enumerate() {
        for e in &pts[i..] {
            let sub = &want[*o..*e];
            let path = format!("{path}/cut({o},{})", e - o);
            let s = match &v { View::R(r) => r.cut(off(*o), sz(e - o)), View::S(s) => s.cut(off(*o), sz(e - o)) };
            explore(View::R(ByteRegion::from(s.clone())), sub, depth - 1, &format!("{path}/region"), full, ev, nodes)?;
            explore(View::S(s), sub, depth - 1, &path, full, ev, nodes)?;
        }
    }
    Ok(())
}

/// one content of `lens`, first level of cut fixed by the case
fn nested(name: &str, dir: &Path, lens: Vec<usize>, depth: u32, full: bool, t: Tier) -> Space {
    let _ = t;
    let fx: Vec<Fixture> = COMPS.iter().map(|c| fixture(dir, *c, &lens)).collect();
    // cases: (comp, via, content, first cut)
    let mut cases = vec![];
    for (k, l) in lens.iter().enumerate() {
        let pts: Vec<usize> = if *l <= 16 { (0..=*l).collect() } else { marks(*l) };
        for (i, o) in pts.iter().enumerate() { for e in &pts[i..] { for c in 0..4 { for v in VIAS { cases.push((c, v, k, *o, *e)); } } } }
    }
    let cases = Arc::new(cases);
    let c2 = Arc::clone(&cases);
    let lens2 = lens.clone();
    Space::new(name, cases.len() as u64, move |i, cx| {
        let (c, via, k, o, e) = cases[i as usize];
        let want = &fx[c].contents[k];
        let p = open(&fx[c], via)?;
        let r = content(&p, k)?;
        // a view outlives the pack it comes from
        let p = if i % 2 == 0 { drop(p); None } else { Some(p) };
        cx.outcome(&format!("{i}"));
        cx.sample(|| format!("{:?} {via:?} content {k} of {:?} bytes, first cut [{o}, {e})", COMPS[c], lens));
        let (mut ev, mut nodes) = (0, 0);
        let base = format!("{:?}/{via:?}", COMPS[c]);
        if o == 0 && e == want.len() { explore(View::R(r.clone()), want, 0, &base, true, &mut ev, &mut nodes)?; }
        let s = r.cut(off(o), sz(e - o));
        let path = format!("{base}/cut({o},{})", e - o);
        explore(View::R(ByteRegion::from(s.clone())), &want[o..e], depth - 1, &format!("{path}/region"), full, &mut ev, &mut nodes)?;
        explore(View::S(s), &want[o..e], depth - 1, &path, full, &mut ev, &mut nodes)?;
        drop(p);
        cx.states(nodes);
        cx.transitions(nodes + ev);
        cx.evals(ev);
        cx.traces(1);
        Ok(())
    })
    .desc(move |i| { let (c, v, k, o, e) = c2[i as usize]; format!("{:?} {v:?} content {k} of {:?}, first cut [{o}, {e})", COMPS[c], lens2) })
    .horizon(120)
}

/// Every interleaving of the reads of several streams over the same source.
fn streams(dir: &Path, t: Tier) -> Space {
    // (length of the first content, length of the second), read sizes
    let lens = vec![7usize, 9, 3000, 20_000];
    let fx: Vec<Fixture> = COMPS.iter().map(|c| fixture(dir, *c, &lens)).collect();
    let reads: &'static [usize] = &[2, 1500, 5000];
    let per = if t == Tier::Quick { 3 } else { 5 };
    // orders of 2 streams x `per` reads, as bit masks with `per` ones
    let orders: Vec<u32> = (0..1u32 << (2 * per)).filter(|m| m.count_ones() == per).collect();
    let radix = [4, 4, 4, 4, 3, 3, orders.len() as u64];
    let n = radix.iter().product();
    let mk = move |i: u64| mixed(i, &radix);
    Space::new("two-streams", n, move |i, cx| {
        let d = mk(i);
        let f = &fx[d[0] as usize];
        let p = open(f, VIAS[d[1] as usize])?;
        let (a, b) = (d[2] as usize, d[3] as usize);
        let (wa, wb) = (&f.contents[a], &f.contents[b]);
        let mut sa = content(&p, a)?.stream();
        let mut sb = ByteStream::from(content(&p, b)?);
        let (mut pa, mut pb) = (0, 0);
        let m = orders[d[6] as usize];
        for k in 0..2 * per {
            let (s, w, pos, n, who) = if m >> k & 1 == 1 { (&mut sa, wa, &mut pa, reads[d[4] as usize], "first") } else { (&mut sb, wb, &mut pb, reads[d[5] as usize], "second") };
            let mut buf = vec![0; n];
            let got = s.read(&mut buf).map_err(|e| e.to_string())?;
            if got > w.len() - *pos || (got == 0 && *pos < w.len()) || buf[..got] != w[*pos..*pos + got] { return Err(format!("{who} stream, read {k} of {n} at {pos}: {got} bytes, {}", short(&buf[..got.min(n)]))); }
            *pos += got;
            if s.offset() != *pos as u64 || s.size_left() != (w.len() - *pos) as u64 { return Err(format!("{who} stream: offset {} left {} after {pos}", s.offset(), s.size_left())); }
            // a slice in between must not move the streams
            let mid = content(&p, a)?;
            if mid.get_slice(off(1), 3).map_err(|e| e.to_string())?[..] != wa[1..4] { return Err("slice between the reads".into()); }
        }
        cx.states(2 * per as u64);
        cx.transitions(4 * per as u64);
        cx.traces(1);
        cx.outcome(&format!("{i}"));
        cx.sample(|| format!("{:?}", d));
        Ok(())
    })
    .desc(move |i| format!("{:?} (comp, via, contents, read sizes, order)", mixed(i, &radix)))
}

/// The same content by way of a container: `Container::get_bytes` in every packaging and compression.
fn containers(dir: &Path) -> Space {
    let lens = [5usize, 0, 6, 4100, 3, 9000];
    let mut built: HashMap<(usize, usize), (PathBuf, Vec<Vec<u8>>, usize)> = HashMap::new();
    for c in 0..4 { for m in 0..3 {
        let v: Vec<ContentSpec> = lens.iter().enumerate().map(|(k, l)| ct([2, 1][k % 2], *l, 60 + k as u64, [Hint::Yes, Hint::No][(k / 2) % 2], Src::Mem)).collect();
        let mut s = ContainerSpec::contents_only(COMPS[c], v.clone());
        s.mode = [Mode::One, Mode::Two, Mode::No][m];
        s.extra = vec![(COMPS[(c + 1) % 4], v[2..].to_vec())];
        let d = dir.join(format!("cont-{c}-{m}"));
        std::fs::create_dir_all(&d).unwrap();
        let b = build::create(&s, &d, "c.jbk").unwrap();
        built.insert((c, m), (b.main, v.iter().map(|c| c.data.as_ref().clone()).collect(), lens.len()));
    } }
    let radix = [4u64, 3, 10];
    Space::new("containers", radix.iter().product(), move |i, cx| {
        let d = mixed(i, &radix);
        let (main, want, n) = &built[&(d[0] as usize, d[1] as usize)];
        let (pack, k) = if (d[2] as usize) < *n { (1u16, d[2] as usize) } else { (2, d[2] as usize - n) };
        let w = if pack == 1 { &want[k] } else { &want[k + 2] };
        let c = jubako::reader::Container::new(main).map_err(|e| e.to_string())?;
        let r = match c.get_bytes(jubako::ContentAddress { pack_id: pack.into(), content_id: (k as u32).into() }).map_err(|e| e.to_string())? {
            Some(jubako::reader::MayMissPack::FOUND(Some(r))) => r,
            _ => return Err("no such content".into()),
        };
        let (mut ev, mut nodes) = (0, 0);
        explore(View::R(r), w, 2, &format!("pack {pack} content {k}"), w.len() <= 6, &mut ev, &mut nodes)?;
        cx.states(nodes);
        cx.transitions(nodes + ev);
        cx.evals(ev);
        cx.traces(1);
        cx.outcome(&format!("{i}"));
        cx.sample(|| format!("{d:?}"));
        Ok(())
    })
    .desc(move |i| format!("{:?} (comp, packaging, content)", mixed(i, &radix)))
    .horizon(120)
}

fn spaces(t: Tier, d: &Path) -> Vec<Space> {
    let small = if t == Tier::Quick { vec![3, 6, 0, 5, 1] } else { vec![3, 8, 0, 7, 1] };
    let long = if t == Tier::Quick { vec![7, 12_300, 1, 4096] } else { vec![7, 12_300, 1, 4096, 70_000, 4095, 1 << 20] };
    let mut v = vec![nested("nested-small", d, small, 3, true, t)];
    v.push(nested("nested-long", d, long.clone(), if t == Tier::Quick { 2 } else { 3 }, false, t));
    v.push(nested("partitions-long", d, long, 1, true, t));
    if t == Tier::Thorough { v.push(nested("nested-12", d, vec![2, 12], 3, false, t)); }
    v.push(streams(d, t));
    v.push(containers(d));
    v
}
