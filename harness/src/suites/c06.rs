//! C06: reading damaged, truncated, extended or foreign files ends with a value or an error.

use super::damage::*;
use super::kit;
use crate::dump;
use crate::infra::*;
use crate::spec::*;
use std::path::Path;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "fault_enumeration",
        rule: "an evaluation is one damaged file (every position x masks, every truncation length, ranges, garbage appended, foreign files) opened by every entry point and read entirely (all indexes, entries, contents by slices and streams, checks, manifest, tools) in a supervised process, in the optimised and in the debug build; non-trivial when the damage is seen as an error",
        assumptions: vec!["a case that runs for 20 s (intact: milliseconds) never ends", "files whose checksums were recomputed after the damage are outside the claim"],
        exhaustive: true,
        dbg: true,
        spaces,
    }
}

/// Everything that can be opened and read at `main`; Ok even when all of it is errors.
pub fn read_all(main: &Path, indexes: &[String], packs: u16, bytes: &[&[u8]]) -> Result<bool, String> {
    use jubako as jbk;
    use jbk::Pack;
    let o = dump::Opts { indexes, streams: true, check: true, max_pack: packs, cap: 10_000, sparse: true, ..Default::default() };
    let d = guard(|| dump::observe(main, &o)).map_err(|e| format!("reading the container: {e}"))?;
    let m = guard(|| dump::observe_manifest(main, true)).map_err(|e| format!("reading the manifest: {e}"))?;
    guard(|| read_other_ways(main, packs)).map_err(|e| format!("reading contents: {e}"))?;
    guard(|| {
        if let Ok(p) = jbk::tools::open_pack(main) {
            let _ = p.check();
            for (_, r) in p.iter() {
                let _ = jbk::reader::ContentPack::new(r.clone()).map(|p| p.check());
                let _ = jbk::reader::DirectoryPack::new(r.clone()).map(|p| p.check());
            }
        }
    }).map_err(|e| format!("tools::open_pack: {e}"))?;
    for b in bytes {
        for kind in 0..4 {
            guard(|| {
                let r = jbk::Reader::from(b.to_vec());
                match kind {
                    0 => { let _ = jbk::reader::ContainerPack::new(r).map(|p| p.check()); }
                    1 => { let _ = jbk::reader::ManifestPack::new(r).map(|p| p.check()); }
                    2 => if let Ok(p) = jbk::reader::DirectoryPack::new(r) {
                        let _ = p.check();
                        let mut d = Dump::new();
                        dump::observe_directory(&Arc::new(p), indexes, 10_000, &mut d);
                    },
                    _ => if let Ok(p) = jbk::reader::ContentPack::new(r) {
                        let _ = p.check();
                        for i in 0..p.get_content_count().into_u32().min(10_000) {
                            if dump::skipped(i, p.get_content_count().into_u32()) { continue }
                            if let Ok(Some(r)) = p.get_content(jbk::ContentIdx::from(i)) { let _ = dump::region_obs(&r, true); }
                        }
                    },
                }
            }).map_err(|e| format!("opening the bytes as {}: {e}", ["a container", "a manifest", "a directory pack", "a content pack"][kind]))?;
        }
    }
    Ok(d.iter().chain(m.iter()).any(|(k, o)| o.is_err() && !k.ends_with("/checkinfo")))
}

fn one(v: &Victim, a: &Alt, b: &[u8], cx: &Cx) -> Result<(), String> {
    let main = v.place(cx.dir, a.file as usize, b);
    if read_all(&main, &v.made.indexes, v.made.packs, &[b])? { cx.nontrivial(1); }
    Ok(())
}

/// Three content packs with clusters of different numbers of blobs, raw and compressed.
fn clusters() -> ContainerSpec {
    let mut s = kit::container(Comp::Zstd(1), Mode::One, 2, 2);
    s.contents = (0..9).map(|k| super::util::ct(2, 10 + k, k as u64, if k < 3 { Hint::No } else { Hint::Yes }, Src::Mem)).collect();
    s.extra[0].1 = vec![super::util::ct(2, 2000, 1, Hint::Yes, Src::Mem)];
    s.extra[1].1 = vec![super::util::ct(2, 5, 1, Hint::No, Src::Mem), super::util::ct(1, 300, 1, Hint::No, Src::Mem)];
    s
}

/// Files that never were a container.
fn foreign(root: &Path) -> Vec<(String, Vec<u8>)> {
    let m = kit::make(root, "foreign", &kit::container(Comp::Zstd(3), Mode::One, 1, 3));
    let whole = m.files[0].1.clone();
    let mut out = vec![];
    for n in 0..=260usize {
        for (name, b) in [("zeros", vec![0u8; n]), ("ones", vec![255; n]), ("text", b"Jubako? jbk! ".iter().cycle().take(n).copied().collect()), ("random", bytes(1, n, n as u64)),
            ("jbk", [b"jbkC".to_vec(), vec![0; n]].concat()), ("kbj", [vec![0; n], b"CkbJ".to_vec()].concat())] { out.push((format!("{n} {name}"), b)); }
        for k in [b'C', b'm', b'd', b'c', b'x'] {
            // a magic number in front and its mirror at the end
            let mut b = vec![0u8; n.max(8)];
            b[..3].copy_from_slice(b"jbk"); b[3] = k;
            let l = b.len();
            b[l - 4] = k; b[l - 3..].copy_from_slice(b"kbj");
            out.push((format!("{l} magic {}", k as char), b));
        }
    }
    for n in [4096, 65536, 1 << 20] { out.push((format!("{n} random"), bytes(1, n, 9))); }
    // garbage in front of a container: every length; and both sides
    for n in 0..=200usize {
        out.push((format!("{n} bytes before"), [bytes(1, n, 3), whole.clone()].concat()));
        out.push((format!("{n} bytes around"), [bytes(2, n, 3), whole.clone(), bytes(1, n, 4)].concat()));
    }
    // pieces of a container
    for m in [Mode::Two, Mode::No] {
        for (n, f) in kit::make(root, &format!("foreign-{m:?}"), &kit::container(Comp::Lz4(1), m, 0, 2)).files {
            for a in 1..f.len() { out.push((format!("{n} of {m:?} from byte {a}"), f[a..].to_vec())); }
        }
    }
    for a in 0..whole.len() {
        for l in [64, 128, 256] { if a + l <= whole.len() { out.push((format!("bytes {a}+{l} of a container"), whole[a..a + l].to_vec())); } }
        out.push((format!("a container from byte {a}"), whole[a..].to_vec()));
    }
    // two containers; a container twice truncated and joined
    for cut in (0..whole.len()).step_by(61) {
        out.push((format!("a container without bytes {cut}..{}", cut + 61), [&whole[..cut], &whole[(cut + 61).min(whole.len())..]].concat()));
        out.push((format!("a container cut at {cut} and another"), [&whole[..cut], &whole[..]].concat()));
    }
    out
}

/// Small containers that differ in the numbers of variants, properties, entries, stores, indexes and
/// contents, many of whose blocks have the same size.
fn relatives() -> Vec<(String, ContainerSpec)> {
    let letters: [Name; 6] = ["a", "b", "c", "d", "e", "f"];
    let mut out = vec![];
    let mut add = |n: String, dir: DirSpec, contents: usize| {
        let mut s = ContainerSpec::contents_only(Comp::None, (0..contents).map(|k| super::util::ct(2, 3 + k % 2, k as u64, if k % 3 == 0 { Hint::Yes } else { Hint::No }, Src::Mem)).collect());
        if contents > 2 { s.comp = Comp::Zstd(1); }
        s.dir = dir;
        out.push((n, s));
    };
    // plain integers: so many columns, entries, stores, indexes
    for (cols, n, stores, indexes) in [(1, 6, 1, 1), (2, 3, 1, 1), (3, 2, 1, 1), (6, 1, 1, 1), (1, 12, 1, 1), (2, 6, 1, 1), (3, 4, 2, 2), (3, 2, 2, 2), (1, 0, 1, 1), (2, 3, 2, 1), (2, 3, 1, 2), (3, 2, 1, 2), (3, 4, 1, 3), (1, 6, 3, 3)] {
        let es = (0..stores).map(|st| EStoreSpec {
            common: letters[..cols].iter().map(|l| Col::U(l)).collect(), variants: vec![], sort: None,
            entries: (0..n).map(|j| EntrySpec { variant: None, vals: letters[..cols].iter().enumerate().map(|(k, l)| (*l, Val::U(1 + (j as u64 * 7 + k as u64 * 3 + st as u64) % 200))).collect() }).collect(),
        }).collect();
        let ix = (0..indexes).map(|k| IndexSpec { name: ["all", "som", "ind"][k].into(), store: k % stores, offset: (n / 3 * k as u32).min(n), count: n - (n / 3 * k as u32).min(n), offset_of: None }).collect();
        add(format!("{cols}x{n}-{stores}-{indexes}"), DirSpec { vstores: vec![], estores: es, indexes: ix }, [0, 1, 2, 5][cols % 4]);
    }
    // variants: so many of them, so many entries
    for (vs, n, sorted) in [(1, 3, false), (2, 3, true), (3, 3, true), (5, 3, true), (2, 4, true), (4, 4, true)] {
        let names: [Name; 5] = ["u", "v", "w", "x", "y"];
        let es = EStoreSpec {
            common: vec![Col::U("a")], variants: names[..vs].iter().map(|v| (*v, vec![Col::U("b")])).collect(), sort: sorted.then(|| vec!["a"]),
            entries: (0..n).map(|j| EntrySpec { variant: Some((vs - 1 + j as usize) % vs), vals: vec![("a", Val::U(3 * j as u64 + 1)), ("b", Val::U(j as u64 + 1))] }).collect(),
        };
        add(format!("{vs} variants of {n}"), DirSpec { vstores: vec![], estores: vec![es], indexes: vec![IndexSpec { name: "all".into(), store: 0, offset: 0, count: n, offset_of: None }] }, 1);
    }
    // arrays in value stores: of either kind, in so many of them, of different numbers of values of the same total
    for (stores, kind, prefix, n, len) in [(1, false, 0, 4, 3), (1, true, 0, 4, 3), (2, false, 0, 4, 3), (2, true, 0, 4, 3), (1, false, 1, 4, 3), (1, false, 0, 3, 4), (1, true, 0, 3, 4), (1, true, 0, 12, 1), (1, false, 1, 2, 7), (1, true, 0, 2, 6)] {
        let es = EStoreSpec {
            common: vec![Col::A(prefix, stores - 1, "a"), Col::C("b")], variants: vec![], sort: Some(vec!["a"]),
            entries: (0..n).map(|j| EntrySpec { variant: None, vals: vec![("a", Val::A(bytes(1, len, 77 + j as u64))), ("b", Val::C(1, j % 3))] }).collect(),
        };
        add(format!("{} {} stores {prefix}+{len} of {n}", stores, if kind { "indexed" } else { "plain" }), DirSpec { vstores: vec![kind; stores], estores: vec![es], indexes: vec![IndexSpec { name: "all".into(), store: 0, offset: 0, count: n, offset_of: None }] }, 5);
    }
    out
}

/// What a partly overwritten file holds: blocks of another container in the place of blocks of this one,
/// and the beginning of one followed by the end of another.
fn torn(dir: &Path, t: bool) -> Space {
    let all: Vec<(String, Arc<Victim>)> = relatives().into_iter().enumerate().map(|(k, (n, s))| (n, Victim::new(dir, &format!("torn-{k}"), &s))).collect();
    #[derive(Clone, Copy)]
    enum Mix { Block { at: u32, from: u32, len: u32 }, Splice(u32), SpliceEnd(u32) }
    let mut cases: Vec<(u16, u16, Mix)> = vec![];
    let blocks: Vec<Vec<(u64, u64)>> = all.iter().map(|(_, v)| crate::indep::blocks(&v.made.files[0].1).unwrap().into_iter().map(|b| (b.0 as u64, b.1 as u64)).collect()).collect();
    for a in 0..all.len() {
        for b in 0..all.len() {
            if a == b { continue }
            let (fa, fb) = (&all[a].1.made.files[0].1, &all[b].1.made.files[0].1);
            for x in &blocks[a] { for y in &blocks[b] {
                if x.1 == y.1 || t { cases.push((a as u16, b as u16, Mix::Block { at: x.0 as u32, from: y.0 as u32, len: y.1 as u32 + 4 })); }
                // aligned on the ends: the shorter block is found where a tail is expected
                if x.1 > y.1 && (t || y.1 < 40) { cases.push((a as u16, b as u16, Mix::Block { at: (x.0 + x.1 - y.1) as u32, from: y.0 as u32, len: y.1 as u32 + 4 })); }
            } }
            let step = if t { 1 } else { 64 };
            let mut cuts: Vec<u32> = (0..fa.len().max(fb.len())).step_by(step).map(|c| c as u32).collect();
            cuts.extend(blocks[a].iter().chain(&blocks[b]).flat_map(|x| [x.0 as u32, (x.0 + x.1 + 4) as u32]));
            cuts.sort();
            cuts.dedup();
            for c in cuts {
                cases.push((a as u16, b as u16, Mix::Splice(c)));
                if fa.len() != fb.len() { cases.push((a as u16, b as u16, Mix::SpliceEnd(c))); }
            }
        }
    }
    // the debug build is slower
    if !t && cfg!(debug_assertions) { let mut k = 0; cases.retain(|_| { k += 1; k % 5 == 0 }); }
    let all = Arc::new(all);
    let (a2, cases) = (Arc::clone(&all), Arc::new(cases));
    let c2 = Arc::clone(&cases);
    Space::new("torn", cases.len() as u64, move |i, cx| {
        let (a, b, mix) = cases[i as usize];
        let v = &all[a as usize].1;
        let (fa, fb) = (&v.made.files[0].1, &all[b as usize].1.made.files[0].1);
        let out = match mix {
            Mix::Block { at, from, len } => { let mut o = fa.clone(); let n = (len as usize).min(o.len() - at as usize); o[at as usize..at as usize + n].copy_from_slice(&fb[from as usize..from as usize + n]); o }
            Mix::Splice(c) => [&fa[..(c as usize).min(fa.len())], &fb[(c as usize).min(fb.len())..]].concat(),
            // the same distance from the end
            Mix::SpliceEnd(c) => [&fa[..fa.len().saturating_sub(c as usize)], &fb[fb.len().saturating_sub(c as usize)..]].concat(),
        };
        if out == *fa || out == *fb { return Ok(()) }
        let main = v.place(cx.dir, 0, &out);
        cx.evals(1);
        let names = ["all".to_string(), "som".into(), "ind".into()];
        if read_all(&main, &names, 2, &[&out])? { cx.nontrivial(1); }
        Ok(())
    }).desc(move |i| {
        let (a, b, mix) = c2[i as usize];
        let (a, b) = (&a2[a as usize].0, &a2[b as usize].0);
        match mix {
            Mix::Block { at, from, len } => format!("container '{a}' with the {len} bytes from {from} of container '{b}' at {at}"),
            Mix::Splice(c) => format!("container '{a}' up to {c}, then container '{b}'"),
            Mix::SpliceEnd(c) => format!("container '{a}' but its last {c} bytes, then those of container '{b}'"),
        }
    }).horizon(20)
}

fn spaces(tier: Tier, dir: &Path) -> Vec<Space> {
    dump::LOOKUPS.store(true, std::sync::atomic::Ordering::Relaxed);
    *dump::PROBES.lock().unwrap() = vec![("a", Val::U(5)), ("a", Val::A(b"m".to_vec())), ("b", Val::U(2)), ("path", Val::A(b"n".to_vec())), ("n", Val::U(300)), ("t", Val::S(-1))];
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let comps = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
    let all = all_masks();
    // the debug build is slower
    let slow = cfg!(debug_assertions);
    let masks: &[u8] = if t { &all } else if slow { &[1, 128] } else { &BITS };
    let fills: &[Fill] = if t { &[Fill::Zero, Fill::Ones, Fill::Invert, Fill::Text, Fill::Reverse, Fill::Next] } else { &[Fill::Zero, Fill::Text] };
    let ranges: &[(usize, usize)] = if t { &[(2, 1), (4, 2), (16, 4), (64, 8), (256, 32), (1000, 64)] } else { &[(2, 2), (4, 3), (16, 8), (64, 16), (512, 64)] };
    let ends: &[usize] = &[1, 3, 63, 64, 65, 128, 4096];
    for (k, c) in comps.iter().enumerate() {
        for (j, m) in [Mode::One, Mode::Two, Mode::No].into_iter().enumerate() {
            let _ = j;
            let v = Victim::new(dir, &format!("{m:?}-{k}"), &kit::container(*c, m, usize::from(m == Mode::No), 2));
            let a = alterations(&v, masks, 1, ranges, fills, true, ends);
            out.push(space("damage", v.clone(), a, one));
            let a = moved(&v);
            out.push(space("moved", v, a, one));
        }
        // a cluster decoded in several chunks, in the background
        if *c != Comp::None {
            let v = Victim::new(dir, &format!("chunks-{k}"), &large(*c, Mode::One, 14_000));
            let a = alterations(&v, &[255], if t { 1 } else { 5 }, &[(64, if t { 16 } else { 128 })], &[Fill::Zero, Fill::Text], true, &[1, 4096]);
            out.push(space("damage", v, a, one));
        }
        // the whole byte range where the compressed data of a small cluster is
        if *c != Comp::None {
            let v = Victim::new(dir, &format!("stream-{k}"), &large(*c, Mode::One, 600));
            let at = v.made.files[0].1.len();
            let range = compressed(&v.made.files[0].1).unwrap_or(0..at);
            let mut a = vec![];
            for at in range { for m in if t { &all[..] } else if slow { &BITS[7..] } else { &BITS } { a.push(Alt { file: 0, at: at as u32, op: Op::Xor(*m) }); } }
            out.push(space("stream", v, a, one));
        }
    }
    // misdirected blocks between packs with many clusters and contents
    for (n, s) in [("tables", super::c05::tables()), ("clusters", clusters())] {
        let v = Victim::new(dir, n, &s);
        let a = moved(&v);
        out.push(space("moved", v, a, one));
    }
    for (n, s) in [("stores", kit::big_stores(Mode::One)), ("counts", kit::big_tables(Comp::Zstd(1), Mode::Two))] {
        let v = Victim::new(dir, n, &s);
        let st = if t { 1 } else if slow { 37 } else { 11 };
        let a = alterations(&v, &[255], st, &[(100, if slow { 401 } else { 101 })], &[Fill::Zero, Fill::Text], true, &[1, 4096]);
        out.push(space("large", v.clone(), a, one));
        if t { let a = moved(&v); out.push(space("moved", v, a, one)); }
    }
    out.push(torn(dir, t));
    // a file in place of another
    let v = Victim::new(dir, "files", &kit::container(Comp::Zstd(3), Mode::No, 2, 2));
    let n = v.made.files.len() as u64;
    out.push(Space::new("swapped", n * n, move |i, cx| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        let bytes = v.made.files[b].1.clone();
        let main = v.place(cx.dir, a, &bytes);
        cx.evals(1);
        if read_all(&main, &v.made.indexes, v.made.packs, &[])? { cx.nontrivial(1); }
        Ok(())
    }).desc(move |i| format!("file {} replaced by file {}", i / n, i % n)).horizon(20));
    let f = Arc::new(foreign(dir));
    let f2 = Arc::clone(&f);
    out.push(Space::new("foreign", f.len() as u64, move |i, cx| {
        let p = cx.dir.join("c.jbk");
        let _ = std::fs::remove_file(&p);
        std::fs::write(&p, &f[i as usize].1).unwrap();
        cx.evals(1);
        if read_all(&p, &["all".into(), "some".into()], 3, &[&f[i as usize].1])? { cx.nontrivial(1); }
        Ok(())
    }).desc(move |i| f2[i as usize].0.clone()).horizon(20));
    out
}

/// Where the compressed clusters of the file are.
fn compressed(b: &[u8]) -> Option<std::ops::Range<usize>> {
    let packs = crate::indep::packs(b).ok()?;
    let p = packs.iter().find(|p| p.head.kind == b'c')?;
    let c = crate::indep::content(&b[p.start as usize..(p.start + p.head.size) as usize], false).ok()?;
    let c = c.clusters.iter().find(|c| c.comp != 0)?;
    let at = (p.start + c.data_at) as usize;
    Some(at..at + c.stored as usize)
}
