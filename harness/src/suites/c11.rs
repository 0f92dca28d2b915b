//! C11: an unavailable pack is reported as missing, and everything else still reads.

use super::kit::{self, Made};
use super::util::*;
use crate::build;
use crate::dump::{self, pack_info_str};
use crate::indep;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use jubako as jbk;
use jbk::creator;
use jbk::reader::MayMissPack;
use std::collections::BTreeMap;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "a state is what is found at the recorded location of each content pack (the pack, nothing, a directory, a link, another valid pack, a container with or without the pack, a damaged pack ...) and which packs were already opened; every combination of those states over all the packs, every combination of recorded locations, and every sequence of accesses, removals and restorations up to the bound is run on the real reader and compared with the model",
        assumptions: vec![
            "a location holding something that is not a Jubako file at all may be an error or a missing pack for contents of that very pack",
            "a pack opened before its file was removed may still be read",
            "a missing directory pack is not a missing content pack: opening must then fail with an error",
        ],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

/// What sits at the location of a pack.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At { Itself, Nothing, EmptyDir, FullDir, OtherContent, OtherDirectory, OtherManifest, OtherContainer, Sibling, EntryPoint, Link, DanglingLink, LinkToDir, ContainerWithIt, EmbeddedIt, Empty, Garbage, Altered }
use At::*;
const ALL: [At; 18] = [Itself, Nothing, EmptyDir, FullDir, OtherContent, OtherDirectory, OtherManifest, OtherContainer, Sibling, EntryPoint, Link, DanglingLink, LinkToDir, ContainerWithIt, EmbeddedIt, Empty, Garbage, Altered];

impl At {
    fn available(self) -> bool { matches!(self, Itself | Link | ContainerWithIt | EmbeddedIt | Altered) }
    /// not even a Jubako file: an error is as good
    fn junk(self) -> bool { matches!(self, Empty | Garbage) }
}

/// A container, the packs that live in files of their own and what they become.
struct World { m: Made, packs: Vec<(u16, String)>, infos: BTreeMap<u16, String>, other: BTreeMap<&'static str, Vec<u8>>, with_it: Vec<Vec<u8>>, altered: Vec<Vec<u8>> }

fn infos(main: &[u8]) -> BTreeMap<u16, (String, [u8; 16], String)> {
    let ps = indep::packs(main).unwrap();
    let p = ps.iter().find(|p| p.head.kind == b'm').unwrap();
    let m = indep::manifest(&main[p.start as usize..(p.start + p.head.size) as usize]).unwrap();
    m.infos.iter().filter(|i| i.kind == b'c').map(|i| (i.id, (
        format!("{} id={} kind={} group={} size={} loc={:?}", uuid::Uuid::from_bytes(i.uuid), i.id, i.kind as char, i.group, i.size, i.location), i.uuid, i.location.clone()))).collect()
}

fn concat(ins: &[PathBuf], out: &Path) -> Vec<u8> {
    jbk::tools::concat(ins, camino::Utf8Path::from_path(out).unwrap()).unwrap();
    read(out)
}

fn world(root: &Path, name: &str, spec: &ContainerSpec) -> World {
    let m = kit::make(root, name, spec);
    let o = kit::make(root, &format!("{name}-other"), &kit::container(spec.comp, Mode::No, 3, 3));
    let info = infos(&read(&m.main));
    let mut packs = vec![];
    for (id, (_, _, loc)) in &info { if m.files.iter().any(|f| f.0 == *loc && *loc != "c.jbk") { packs.push((*id, loc.clone())) } }
    let of = |n: &str| o.files.iter().find(|f| f.0.ends_with(n)).unwrap().1.clone();
    let mut other = BTreeMap::new();
    other.insert("content", of("c.jbkc"));
    other.insert("directory", of(".jbkd"));
    other.insert("manifest", of("c.jbk"));
    let tmp = root.join(format!("{name}-tmp"));
    std::fs::create_dir_all(&tmp).unwrap();
    let ofile = |n: &str| o.dir.join(&o.files.iter().find(|f| f.0.ends_with(n)).unwrap().0);
    other.insert("container", concat(&[ofile("c.jbkc"), ofile(".jbkd"), ofile("x0.jbkc")], &tmp.join("a")));
    let mut with_it = vec![];
    let mut altered = vec![];
    for (_, f) in &packs {
        with_it.push(concat(&[ofile("c.jbkc"), m.dir.join(f), ofile("x0.jbkc")], &tmp.join("b")));
        // the last content of the pack, raw, is 5 bytes long; its pack starts at 0 of its own file or inside a container
        let mut b = m.files.iter().find(|x| x.0 == *f).unwrap().1.clone();
        let at = raw_content(&b);
        b[at] ^= 0x10;
        altered.push(b);
    }
    World { infos: info.into_iter().map(|(k, v)| (k, v.0)).collect(), m, packs, other, with_it, altered }
}

/// position of a byte of a content stored as is
fn raw_content(b: &[u8]) -> usize {
    let ps = indep::packs(b).unwrap();
    let p = ps.iter().find(|p| p.head.kind == b'c').unwrap();
    let pack = &b[p.start as usize..(p.start + p.head.size) as usize];
    let c = indep::content(pack, true).unwrap();
    let at = c.contents.iter().find(|c| c.verbatim_at.is_some() && matches!(c.obs, Obs::Data { len: 33, .. })).unwrap();
    p.start as usize + at.verbatim_at.unwrap() as usize
}

impl World {
    fn place(&self, dir: &Path, k: usize, at: At) {
        let own = dir.join(&self.packs[k].1);
        let bytes = &self.m.files.iter().find(|f| f.0 == self.packs[k].1).unwrap().1;
        let put = |b: &[u8]| std::fs::write(&own, b).unwrap();
        match at {
            Itself => put(bytes),
            Nothing => {}
            EmptyDir => std::fs::create_dir(&own).unwrap(),
            FullDir => { std::fs::create_dir(&own).unwrap(); std::fs::write(own.join(&self.packs[k].1), bytes).unwrap() }
            OtherContent => put(&self.other["content"]),
            OtherDirectory => put(&self.other["directory"]),
            OtherManifest => put(&self.other["manifest"]),
            OtherContainer => put(&self.other["container"]),
            Sibling => { let s = &self.packs[(k + 1) % self.packs.len()].1; let b = if self.packs.len() > 1 { &self.m.files.iter().find(|f| f.0 == *s).unwrap().1 } else { &self.other["content"] }; put(b) }
            EntryPoint => put(&self.m.files.iter().find(|f| f.0 == "c.jbk").unwrap().1),
            Link => { let d = dir.join("elsewhere"); let _ = std::fs::create_dir(&d); std::fs::write(d.join(format!("{k}")), bytes).unwrap(); symlink(d.join(format!("{k}")), &own).unwrap() }
            DanglingLink => symlink("nowhere", &own).unwrap(),
            LinkToDir => symlink(".", &own).unwrap(),
            ContainerWithIt => put(&self.with_it[k]),
            EmbeddedIt => { let mut v = crate::spec::bytes(2, 4097, 3); v.extend(bytes); put(&v) }
            Empty => put(b""),
            Garbage => put(&crate::spec::bytes(2, 3000, 8)),
            Altered => put(&self.altered[k]),
        }
    }
}

/// the model of a container some packs of which are not available
fn expected(want: &Dump, infos: &BTreeMap<u16, String>, missing: &[u16]) -> Dump {
    let mut w = want.clone();
    for id in missing {
        w.retain(|k, _| !k.starts_with(&format!("p{id}/")));
        w.insert(format!("p{id}/pack"), Obs::Missing(infos[id].clone()));
        w.insert(format!("p{id}/bytes"), Obs::Missing(infos[id].clone()));
    }
    w
}

fn compare(mut want: Dump, mut got: Dump, junk: &[u16], altered: &[u16]) -> Result<(), String> {
    for k in ["open"] { if got.remove(k) != Some(Obs::Str("ok".into())) { return Err("the container does not open".into()) } }
    let check = got.remove("#check");
    for id in junk {
        for k in [format!("p{id}/pack"), format!("p{id}/bytes")] {
            if got.get(&k).map(|o| o.is_err()).unwrap_or(false) || k.ends_with("bytes") && !got.contains_key(&k) { got.remove(&k); want.remove(&k); }
        }
    }
    for id in altered { // the bytes differ without an error, that is what check is for
        want.retain(|k, _| !k.starts_with(&format!("p{id}/c")));
        got.retain(|k, _| !k.starts_with(&format!("p{id}/c")));
        if got.remove(&format!("p{id}#check")) == Some(Obs::Bool(true)) { return Err(format!("the altered pack {id} verifies")) }
    }
    for (k, v) in &got { if k.ends_with("#check") && *v != Obs::Bool(true) { return Err(format!("{k} says {v:?}")) } }
    if !altered.is_empty() {
        if check == Some(Obs::Bool(true)) { return Err("the container verifies with an altered pack present".into()) }
    } else if junk.is_empty() && check != Some(Obs::Bool(true)) { return Err(format!("the container check says {check:?}")) }
    let found: Vec<String> = got.iter().filter(|(k, v)| k.ends_with("/pack") && **v == Obs::Str("found".into())).map(|(k, _)| k.clone()).collect();
    for k in found { if want.get(&k).is_some() { return Err(format!("{k} is there but must not be")) } got.remove(&k); }
    match diff(&want, &got, |k| k.ends_with("/pack") || model::modelled(k)) { None => Ok(()), Some(d) => Err(format!("expected vs read: {d}")) }
}

/// every combination of what is found at the locations
fn subsets(root: &Path, t: Tier) -> Space {
    let mut worlds = vec![];
    for c in if t == Tier::Quick { vec![Comp::Zstd(1)] } else { vec![Comp::None, Comp::Lz4(1), Comp::Lzma(1), Comp::Zstd(1)] } {
        for (mode, extra) in [(Mode::One, 1), (Mode::One, 2), (Mode::One, 3), (Mode::Two, 0), (Mode::Two, 1), (Mode::Two, 2), (Mode::No, 0), (Mode::No, 1), (Mode::No, 2), (Mode::Two, 3), (Mode::No, 3)] {
            if extra == 3 && mode != Mode::One && t == Tier::Quick { continue }
            worlds.push(world(root, &format!("s{}{mode:?}{extra}", worlds.len()), &kit::container(c, mode, extra, 4)));
        }
    }
    let a = ALL.len() as u64;
    let sizes: Vec<u64> = worlds.iter().map(|w| a.pow(w.packs.len() as u32)).collect();
    let total: u64 = sizes.iter().sum();
    let locate = move |mut i: u64| { for (k, s) in sizes.iter().enumerate() { if i < *s { return (k, i) } i -= s } unreachable!() };
    let l2 = locate.clone();
    let radix: Vec<Vec<u64>> = worlds.iter().map(|w| vec![a; w.packs.len()]).collect();
    let r2 = radix.clone();
    Space::new("what-is-at-the-locations", total, move |i, cx| {
        let (k, j) = locate(i);
        let w = &worlds[k];
        let d: Vec<At> = mixed(j, &radix[k]).into_iter().map(|x| ALL[x as usize]).collect();
        clean(cx.dir);
        for (n, b) in &w.m.files { if !w.packs.iter().any(|p| p.1 == *n) { std::fs::write(cx.dir.join(n), b).unwrap(); } }
        for (q, at) in d.iter().enumerate() { w.place(cx.dir, q, *at); }
        let of = |f: &dyn Fn(At) -> bool| w.packs.iter().zip(&d).filter(|(_, at)| f(**at)).map(|(p, _)| p.0).collect::<Vec<u16>>();
        let want = expected(&w.m.want, &w.infos, &of(&|x| !x.available()));
        let got = dump::observe(&cx.dir.join("c.jbk"), &w.m.opts());
        compare(want, got, &of(&|x| x.junk()), &of(&|x| x == Altered))?;
        cx.states(1); cx.transitions(d.len() as u64); cx.traces(1);
        if d.iter().any(|x| *x != Itself) { cx.nontrivial(1); }
        cx.outcome(&format!("{} {}", d.iter().filter(|x| x.available()).count(), d.len()));
        cx.sample(|| format!("{d:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| { let (k, j) = l2(i); format!("container {k}: {:?}", mixed(j, &r2[k]).into_iter().map(|x| ALL[x as usize]).collect::<Vec<_>>()) })
}

/// every combination of recorded locations: a pack is where its recorded location says, if it is that pack
fn locations(root: &Path, t: Tier) -> Space {
    let worlds: Vec<World> = [(Mode::One, 2), (Mode::Two, 1), (Mode::No, 1), (Mode::Two, 2)].iter().take(if t == Tier::Quick { 3 } else { 4 })
        .map(|(m, e)| world(root, &format!("l{m:?}{e}"), &kit::container(Comp::Lz4(1), *m, *e, 3))).collect();
    let n = 14u64;
    let of = |w: &World, k: usize, d: u64, home: &Path| -> (String, bool) {
        let own = w.packs[k].1.clone();
        let sib = w.packs[(k + 1) % w.packs.len()].1.clone();
        match d {
            0 => (own, true),
            1 => (sib.clone(), sib == w.packs[k].1),
            2 => ("c.jbk".into(), false),
            3 => ("nothing here".into(), false),
            4 => ("".into(), false),
            5 => (".".into(), false),
            6 => ("..".into(), false),
            7 => (home.join(&own).to_str().unwrap().into(), true),
            8 => (format!("elsewhere/../{own}"), true),
            9 => (format!("elsewhere/{own}"), true),
            10 => (format!("./././{own}"), true),
            11 => ("n".repeat(213), false),
            12 => (format!("{own}/{own}"), false),
            _ => (format!("é/{own}"), false),
        }
    };
    let sizes: Vec<u64> = worlds.iter().map(|w| n.pow(w.packs.len() as u32)).collect();
    let total = sizes.iter().sum();
    Space::new("recorded-locations", total, move |mut i, cx| {
        let mut k = 0;
        while i >= sizes[k] { i -= sizes[k]; k += 1 }
        let w = &worlds[k];
        clean(cx.dir);
        let main = w.m.install(cx.dir);
        let d = mixed(i, &vec![n; w.packs.len()]);
        std::fs::create_dir(cx.dir.join("elsewhere")).unwrap();
        let raw = infos(&read(&main));
        let mut infos2 = w.infos.clone();
        let mut missing = vec![];
        for (q, p) in w.packs.iter().enumerate() {
            let (loc, there) = of(w, q, d[q], cx.dir);
            if d[q] == 9 { std::fs::copy(cx.dir.join(&p.1), cx.dir.join(&loc)).unwrap(); }
            jbk::tools::set_location(&main, uuid::Uuid::from_bytes(raw[&p.0].1), loc.as_str().into()).map_err(|e| e.to_string())?;
            let base = infos2[&p.0].split(" loc=").next().unwrap().to_string();
            infos2.insert(p.0, format!("{base} loc={loc:?}"));
            if !there { missing.push(p.0) }
        }
        let got = dump::observe(&main, &w.m.opts());
        compare(expected(&w.m.want, &infos2, &missing), got, &[], &[])?;
        cx.states(1); cx.transitions(w.packs.len() as u64); cx.traces(1);
        cx.outcome(&format!("{} missing of {}", missing.len(), w.packs.len()));
        cx.sample(|| format!("{d:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// every sequence of accesses, removals and restorations on one opened container
fn histories(root: &Path, t: Tier) -> Space {
    let w = world(root, "h", &kit::container(Comp::Zstd(1), Mode::No, 2, 3));
    let len: u32 = if t == Tier::Quick { 4 } else { 5 };
    // ops: 0..3 get_pack, 3..6 get_bytes, 6..9 remove, 9..12 restore, 12..15 replace by another pack, 15 unknown ids, 16 entries, 17 check
    let a = 18u64;
    let nseq = a.pow(len);
    let starts = 8u64;
    let main_want = w.m.want.clone();
    Space::new("histories", nseq * starts, move |i, cx| {
        let (ops, start) = (mixed(i / starts, &vec![a; len as usize]), i % starts);
        clean(cx.dir);
        let main = w.m.install(cx.dir);
        let mut avail = [true; 3];
        let mut seen = [false; 3];
        for k in 0..3 { if start >> k & 1 == 1 { avail[k] = false; std::fs::remove_file(cx.dir.join(&w.packs[k].1)).unwrap(); } }
        let c = jbk::reader::Container::new(&main).map_err(|e| format!("open: {e}"))?;
        for op in &ops {
            let k = (*op % 3) as usize;
            let id = w.packs.get(k).map(|p| p.0).unwrap_or(0);
            let file = cx.dir.join(&w.packs[k].1);
            let fail = |s: String| Err(format!("after {ops:?} from {start}, operation {op}: {s}"));
            match op {
                0..=2 => match c.get_pack(id.into()).map_err(|e| format!("get_pack: {e}"))? {
                    None => return fail("unknown pack".into()),
                    Some(MayMissPack::MISSING(p)) => {
                        if avail[k] { return fail(format!("pack {id} is there, found missing")) }
                        if pack_info_str(&p) != w.infos[&id] { return fail(format!("described as {}", pack_info_str(&p))) }
                    }
                    Some(MayMissPack::FOUND(p)) => {
                        if !avail[k] && !seen[k] { return fail(format!("pack {id} found, it is missing")) }
                        if p.get_content_count().into_u32() != 5 { return fail("count".into()) }
                        seen[k] = true;
                    }
                },
                3..=5 => for cid in [0u32, 1, 3, 4, 5, u32::MAX] {
                    match c.get_bytes(jbk::ContentAddress::new(id.into(), cid.into())).map_err(|e| format!("get_bytes: {e}"))? {
                        None => return fail("unknown pack".into()),
                        Some(MayMissPack::MISSING(p)) => {
                            if avail[k] { return fail(format!("pack {id} is there, found missing")) }
                            if pack_info_str(&p) != w.infos[&id] { return fail(format!("described as {}", pack_info_str(&p))) }
                        }
                        Some(MayMissPack::FOUND(b)) => {
                            if !avail[k] && !seen[k] { return fail(format!("pack {id} found, it is missing")) }
                            seen[k] = true;
                            let got = b.map(|r| dump::region_obs(&r, false));
                            if got.as_ref() != main_want.get(&format!("p{id}/c{cid}")) { return fail(format!("content {cid} of {id} is {got:?}")) }
                        }
                    }
                },
                6..=8 => { let _ = std::fs::remove_file(&file); avail[k] = false; }
                9..=11 => { std::fs::write(cx.dir.join("new"), &w.m.files.iter().find(|f| f.0 == w.packs[k].1).unwrap().1).unwrap(); std::fs::rename(cx.dir.join("new"), &file).unwrap(); avail[k] = true; }
                12..=14 => { std::fs::write(cx.dir.join("new"), &w.other["content"]).unwrap(); std::fs::rename(cx.dir.join("new"), &file).unwrap(); avail[k] = false; }
                15 => for id in [0u16, 4, 5, 255, 65534, 65535] {
                    if c.get_pack(id.into()).map_err(|e| e.to_string())?.is_some() { return fail(format!("pack {id} is known")) }
                    if c.get_bytes(jbk::ContentAddress::new(id.into(), 0.into())).map_err(|e| e.to_string())?.is_some() { return fail(format!("bytes in the unknown pack {id}")) }
                },
                16 => {
                    let mut got = Dump::new();
                    let ix = c.get_index_for_name("all").map_err(|e| e.to_string())?.ok_or("no index")?;
                    dump::observe_index(ix.get_store(c.get_entry_storage()), c.get_value_storage(), &ix, "ix/all", 100, &mut got);
                    if let Some(d) = diff(&main_want, &got, |k| k.starts_with("ix/all/")) { return fail(format!("entries: {d}")) }
                }
                _ => match c.check() { Ok(true) => {} x => return fail(format!("check says {x:?}")) },
            }
            cx.transitions(1);
        }
        cx.states(1 + ops.len() as u64); cx.traces(1);
        cx.outcome(&format!("{avail:?} {seen:?}"));
        cx.sample(|| format!("{ops:?} from {start}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| format!("{:?} from {}", mixed(i / starts, &vec![a; len as usize]), i % starts))
}

/// pack ids chosen by the application, with holes
fn ids(root: &Path) -> Space {
    let sets: [&[u16]; 12] = [&[1], &[2], &[255, 1], &[256], &[1, 2, 300], &[65534], &[65535], &[1, 65535], &[7, 3, 5], &[32768, 1], &[4, 3, 2, 1], &[2, 9, 4]];
    let mut worlds = vec![];
    for (k, s) in sets.iter().enumerate() { for order in 0..2 {
        let dir = root.join(format!("ids{k}{order}"));
        std::fs::create_dir_all(&dir).unwrap();
        let (_, _, dpd) = build::create_directory_pack(&simple_dir(2), &dir, "d.jbkd").unwrap();
        let mut m = creator::ManifestPackCreator::new(build::vendor(), Default::default());
        let mut dpd = Some(dpd);
        if order == 0 { m.add_pack(dpd.take().unwrap(), "d.jbkd"); }
        for id in s.iter() {
            let p8 = camino::Utf8PathBuf::from_path_buf(dir.join(format!("x{id}.jbkc"))).unwrap();
            let mut cc = creator::ContentPackCreator::new(&p8, (*id).into(), build::vendor(), Default::default(), creator::Compression::None).unwrap();
            cc.add_content(Box::new(std::io::Cursor::new(format!("content of {id}").into_bytes())), creator::CompHint::No).unwrap();
            let (_f, pd) = cc.finalize().unwrap();
            m.add_pack(pd, format!("x{id}.jbkc"));
        }
        // the directory pack may be listed last
        if let Some(dpd) = dpd { m.add_pack(dpd, "d.jbkd"); }
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join("c.jbk")).unwrap();
        m.finalize(&mut f).unwrap();
        let main = read(&dir.join("c.jbk"));
        worlds.push((dir.clone(), s.to_vec(), infos(&main), files(&dir)));
    } }
    let mut cases = vec![];
    for (k, w) in worlds.iter().enumerate() { for mask in 0..1u32 << w.1.len() { for joined in 0..2 { cases.push((k, mask, joined)); } } }
    Space::new("pack-ids", cases.len() as u64, move |i, cx| {
        let (k, mask, joined) = cases[i as usize];
        let (dir, set, infos, _) = &worlds[k];
        clean(cx.dir);
        let mut ins = vec![];
        for n in ["c.jbk".to_string(), "d.jbkd".to_string()].into_iter().chain(set.iter().enumerate().filter(|(q, _)| mask >> q & 1 == 0).map(|(_, id)| format!("x{id}.jbkc"))) {
            std::fs::copy(dir.join(&n), cx.dir.join(&n)).unwrap();
            ins.push(cx.dir.join(n));
        }
        let mut main = cx.dir.join("c.jbk");
        if joined == 1 {
            main = cx.dir.join("joined.jbk");
            concat(&ins, &main);
            for f in ins { std::fs::remove_file(f).unwrap(); }
        }
        let c = jbk::reader::Container::new(&main).map_err(|e| format!("open: {e}"))?;
        if c.pack_count().into_u16() as usize != set.len() + 1 { return Err(format!("{} packs", c.pack_count().into_u16())) }
        let max = *set.iter().max().unwrap() as u32;
        let mut probes: Vec<u16> = (0..20).chain([127, 128, 254, 255, 256, 257, 299, 300, 301, 32767, 32768, 32769, 65533, 65534, 65535]).collect();
        for d in 0..3u32 { probes.push((max + d).min(65535) as u16); probes.push(max.saturating_sub(d) as u16); }
        for id in probes {
            let r = c.get_bytes(jbk::ContentAddress::new(id.into(), 0.into())).map_err(|e| format!("pack {id}: {e}"))?;
            match (set.iter().position(|s| *s == id), r) {
                (None, None) => {}
                (None, Some(_)) => return Err(format!("unknown pack {id} answers")),
                (Some(_), None) => return Err(format!("pack {id} unknown")),
                (Some(q), Some(MayMissPack::MISSING(p))) => {
                    if mask >> q & 1 == 0 { return Err(format!("pack {id} is there, found missing")) }
                    if pack_info_str(&p) != infos[&id].0 { return Err(format!("described as {}", pack_info_str(&p))) }
                }
                (Some(q), Some(MayMissPack::FOUND(b))) => {
                    if mask >> q & 1 == 1 { return Err(format!("pack {id} found, it is missing")) }
                    let got = b.map(|r| dump::region_obs(&r, true));
                    if got != Some(Obs::data(format!("content of {id}").as_bytes())) { return Err(format!("pack {id}: {got:?}")) }
                }
            }
            let g = c.get_pack(id.into()).map_err(|e| format!("get_pack {id}: {e}"))?;
            if g.is_some() != set.contains(&id) { return Err(format!("get_pack({id})")) }
            cx.transitions(2);
        }
        match c.check() { Ok(true) => {} x => return Err(format!("check says {x:?}")) }
        cx.states(1); cx.traces(1);
        cx.outcome(&format!("{set:?} {mask} {joined}"));
        cx.sample(|| format!("ids {set:?} without {mask:b}, joined {joined}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// Hundreds of packs; those of `order` (the manifest, the directory, the contents) joined, the others loose or gone.
pub fn crowd(root: &Path, t: Tier, missing: bool) -> Space {
    let sizes: &'static [usize] = if t == Tier::Quick { &[1, 64, 254, 256, 300] } else { &[1, 2, 31, 63, 64, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 700] };
    let mut worlds = vec![];
    for n in sizes {
        let dir = root.join(format!("crowd{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        let (_, _, dpd) = build::create_directory_pack(&simple_dir(2), &dir, "d.jbkd").unwrap();
        let mut m = creator::ManifestPackCreator::new(build::vendor(), Default::default());
        m.add_pack(dpd, "d.jbkd");
        let mut files = vec!["c.jbk".to_string(), "d.jbkd".to_string()];
        for k in 0..*n {
            let name = format!("x{k}.jbkc");
            let p8 = camino::Utf8PathBuf::from_path_buf(dir.join(&name)).unwrap();
            let mut cc = creator::ContentPackCreator::new(&p8, jbk::PackId::from(1 + k as u16), build::vendor(), Default::default(), creator::Compression::None).unwrap();
            cc.add_content(Box::new(std::io::Cursor::new(format!("content of {k}").into_bytes())), creator::CompHint::No).unwrap();
            m.add_pack(cc.finalize().unwrap().1, name.as_str());
            files.push(name);
        }
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join("c.jbk")).unwrap();
        m.finalize(&mut f).unwrap();
        let main = read(&dir.join("c.jbk"));
        worlds.push((dir.clone(), files, infos(&main)));
    }
    // size x order x which are joined x which of the others are there x embedded
    let radix = [sizes.len() as u64, 4, 5, if missing { 6 } else { 1 }, 2];
    Space::new("crowd", radix.iter().product(), move |i, cx| {
        let c = mixed(i, &radix);
        let (dir, files, infos) = &worlds[c[0] as usize];
        let n = files.len();
        let mut order: Vec<usize> = (0..n).collect();
        match c[1] { 0 => {} 1 => order.reverse(), 2 => order.sort_by_key(|k| (k % 2, *k)), _ => order.sort_by_key(|k| (k * 7919) % 257) }
        let gone = |k: usize| k >= 2 && match c[3] { 0 => false, 1 => true, 2 => k % 2 == 0, 3 => k == 2, 4 => k == n - 1, _ => k != n / 2 + 1 };
        // joined: nothing, the manifest alone, all, the even ones, the last ones
        let joined = |k: usize| match c[2] { 0 => false, 1 => k == 0, 2 => true, 3 => k % 2 == 0, _ => k == 0 || k >= n / 2 };
        clean(cx.dir);
        for k in 0..n { if !gone(k) { std::fs::copy(dir.join(&files[k]), cx.dir.join(&files[k])).unwrap(); } }
        let mut main = cx.dir.join("c.jbk");
        if c[2] > 0 {
            let ins: Vec<PathBuf> = order.iter().filter(|k| joined(**k) && !gone(**k)).map(|k| cx.dir.join(&files[*k])).collect();
            main = cx.dir.join("joined.jbk");
            concat(&ins, &main);
            for f in ins { std::fs::remove_file(f).unwrap(); }
        }
        if c[4] == 1 { let b = read(&main); std::fs::write(&main, [bytes(2, 999, 3), b].concat()).unwrap(); }
        let ct = jbk::reader::Container::new(&main).map_err(|e| format!("open: {e}"))?;
        if ct.pack_count().into_u16() as usize != n - 1 { return Err(format!("{} packs", ct.pack_count().into_u16())) }
        // in order and backwards
        for k in (2..n).chain((2..n).rev()) {
            let id = k as u16 - 1;
            match ct.get_bytes(jbk::ContentAddress::new(id.into(), 0.into())).map_err(|e| format!("pack {id}: {e}"))? {
                None => return Err(format!("pack {id} unknown")),
                Some(MayMissPack::MISSING(p)) => {
                    if !gone(k) { return Err(format!("pack {id} is there, found missing")) }
                    if pack_info_str(&p) != infos[&id].0 { return Err(format!("pack {id} described as {}", pack_info_str(&p))) }
                }
                Some(MayMissPack::FOUND(b)) => {
                    if gone(k) { return Err(format!("pack {id} found, it is missing")) }
                    let got = b.map(|r| dump::region_obs(&r, true));
                    if got != Some(Obs::data(format!("content of {}", k - 2).as_bytes())) { return Err(format!("pack {id}: {got:?}")) }
                }
            }
            cx.transitions(1);
        }
        for id in [0, n as u16 - 1, n as u16, 65535] {
            if !matches!(ct.get_bytes(jbk::ContentAddress::new(id.into(), 0.into())), Ok(None)) { return Err(format!("unknown pack {id} answers")) }
        }
        match ct.check() { Ok(true) => {} x => return Err(format!("check says {x:?}")) }
        cx.states(1); cx.traces(1);
        cx.outcome(&format!("{c:?}"));
        cx.sample(|| format!("{n} files {c:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| format!("{:?} (size, order, joined, gone, embedded)", mixed(i, &radix)))
}

/// without its directory pack a container does not open, with an error
fn no_directory(root: &Path) -> Space {
    let w = world(root, "nd", &kit::container(Comp::None, Mode::No, 1, 3));
    let dirname = w.m.files.iter().find(|f| f.0.ends_with(".jbkd")).unwrap().0.clone();
    Space::new("no-directory-pack", 7, move |i, cx| {
        clean(cx.dir);
        let main = w.m.install(cx.dir);
        let f = cx.dir.join(&dirname);
        std::fs::remove_file(&f).unwrap();
        match i {
            0 => {}
            1 => std::fs::create_dir(&f).unwrap(),
            2 => std::fs::write(&f, &w.other["directory"]).unwrap(),
            3 => std::fs::write(&f, &w.other["content"]).unwrap(),
            4 => std::fs::write(&f, &w.other["container"]).unwrap(),
            5 => std::fs::write(&f, b"").unwrap(),
            _ => std::fs::write(&f, bytes(2, 900, 1)).unwrap(),
        }
        if jbk::reader::Container::new(&main).is_ok() { return Err("opened without its directory pack".into()) }
        cx.states(1); cx.transitions(1); cx.traces(1);
        cx.outcome(&format!("{i}"));
        clean(cx.dir);
        Ok(())
    })
}

fn spaces(t: Tier, d: &Path) -> Vec<Space> {
    vec![subsets(d, t), locations(d, t), histories(d, t), ids(d), no_directory(d), crowd(d, t, true)]
}
