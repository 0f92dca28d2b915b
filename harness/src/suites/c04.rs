//! C04: what the creator makes passes its check, and no altered byte does.

use super::damage::*;
use super::kit;
use super::util::*;
use crate::build;
use crate::dump;
use crate::indep;
use crate::infra::*;
use crate::spec::*;
use std::path::Path;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "fault_enumeration",
        rule: "an evaluation is one created container whose checks must all succeed, or one alteration inside the checked range or the check block of a pack after which neither that pack's check nor the container's may return success; alterations are made as they are and with the CRC-32 of the altered block recomputed, so that the checksum itself has to notice; non-trivial when the check ran and returned false",
        assumptions: vec![
            "with a recomputed CRC: not the check kind byte nor, when the pack is then another pack (its uuid), what the container says",
            "blake3 has no collision among the alterations",
        ],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

#[derive(Clone, Debug)]
struct PackIn { file: usize, start: usize, check: usize, kind: u8, uuid: String, infos: Vec<usize> }

fn packs(v: &Victim) -> Vec<PackIn> {
    let mut out = vec![];
    for (f, (_, b)) in v.made.files.iter().enumerate() {
        for p in indep::packs(b).unwrap() {
            if p.head.kind == b'C' { continue }
            let start = p.start as usize;
            let infos = if p.head.kind == b'm' {
                indep::manifest(&b[start..start + p.head.size as usize]).unwrap().infos.iter().map(|i| start + i.at as usize).collect()
            } else { vec![] };
            out.push(PackIn { file: f, start, check: start + p.head.check_pos as usize, kind: p.head.kind, uuid: indep::hex(&p.head.uuid), infos });
        }
    }
    out
}

/// The keys of the checks that cover the pack.
fn keys(v: &Victim, p: &PackIn) -> Vec<String> {
    let mut k = vec!["#check".to_string()];
    // the packs found in the entry point are also those of its own check
    if p.file == v.made.files.iter().position(|f| f.0 == "c.jbk").unwrap() { k.push("m#container_check".into()); }
    match p.kind {
        b'm' => k.push("m#check".into()),
        b'd' => k.push("dir#check".into()),
        _ => {
            let mine = v.base.iter().find(|(key, o)| key.starts_with('p') && key.ends_with("/uuid") && **o == Obs::Str(p.uuid.clone()));
            k.push(format!("{}#check", mine.expect("the pack is in the container").0.trim_end_matches("/uuid")));
        }
    }
    k
}

fn checks(v: &Victim, main: &Path) -> Result<Dump, String> {
    let mut o = opts(&v.made, false);
    o.indexes = &[];
    o.cap = 0;
    o.ixcount = Some(0);
    guard(|| {
        let mut d = dump::observe(main, &o);
        d.extend(dump::observe_manifest(main, true));
        d
    })
}

fn judge(v: &Victim, main: &Path, p: &PackIn, repaired: bool, cx: &Cx) -> Result<(), String> {
    let Ok(d) = checks(v, main) else { cx.note("panic", 1); return Ok(()) };
    let lost = d.values().any(|o| matches!(o, Obs::Missing(_)));
    let mut noticed = false;
    for k in keys(v, p) {
        match d.get(&k) {
            Some(Obs::Bool(true)) if repaired && lost && k.starts_with('#') => {}
            Some(Obs::Bool(true)) => return Err(format!("{k} succeeds on the altered file")),
            Some(Obs::Bool(false)) => noticed = true,
            _ => {}
        }
    }
    if noticed { cx.nontrivial(1); }
    Ok(())
}

/// (file, position) of every byte that must be noticed, with its pack
fn covered(v: &Victim) -> Vec<(usize, usize, usize)> {
    let mut out = vec![];
    for (k, p) in packs(v).iter().enumerate() {
        for at in p.start..p.check + 37 {
            if p.infos.iter().any(|i| (i + 38..i + 256).contains(&at)) { continue }
            out.push((k, p.file, at));
        }
    }
    out
}

struct Set { alts: Vec<(usize, Alt, bool)> }

/// Recomputes the CRC of the block the byte is in; None: it is in no block.
fn repair(b: &mut [u8], blocks: &[(usize, usize)], at: usize) -> Option<()> {
    let (o, n) = *blocks.iter().find(|(o, n)| (*o..o + n).contains(&at))?;
    let c = indep::crc(&b[o..o + n]).to_be_bytes();
    b[o + n..o + n + 4].copy_from_slice(&c);
    Some(())
}

fn alter(name: &str, v: Arc<Victim>, masks: &[u8], step: usize, ranges: &[(usize, usize)]) -> Space {
    let ps = Arc::new(packs(&v));
    let blocks: Vec<Vec<(usize, usize)>> = v.made.files.iter().map(|f| indep::blocks(&f.1).unwrap()).collect();
    let cov = covered(&v);
    let mut s = Set { alts: vec![] };
    for (k, f, at) in cov.iter().copied().step_by(step) {
        let p = &ps[k];
        for m in masks {
            let a = Alt { file: f as u16, at: at as u32, op: Op::Xor(*m) };
            s.alts.push((k, a, false));
            // the check kind would become "no check"
            if at != p.check && blocks[f].iter().any(|(o, n)| (*o..o + n).contains(&at)) { s.alts.push((k, a, true)); }
        }
    }
    for &(len, stride) in ranges {
        for (k, f, at) in cov.iter().copied().step_by(stride) {
            if at + len > v.made.files[f].1.len() { continue }
            for x in [Fill::Zero, Fill::Text, Fill::Reverse, Fill::Next] { s.alts.push((k, Alt { file: f as u16, at: at as u32, op: Op::Fill(len as u32, x) }, false)); }
        }
    }
    let s = Arc::new(s);
    let (s2, v2) = (Arc::clone(&s), Arc::clone(&v));
    Space::new(&format!("{name}/{}", v.name), s.alts.len() as u64, move |i, cx| {
        let (k, a, rep) = &s.alts[i as usize];
        let p = &ps[*k];
        let Some(mut b) = a.apply(&v.made.files[p.file].1) else { return Ok(()) };
        if let Op::Fill(n, _) = a.op {
            // something covered has to change
            let was = &v.made.files[p.file].1;
            if !(a.at as usize..a.at as usize + n as usize).any(|x| b[x] != was[x] && x < p.check + 37 && !p.infos.iter().any(|i| (i + 38..i + 256).contains(&x))) { return Ok(()) }
        }
        if *rep { repair(&mut b, &blocks[p.file], a.at as usize); }
        cx.evals(1);
        let main = v.place(cx.dir, p.file, &b);
        judge(&v, &main, p, *rep, cx)
    }).desc(move |i| format!("{}{}", v2.describe(&s2.alts[i as usize].1), if s2.alts[i as usize].2 { ", its CRC recomputed" } else { "" })).horizon(20)
}

/// Everything that can be created passes: checks of each pack, of the container, of what tools open.
fn pristine(s: &ContainerSpec, cx: &Cx) -> Result<(), String> {
    clean(cx.dir);
    let b = build::create(s, cx.dir, "c.jbk").map_err(|e| format!("creation fails: {e}"))?;
    cx.evals(1);
    let mut d = dump::observe(&b.main, &dump::Opts { check: true, max_pack: 1 + s.extra.len() as u16, cap: 0, ixcount: Some(0), ..Default::default() });
    d.extend(dump::observe_manifest(&b.main, true));
    let mut n = 0;
    for (k, o) in &d {
        if k.contains('#') { n += 1; if *o != Obs::Bool(true) { return Err(format!("{k} is {}", o.brief())) } }
        if o.is_err() && !k.ends_with("/checkinfo") { return Err(format!("{k} is {}", o.brief())) }
    }
    // container, directory, manifest, container of the manifest, one per content pack
    if n != 4 + 1 + s.extra.len() { return Err(format!("only {n} checks were possible: {:?}", d.keys().filter(|k| k.contains('#')).collect::<Vec<_>>())) }
    // and by the independent decoder, which verifies each blake3
    for f in files(cx.dir) {
        let bytes = read(&f);
        for p in indep::packs(&bytes).map_err(|e| format!("{}: {e}", f.display()))? {
            if p.head.kind != b'C' { indep::checked(&bytes[p.start as usize..(p.start + p.head.size) as usize], &p.head)?; }
        }
        let o = jubako::tools::open_pack(&f).map_err(|e| format!("{}: {e}", f.display()))?;
        if !o.check().map_err(|e| format!("{}: {e}", f.display()))? { return Err(format!("{} does not pass its check", f.display())) }
    }
    cx.nontrivial(1);
    clean(cx.dir);
    Ok(())
}

/// A pack of more than 4 GiB, altered on both sides of the 32 bits limits, alone and in its container.
fn giant(t: bool) -> Space {
    use jubako::creator::{self, ContentAdder};
    use jubako::Pack;
    const LEN: u64 = (1 << 32) + 70_000;
    // from the start of the pack
    let mut at: Vec<i64> = vec![128, 1 << 31, (1 << 32) - 1, (1 << 32) + 3];
    if t { at.extend([127 + (1 << 20), (1 << 24) + 5, (1 << 31) - 1, (1 << 32) - 70, 1 << 32, (1 << 32) + 65_536, -64 - 37 - 1, -64 - 36]) }
    let label = format!("{at:?}");
    Space::new("giant", 1, move |_, cx| {
        clean(cx.dir);
        if super::c01::room(cx.dir) < 3 * LEN { cx.note("no room", 1); return Ok(()) }
        let r = (|| {
            use std::os::unix::fs::FileExt;
            let er = |e: &dyn std::fmt::Display| format!("creation fails: {e}");
            let path = |n: &str| camino::Utf8PathBuf::from_path_buf(cx.dir.join(n)).unwrap();
            let f = std::fs::File::create(path("src")).map_err(|e| er(&e))?;
            f.set_len(LEN).map_err(|e| er(&e))?;
            let mut c = creator::BasicCreator::new(path("c.jbk"), creator::ConcatMode::OneFile, build::vendor(), creator::Compression::None, Arc::new(())).map_err(|e| er(&e))?;
            ContentAdder::add_content(&mut c, Box::new(creator::InputFile::open(path("src")).map_err(|e| er(&e))?), creator::CompHint::No).map_err(|e| er(&e))?;
            c.finalize(Box::new(build::FinalDir(build::build_dir(&simple_dir(1)), Default::default())), vec![]).map_err(|e| er(&e))?;
            std::fs::remove_file(path("src")).map_err(|e| er(&e))?;
            let check = |whole: bool| -> Result<bool, String> {
                let er = |e: &dyn std::fmt::Debug| format!("opening: {e:?}");
                let c = jubako::reader::Container::new(path("c.jbk")).map_err(|e| er(&e))?;
                if whole { return c.check().map_err(|e| er(&e)) }
                match c.get_pack(1.into()).map_err(|e| er(&e))? {
                    Some(jubako::reader::MayMissPack::FOUND(p)) => p.check().map_err(|e| er(&e)),
                    _ => Err("no pack".into()),
                }
            };
            if !check(true)? { return Err("as created: the check fails".into()) }
            let f = std::fs::OpenOptions::new().read(true).write(true).open(path("c.jbk")).map_err(|e| er(&e))?;
            let mut h = [0u8; 64];
            f.read_exact_at(&mut h, 128).map_err(|e| er(&e))?;
            let size = u64::from_le_bytes(h[32..40].try_into().unwrap());
            if size < LEN { return Err(format!("the pack says it has {size} bytes")) }
            for (k, p) in at.iter().enumerate() {
                let p = 128 + if *p < 0 { size.wrapping_add(*p as u64) } else { *p as u64 };
                let mut b = [0u8];
                f.read_exact_at(&mut b, p).map_err(|e| er(&e))?;
                f.write_all_at(&[b[0] ^ 0x10], p).map_err(|e| er(&e))?;
                let whole = k % 2 == 0;
                let c = check(whole);
                f.write_all_at(&b, p).map_err(|e| er(&e))?;
                cx.evals(1);
                cx.transitions(1);
                if c == Ok(true) { return Err(format!("byte {p} of {size} altered: the check of the {} succeeds", if whole { "container" } else { "pack" })) }
                if c == Ok(false) { cx.nontrivial(1) }
            }
            Ok(())
        })();
        clean(cx.dir);
        cx.states(1);
        cx.traces(1);
        cx.outcome("giant");
        r
    })
    .desc(move |_| format!("bytes {label} of the pack"))
    .horizon(600)
}

fn spaces(tier: Tier, dir: &Path) -> Vec<Space> {
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let comps = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
    let modes = [Mode::One, Mode::Two, Mode::No];
    // --- created containers
    let lens: Vec<usize> = if t { (0..=70).chain([127, 128, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131072, 200_000, 1 << 20, (1 << 22) - 1, (1 << 22) + 1]).collect() }
        else { vec![0, 1, 2, 3, 7, 63, 64, 65, 255, 1023, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 200_000, 1 << 20] };
    let hints = [Hint::Yes, Hint::No];
    let radix = [lens.len() as u64, 4, 3, 2, 3];
    let n = radix.iter().product();
    let spec = move |i: u64| {
        let d = mixed(i, &radix);
        let mut s = kit::container(comps[d[1] as usize], modes[d[2] as usize], d[4] as usize, (i % 4) as u32);
        s.contents.push(ct(1 + d[3] as u8, lens[d[0] as usize], i, hints[d[3] as usize], if d[0] % 2 == 0 { Src::Mem } else { Src::File }));
        s
    };
    let spec2 = spec.clone();
    out.push(Space::new("created", n, move |i, cx| pristine(&spec(i), cx)).desc(move |i| brief(&spec2(i))));
    // directories of many sizes, many packs in the manifest
    let sizes: Vec<u32> = if t { (0..64).chain([100, 255, 256, 257, 1000, 5000, 70_000]).collect() } else { vec![0, 1, 2, 3, 5, 8, 60, 255, 256, 1000, 5000] };
    let s2 = sizes.clone();
    let dirspec = move |i: u64| kit::container(Comp::None, modes[(i % 3) as usize], 0, s2[(i / 3) as usize]);
    out.push(Space::new("created-entries", sizes.len() as u64 * 3, move |i, cx| pristine(&dirspec(i), cx)).desc(move |i| format!("{} entries", sizes[(i / 3) as usize])));
    let counts: Vec<usize> = if t { (0..40).chain([61, 62, 63, 64, 100, 128, 250, 255, 256, 257, 300]).collect() } else { vec![0, 1, 2, 5, 13, 14, 15, 29, 30, 31, 60, 61, 62, 63, 64, 255] };
    let c2 = counts.clone();
    out.push(Space::new("created-packs", counts.len() as u64 * 3, move |i, cx| {
        let mut s = kit::container(Comp::None, modes[(i % 3) as usize], 0, 1);
        s.extra = (0..c2[(i / 3) as usize]).map(|k| (Comp::None, vec![ct(2, k % 9, k as u64, Hint::No, Src::Mem)])).collect();
        pristine(&s, cx)
    }).desc(move |i| format!("{} more packs, {:?}", counts[(i / 3) as usize], modes[(i % 3) as usize])));
    out.push(giant(t));
    // --- alterations
    let all = all_masks();
    let masks: &[u8] = if t { &all } else { &BITS };
    for (k, c) in comps.iter().enumerate() {
        for m in modes {
            let v = Victim::new(dir, &format!("{m:?}-{k}"), &kit::container(*c, m, 1, 3));
            out.push(alter("alter", v, masks, 1, if t { &[(2, 1), (3, 1), (8, 1), (64, 1), (300, 3)] } else { &[(2, 1), (8, 3), (64, 7), (300, 41)] }));
        }
    }
    // long packs: the check reads by blocks
    let mut s = kit::container(Comp::None, Mode::One, 0, 40);
    s.contents = vec![ct(1, if t { 300_000 } else { 140_000 }, 1, Hint::No, Src::Mem), ct(1, 70_000, 2, Hint::Yes, Src::Mem)];
    out.push(alter("alter", Victim::new(dir, "long", &s), &[1, 128], if t { 1 } else { 13 }, &[(1000, 997)]));
    // a manifest of many packs
    let mut s = kit::container(Comp::None, Mode::One, 0, 1);
    s.extra = (0..if t { 70 } else { 33 }).map(|k| (Comp::None, vec![ct(2, 3, k as u64, Hint::No, Src::Mem)])).collect();
    let v = Victim::new(dir, "many", &s);
    out.push(alter("alter", v, &[1], if t { 1 } else { 3 }, &[]));
    out
}
