//! C10: a container reads the same however its packs are packaged.

use super::kit::{self, Made};
use super::util::*;
use crate::dump;
use crate::infra::*;
use crate::spec::*;
use std::path::{Path, PathBuf};

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "a state is a set of files holding the packs of one logical container, a transition a packaging step (create in a mode, concatenate an ordered subset of the files, embed behind a prefix, move or replace the files left over); every combination in the bounds is run with the real tools and read with the real reader, and the whole dump compared with the reference model",
        assumptions: vec!["a prefix is not itself a Jubako file (a file that starts with a valid pack is that pack)"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

const COMPS: [Comp; 4] = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
const MODES: [Mode; 3] = [Mode::One, Mode::Two, Mode::No];

fn prefixes(t: Tier) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    let lens: &[usize] = if t == Tier::Quick { &[1, 59, 60, 63, 64, 65, 4096, 70_001] } else { &[1, 2, 3, 4, 59, 60, 61, 63, 64, 65, 127, 128, 129, 1023, 1024, 4095, 4096, 4097, 65_535, 65_536, 70_001, 1 << 20] };
    for l in lens { v.push(bytes(2, *l, 99)); v.push(vec![0; *l]); }
    v.push(b"\x7fELF this is a program".to_vec());
    // things that look like the beginning of a pack
    for m in [&b"jbkC"[..], b"jbkm", b"jbkcveri", b"jbkC\0\0\0\0\0\x02", b"jbkz", b"jbkm\0\0\0\0\x07\x07"] {
        for l in [m.len(), 64, 200] { let mut x = m.to_vec(); x.resize(l, 0); v.push(x); }
    }
    v
}

fn judge(m: &Made, main: &Path, what: &str) -> Result<Dump, String> {
    let got = dump::observe(main, &m.opts());
    disagree_contents(&m.want, &got).map_err(|e| format!("{what}: {e}"))?;
    for (k, v) in &got { if k.ends_with("#check") && *v != Obs::Bool(true) { return Err(format!("{what}: {k} says {v:?}")); } }
    Ok(got)
}

/// everything that must not depend on the packaging of the very same packs
fn same_packs(a: &Dump, b: &Dump, what: &str) -> Result<(), String> {
    match diff(a, b, |_| true) { None => Ok(()), Some(d) => Err(format!("{what}: {d}")) }
}

fn count(cx: &Cx, key: String) { cx.states(1); cx.transitions(1); cx.traces(1); cx.sample(|| key.clone()); cx.outcome(&key); }

/// modes x compressions x extra packs x prefix x size of the directory
fn modes(t: Tier) -> Space {
    let pf = prefixes(t);
    let np = pf.len() as u64;
    let radix = [4, 3, 4, 2, np];
    let n = radix.iter().product();
    Space::new("modes", n, move |i, cx| {
        let d = mixed(i, &radix);
        let s = kit::container(COMPS[d[0] as usize], MODES[d[1] as usize], d[2] as usize, [0, 5][d[3] as usize]);
        clean(cx.dir);
        let m = kit::make(cx.dir, "x", &s);
        let p = &pf[d[4] as usize];
        let a = judge(&m, &m.main, "as created")?;
        if !p.is_empty() {
            // every file of the set may have something in front
            let full = (1u32 << m.files.len()) - 1;
            for mask in 1..=full {
                for (k, (n, b)) in m.files.iter().enumerate() {
                    let mut v = if mask >> k & 1 == 1 { p.clone() } else { vec![] };
                    v.extend(b);
                    std::fs::write(m.dir.join(n), v).unwrap();
                }
                let b = judge(&m, &m.main, &format!("files {mask:b} embedded behind {} bytes", p.len()))?;
                same_packs(&a, &b, "embedded")?;
                count(cx, format!("{d:?} {mask}"));
            }
        }
        count(cx, format!("{d:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| format!("{:?} (comp, mode, extra packs, entries, prefix)", mixed(i, &radix)))
}

/// The same behind (sparse) prefixes beyond 32 bits.
fn far(root: &Path, t: Tier) -> Space {
    let mut made = vec![];
    for (k, c) in COMPS.iter().enumerate() { for (j, m) in MODES.into_iter().enumerate() { made.push(kit::make(root, &format!("f{k}{j}"), &kit::container(*c, m, 1, 3))); } }
    for (j, m) in MODES.into_iter().enumerate() { made.push(kit::make(root, &format!("fs{j}"), &kit::big_stores(m))); }
    made.push(kit::make(root, "fl", &super::damage::large(Comp::Zstd(1), Mode::One, 14_000)));
    made.push(kit::make(root, "fr", &super::damage::large(Comp::None, Mode::Two, 14_000)));
    let mut at: Vec<u64> = vec![(1 << 31) - 70, 1 << 31, (1 << 32) - 4096, (1 << 32) - 65, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4095, 1 << 36];
    if t == Tier::Thorough { at.extend((0..64).map(|k| (1u64 << 32) - 6000 + 97 * k)); at.extend([1 << 24, 1 << 33, 1 << 40, (1 << 40) + 77]); }
    let n = at.len() as u64;
    let at2 = at.clone();
    Space::new("far", n * made.len() as u64, move |i, cx| {
        let (m, at) = (&made[(i / n) as usize], at[(i % n) as usize]);
        clean(cx.dir);
        let main = cx.dir.join(m.main.file_name().unwrap());
        for (n, b) in &m.files {
            use std::os::unix::fs::FileExt;
            let f = std::fs::File::create(cx.dir.join(n)).map_err(|e| e.to_string())?;
            if f.set_len(at + b.len() as u64).is_err() { cx.note("no such long file", 1); return Ok(()) }
            f.write_all_at(b, at).map_err(|e| e.to_string())?;
        }
        judge(m, &main, &format!("behind {at} bytes"))?;
        count(cx, format!("{i}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| format!("container {} behind {} bytes", i / n, at2[(i % n) as usize]))
}

/// concatenation of every ordered subset that holds the manifest; the files taken are then removed, kept,
/// or replaced by something else (identity comes first)
fn concats(root: &Path, t: Tier) -> Space {
    let mut made = vec![];
    let comps: &[usize] = if t == Tier::Quick { &[0, 3] } else { &[0, 1, 2, 3] };
    for c in comps { for mode in [Mode::Two, Mode::No] { for extra in 0..=(if t == Tier::Quick { 2 } else { 3 }) {
        if mode == Mode::No && extra > 2 { continue }
        made.push(kit::make(root, &format!("{c}-{mode:?}-{extra}"), &kit::container(COMPS[*c], mode, extra, 4)));
    } } }
    for mode in [Mode::Two, Mode::No] {
        made.push(kit::make(root, &format!("stores-{mode:?}"), &kit::big_stores(mode)));
        // more than any buffer holds
        made.push(kit::make(root, &format!("large-{mode:?}"), &super::damage::large(Comp::None, mode, 3_000_000)));
        made.push(kit::make(root, &format!("larger-{mode:?}"), &super::damage::large(Comp::Lz4(1), mode, 300_000)));
    }
    // another container of the same shape, for the poisoned files
    let other = kit::make(root, "other", &kit::container(Comp::None, Mode::No, 3, 2));
    let mut cases = vec![];
    for (k, m) in made.iter().enumerate() {
        let n = m.files.len();
        for p in kit::permutations(n) {
            // each prefix of the permutation that contains the entry point
            for l in 1..=n {
                let order = p[..l].to_vec();
                let mut rest = p[l..].to_vec();
                rest.sort();
                if p[l..] != rest[..] { continue }
                if !order.iter().any(|x| m.files[*x].0 == "c.jbk") { continue }
                for fate in 0..4 { cases.push((k, order.clone(), fate)); }
            }
        }
    }
    Space::new("concatenations", cases.len() as u64, move |i, cx| {
        let (k, order, fate) = &cases[i as usize];
        let m = &made[*k];
        clean(cx.dir);
        let main = m.install(cx.dir);
        let a = judge(m, &main, "as created")?;
        let ins: Vec<PathBuf> = order.iter().map(|x| cx.dir.join(&m.files[*x].0)).collect();
        let out = cx.dir.join("joined.jbk");
        jubako::tools::concat(&ins, camino::Utf8Path::from_path(&out).unwrap()).map_err(|e| format!("concat: {e}"))?;
        for x in &ins {
            match fate {
                0 => {}
                1 => std::fs::remove_file(x).unwrap(),
                2 => std::fs::write(x, b"this is not a Jubako file, and long enough to hold a pack header: 0123456789").unwrap(),
                // a valid pack of another container at the recorded location
                _ => std::fs::write(x, &other.files.iter().find(|f| f.0.ends_with("jbkd")).unwrap().1).unwrap(),
            }
        }
        let what = format!("joined {:?}, fate {fate}", ins.iter().map(|p| p.file_name().unwrap().to_str().unwrap()).collect::<Vec<_>>());
        let b = judge(m, &out, &what)?;
        same_packs(&a, &b, &what)?;
        // embedded at the end of another file
        let mut v = bytes(2, 777, 1);
        v.extend(read(&out));
        let emb = cx.dir.join("embedded.bin");
        std::fs::write(&emb, v).unwrap();
        let b = judge(m, &emb, &format!("{what}, embedded"))?;
        same_packs(&a, &b, &format!("{what}, embedded"))?;
        count(cx, format!("{i}"));
        cx.transitions(2);
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// concatenations of concatenations, in every grouping of the files in two groups and every order
fn nested(root: &Path) -> Space {
    let m = kit::make(root, "n", &kit::container(Comp::Zstd(1), Mode::No, 1, 4));
    let perms = kit::permutations(4);
    let mut cases = vec![];
    for p in &perms { for cut in 1..4 { for swap in 0..2 { for emb in 0..4 { cases.push((p.clone(), cut, swap, emb)); } } } }
    Space::new("nested-concatenations", cases.len() as u64, move |i, cx| {
        let (p, cut, swap, emb) = &cases[i as usize];
        clean(cx.dir);
        m.install(cx.dir);
        let join = |ins: &[PathBuf], out: &str, prefix: bool| -> Result<PathBuf, String> {
            let o = cx.dir.join(out);
            jubako::tools::concat(ins, camino::Utf8Path::from_path(&o).unwrap()).map_err(|e| format!("concat: {e}"))?;
            for x in ins { std::fs::remove_file(x).unwrap(); }
            if prefix { let mut v = bytes(2, 333, 1); v.extend(read(&o)); std::fs::write(&o, v).unwrap(); }
            Ok(o)
        };
        let at = |r: &[usize]| r.iter().map(|x| cx.dir.join(&m.files[*x].0)).collect::<Vec<_>>();
        let a = join(&at(&p[..*cut]), "a", emb & 1 == 1)?;
        let b = join(&at(&p[*cut..]), "b", emb & 2 == 2)?;
        let all = join(&if *swap == 1 { [b, a] } else { [a, b] }, "all.jbk", false)?;
        judge(&m, &all, "joined twice")?;
        count(cx, format!("{i}"));
        cx.transitions(3);
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// the set of files moved elsewhere, opened by an absolute, a relative-looking and a symbolic path; and
/// the locations that point into directories
fn places(root: &Path) -> Space {
    let made: Vec<Made> = MODES.iter().map(|m| kit::make(root, &format!("p{m:?}"), &kit::container(Comp::Lz4(1), *m, 2, 4))).collect();
    let radix = [3u64, 3, 2, 2];
    Space::new("places", radix.iter().product(), move |i, cx| {
        let d = mixed(i, &radix);
        let m = &made[d[0] as usize];
        clean(cx.dir);
        let home = cx.dir.join(["flat", "a/b/c", "with space/é"][d[1] as usize]);
        std::fs::create_dir_all(&home).unwrap();
        let mut main = m.install(&home);
        if d[2] == 1 {
            // extra packs one directory below, the locations rewritten
            std::fs::create_dir_all(home.join("sub")).unwrap();
            for (n, _) in &m.files {
                if !n.ends_with(".jbkc") { continue }
                let uuids: Vec<uuid::Uuid> = jubako::tools::open_pack(home.join(n)).map_err(|e| e.to_string())?.iter().map(|x| *x.0).collect();
                for u in uuids { jubako::tools::set_location(&main, u, format!("sub/{n}").as_str().into()).map_err(|e| e.to_string())?; }
                std::fs::rename(home.join(n), home.join("sub").join(n)).unwrap();
            }
        }
        if d[3] == 1 { main = home.join("..").join(home.file_name().unwrap()).join("c.jbk"); }
        judge(m, &main, "moved")?;
        count(cx, format!("{d:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| format!("{:?} (mode, place, in a sub directory, path)", mixed(i, &radix)))
}

/// A content that puts the packs which follow it beyond 32 bits.
fn giant(t: Tier) -> Space {
    use crate::build;
    use jubako::creator::{self, ContentAdder};
    const LEN: u64 = (1 << 32) + 5;
    // how it is packaged first, then the order the files are joined in
    let mut cases: Vec<(Mode, &[&str])> = vec![(Mode::One, &[]), (Mode::No, &["c.jbkc", "c.jbk", "x.jbkc", "c..jbkd"])];
    if t == Tier::Thorough {
        cases.extend([(Mode::Two, &[][..]), (Mode::No, &[]), (Mode::No, &["c.jbk", "c..jbkd", "x.jbkc", "c.jbkc"]), (Mode::No, &["x.jbkc", "c..jbkd", "c.jbkc", "c.jbk"]),
            (Mode::Two, &["c.jbkc", "c.jbk"]), (Mode::Two, &["c.jbk", "c.jbkc", "x.jbkc"]), (Mode::One, &["c.jbk"]), (Mode::One, &["x.jbkc", "c.jbk"])]);
    }
    let cases2 = cases.clone();
    Space::new("giant", cases.len() as u64, move |i, cx| {
        let (mode, join) = cases[i as usize];
        clean(cx.dir);
        if super::c01::room(cx.dir) < 4 * LEN { cx.note("no room", 1); return Ok(()) }
        let r = (|| {
            let er = |e: &dyn std::fmt::Display| format!("creation fails: {e}");
            let path = |n: &str| camino::Utf8PathBuf::from_path_buf(cx.dir.join(n)).unwrap();
            let marks: Vec<(u64, [u8; 4])> = [0, 4090, (1 << 31) - 2, LEN - 4].iter().map(|p| (*p, [(*p >> 3) as u8 ^ 0x5a, 1, 2, *p as u8])).collect();
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(path("src")).map_err(|e| er(&e))?;
                f.set_len(LEN).map_err(|e| er(&e))?;
                for (p, b) in &marks { f.write_all_at(b, *p).map_err(|e| er(&e))?; }
            }
            let m = match mode { Mode::One => creator::ConcatMode::OneFile, Mode::Two => creator::ConcatMode::TwoFiles, Mode::No => creator::ConcatMode::NoConcat };
            let mut c = creator::BasicCreator::new(path("c.jbk"), m, build::vendor(), build::compression(Comp::Zstd(1)), std::sync::Arc::new(())).map_err(|e| er(&e))?;
            let small: Vec<Vec<u8>> = (0..4).map(|k| bytes(2, 900 + k, k as u64)).collect();
            let mem = |k: usize| Box::new(std::io::Cursor::new(small[k].clone()));
            c.add_content(mem(0), creator::CompHint::Yes).map_err(|e| er(&e))?;
            ContentAdder::add_content(&mut c, Box::new(creator::InputFile::open(path("src")).map_err(|e| er(&e))?), creator::CompHint::No).map_err(|e| er(&e))?;
            c.add_content(mem(1), creator::CompHint::No).map_err(|e| er(&e))?;
            c.add_content(mem(2), creator::CompHint::Yes).map_err(|e| er(&e))?;
            let f: Box<dyn creator::PackRecipient> = creator::AtomicOutFile::new(path("x.jbkc")).map_err(|e| er(&e))?;
            let mut x = creator::ContentPackCreator::new_from_output(f, jubako::PackId::from(2), build::vendor(), Default::default(), creator::Compression::None).map_err(|e| er(&e))?;
            x.add_content(mem(3), creator::CompHint::No).map_err(|e| er(&e))?;
            let db = build::build_dir(&simple_dir(3));
            c.finalize(Box::new(build::FinalDir(db, Default::default())), vec![x]).map_err(|e| er(&e))?;
            std::fs::remove_file(path("src")).map_err(|e| er(&e))?;
            cx.transitions(1);
            let look = |main: &str| {
                let what = |e: &dyn std::fmt::Debug| format!("{main}: {e:?}");
                let c = jubako::reader::Container::new(path(main)).map_err(|e| what(&e))?;
                if !c.check().map_err(|e| what(&e))? { return Err(format!("{main}: its check fails")) }
                let get = |p: u16, k: u32| match c.get_bytes(jubako::ContentAddress::new(p.into(), k.into())) {
                    Ok(Some(jubako::reader::MayMissPack::FOUND(Some(r)))) => Ok(r),
                    o => Err(format!("{main}: content {k} of pack {p}: {:?}", o.map(|x| x.is_some()))),
                };
                for (p, k, s) in [(1, 0, 0), (1, 2, 1), (1, 3, 2), (2, 0, 3)] {
                    let r = get(p, k)?;
                    if r.size().into_u64() != small[s].len() as u64 || r.get_slice(0u64.into(), small[s].len()).map_err(|e| what(&e))?[..] != small[s][..] { return Err(format!("{main}: content {k} of pack {p} differs")) }
                }
                let r = get(1, 1)?;
                if r.size().into_u64() != LEN { return Err(format!("{main}: the giant has {} bytes", r.size().into_u64())) }
                for (p, b) in &marks { if r.get_slice((*p).into(), 4).map_err(|e| what(&e))?[..] != b[..] { return Err(format!("{main}: the giant differs at {p}")) } }
                for k in 0..3u32 {
                    let ix = c.get_index_for_name("main").map_err(|e| what(&e))?.ok_or(format!("{main}: no index"))?;
                    let b = jubako::reader::builder::AnyBuilder::new(ix.get_store(c.get_entry_storage()).map_err(|e| what(&e))?, c.get_value_storage().as_ref()).map_err(|e| what(&e))?;
                    use jubako::reader::Range;
                    if ix.get_entry(&b, k.into()).map_err(|e| what(&e))?.is_none() { return Err(format!("{main}: no entry {k}")) }
                }
                Ok(())
            };
            look("c.jbk")?;
            if !join.is_empty() {
                let ins: Vec<_> = join.iter().map(|n| cx.dir.join(n)).collect();
                jubako::tools::concat(&ins, path("joined")).map_err(|e| format!("concat: {e}"))?;
                for p in &ins { std::fs::remove_file(p).map_err(|e| er(&e))?; }
                cx.transitions(1);
                look("joined")?;
            }
            Ok(())
        })();
        clean(cx.dir);
        count(cx, format!("{i}"));
        r
    })
    .desc(move |i| format!("{:?}", cases2[i as usize]))
    .horizon(400)
    .threads(1)
}

/// What the entry point is called: with each extension the creator gives to the files beside it, none, several.
const NAMES: [&str; 18] = ["c", "c.jbk", "c.jbkc", "c.jbkd", "c.jbkm", "c..jbkd", "c..jbkc", "c.jbkc.jbkc", ".c", ".jbkc", ".jbkd", "c.", "c..", "c.tar.jbk", "with space.jbk", "h\u{e9}t\u{e9}ro.\u{fc}", "c.jbk.x0.jbkc", "C.JBKC"];

fn names() -> Space {
    let n = NAMES.len() as u64;
    let radix = [n, 3, 4, 2];
    Space::new("names", radix.iter().product(), move |i, cx| {
        let d = mixed(i, &radix);
        let (name, mode, extra, over) = (NAMES[d[0] as usize], MODES[d[1] as usize], d[2] as usize & 1, d[2] >= 2);
        clean(cx.dir);
        let s = kit::container(COMPS[[0, 3][d[3] as usize]], mode, extra, 3);
        // over a previous creation in another mode, or not
        if over { kit::make_as(cx.dir, "x", &kit::container(Comp::Lz4(1), MODES[(d[1] as usize + 1) % 3], 1, 5), name); }
        let m = kit::make_on(cx.dir, "x", &s, name);
        let what = format!("{name:?} in mode {mode:?}");
        let a = judge(&m, &m.main, &what)?;
        // joined in both orders, read at another place
        for back in [false, true] {
            // what the previous creation left takes no part
            let mut ins: Vec<PathBuf> = if over { vec![m.main.clone()] } else { m.files.iter().map(|f| m.dir.join(&f.0)).collect() };
            if back { ins.reverse(); }
            let out = cx.dir.join("x").join("joined");
            jubako::tools::concat(&ins, camino::Utf8Path::from_path(&out).unwrap()).map_err(|e| format!("concat: {e}"))?;
            same_packs(&a, &judge(&m, &out, &format!("{what}, joined"))?, "joined")?;
        }
        count(cx, format!("{d:?}"));
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| { let d = mixed(i, &radix); format!("{:?}, {d:?} (name, mode, extra pack and previous files, compression)", NAMES[d[0] as usize]) })
}

/// the same logical container in every mode and compression reads the same
fn equal(root: &Path) -> Space {
    let mut made = vec![];
    for c in 0..4 { for m in MODES { for extra in 0..3 { for entries in [0u32, 1, 6] { made.push((extra * 3 + entries.min(2) as usize, kit::make(root, &format!("e{c}{m:?}{extra}{entries}"), &kit::container(COMPS[c], m, extra, entries)))); } } } }
    let n = made.len() as u64;
    let logical = |k: &str| !(k.contains("uuid") || k.contains("packsize") || k == "dir/free" || k.contains("location") );
    Space::new("logical-equality", n * n, move |i, cx| {
        let (a, b) = (&made[(i / n) as usize], &made[(i % n) as usize]);
        if a.0 != b.0 { cx.note("different logical containers skipped", 1); return Ok(()); }
        let (da, db) = (dump::observe(&a.1.main, &a.1.opts()), dump::observe(&b.1.main, &b.1.opts()));
        if let Some(d) = diff(&da, &db, logical) { return Err(format!("two packagings of one logical container: {d}")); }
        count(cx, format!("{i}"));
        Ok(())
    })
    .desc(|i| format!("pair {i}"))
}

fn spaces(t: Tier, d: &Path) -> Vec<Space> {
    vec![modes(t), concats(d, t), nested(d), places(d), equal(d), names(), giant(t), far(d, t), super::c11::crowd(d, t, false)]
}
