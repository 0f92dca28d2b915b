//! C12: rewriting a pack location changes only that location.  Model: the file's bytes, in which only the
//! location field and the CRC of one pack-info block may change (positions found by the independent decoder).

use super::util::*;
use crate::build;
use crate::dump;
use crate::indep;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use jubako::creator;
use std::path::{Path, PathBuf};

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "a state is the file, a transition one call of set_location (any listed pack, an unknown one, the manifest or the container itself); all sequences up to the bound over adversarial strings, and every admissible length, are run on real files and the whole file compared with a byte model after each step",
        assumptions: vec!["locations longer than 213 bytes are not admissible and not tried"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

const PREFIXES: [usize; 4] = [0, 1, 64, 5000];

/// A file holding a manifest: bytes before it, the bytes, what is around it.
struct Fixture { name: String, prefix: usize, dir: PathBuf, bytes: Vec<u8>, indexes: Vec<String>, packs: u16 }

fn spec(mode: Mode, extra: usize) -> ContainerSpec {
    let mut s = ContainerSpec::contents_only(Comp::Zstd(1), vec![ct(1, 300, 1, Hint::Yes, Src::Mem), ct(2, 20, 2, Hint::No, Src::Mem)]);
    s.dir = simple_dir(3);
    s.mode = mode;
    for k in 0..extra { s.extra.push((Comp::None, vec![ct(2, 9, 5 + k as u64, Hint::No, Src::Mem)])); }
    s
}

fn embed(bytes: &[u8], prefix: usize) -> Vec<u8> {
    let mut v = bytes_of(prefix);
    v.extend_from_slice(bytes);
    v
}
fn bytes_of(n: usize) -> Vec<u8> { bytes(2, n, 4242) }

/// What is said of a pack to the creator of the manifest.
pub struct Listed { pub uuid: [u8; 16], pub id: u16, pub kind: u8, pub size: u64, pub free: Vec<u8>, pub location: String }

/// A manifest written by hand: `n` content packs with free data and initial locations.
pub fn manual(dir: &Path, n: usize, free: usize, loc: &str) -> Vec<Listed> {
    let (_, _, dpd) = build::create_directory_pack(&simple_dir(2), dir, "d.jbkd").unwrap();
    let mut m = creator::ManifestPackCreator::new(build::vendor(), Default::default());
    let mut dpd = dpd;
    dpd.free_data = bytes(2, free, 1);
    let mut said = vec![];
    let mut say = |p: &creator::PackData, loc: &str| said.push(Listed { uuid: *p.uuid.as_bytes(), id: p.pack_id.into_u16(), kind: p.pack_kind as u8, size: p.pack_size.into_u64(), free: p.free_data.clone(), location: loc.into() });
    say(&dpd, "d.jbkd");
    m.add_pack(dpd, "d.jbkd");
    for k in 0..n {
        let p8 = camino::Utf8PathBuf::from_path_buf(dir.join(format!("x{k}.jbkc"))).unwrap();
        let mut cc = creator::ContentPackCreator::new(&p8, jubako::PackId::from(1 + k as u16), build::vendor(), Default::default(), creator::Compression::None).unwrap();
        cc.add_content(Box::new(std::io::Cursor::new(vec![k as u8; 5])), creator::CompHint::No).unwrap();
        let (_f, mut pd) = cc.finalize().unwrap();
        pd.free_data = bytes(2, if n > 100 { free } else { free * (k % 2) }, 2 + k as u64);
        say(&pd, loc);
        m.add_pack(pd, loc);
    }
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(dir.join("c.jbk")).unwrap();
    m.finalize(&mut f).unwrap();
    said
}

/// Every pack of this manifest in its own group.
fn grouped(b: &mut [u8]) {
    let m = indep::manifest(b).unwrap();
    for (k, i) in m.infos.iter().enumerate() {
        let at = i.at as usize;
        b[at + 35] = [1, 255, 0, 128][k % 4];
        let c = indep::crc(&b[at..at + 252]).to_be_bytes();
        b[at + 252..at + 256].copy_from_slice(&c);
    }
    let check = b.len() - 64 - 37;
    let mut data = b[..check].to_vec();
    for i in &m.infos { data[i.at as usize + 38..i.at as usize + 256].fill(0); }
    b[check + 1..check + 33].copy_from_slice(blake3::hash(&data).as_bytes());
    let c = indep::crc(&b[check..check + 33]).to_be_bytes();
    b[check + 33..check + 37].copy_from_slice(&c);
    let g: Vec<u8> = indep::manifest(b).unwrap().infos.iter().map(|i| i.group).collect();
    assert!(g.iter().any(|g| *g > 1));
}

fn fixtures(root: &Path) -> Vec<Fixture> {
    let mut v = vec![];
    let mut push = |name: String, dir: PathBuf, indexes: Vec<String>, packs: u16| {
        let bytes = read(&dir.join("c.jbk"));
        for prefix in PREFIXES {
            v.push(Fixture { name: format!("{name}+{prefix}"), prefix, dir: dir.clone(), bytes: embed(&bytes, prefix), indexes: indexes.clone(), packs });
        }
    };
    for (mode, extra) in [(Mode::One, 0), (Mode::One, 2), (Mode::Two, 0), (Mode::Two, 1), (Mode::No, 0), (Mode::No, 2)] {
        let name = format!("{mode:?}-{extra}");
        let dir = root.join(&name);
        std::fs::create_dir_all(&dir).unwrap();
        let s = spec(mode, extra);
        build::create(&s, &dir, "c.jbk").unwrap();
        push(name, dir, model::index_names(&s.dir), 2 + extra as u16);
    }
    for (n, free, loc) in [(0, 0, ""), (1, 1, "é"), (3, 300, "x"), (3, 0, LONG)] {
        let name = format!("manual-{n}-{free}");
        let dir = root.join(&name);
        std::fs::create_dir_all(&dir).unwrap();
        manual(&dir, n, free, loc);
        push(name, dir, model::index_names(&simple_dir(2)), 1 + n as u16);
    }
    // packs in groups (the creator leaves all of them in group 0): patched, the checksums recomputed
    {
        let dir = root.join("groups");
        std::fs::create_dir_all(&dir).unwrap();
        manual(&dir, 3, 30, "g");
        let p = dir.join("c.jbk");
        let mut b = read(&p);
        grouped(&mut b);
        std::fs::write(&p, b).unwrap();
        push("groups".into(), dir, model::index_names(&simple_dir(2)), 4);
    }
    // concatenations, the manifest at several places
    for (k, order) in [["c.jbk", "c.jbkc", "c..jbkd"], ["c.jbkc", "c.jbk", "c..jbkd"], ["c..jbkd", "c.jbkc", "c.jbk"]].iter().enumerate() {
        let name = format!("concat-{k}");
        let dir = root.join(&name);
        std::fs::create_dir_all(&dir).unwrap();
        let s = spec(Mode::No, 1);
        build::create(&s, &dir, "c.jbk").unwrap();
        let ins: Vec<PathBuf> = order.iter().map(|f| dir.join(f)).collect();
        let out = camino::Utf8PathBuf::from_path_buf(dir.join("all")).unwrap();
        jubako::tools::concat(&ins, &out).unwrap();
        std::fs::rename(&out, dir.join("c.jbk")).unwrap();
        push(name, dir, model::index_names(&s.dir), 3);
    }
    v
}
pub const LONG: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";

/// Where the manifest starts, and its description.
fn manifest_at(b: &[u8], prefix: usize) -> Result<(u64, indep::Manifest), String> {
    let p = &b[prefix..];
    let ps = indep::packs(p)?;
    let m = ps.iter().find(|p| p.head.kind == b'm').ok_or("no manifest")?;
    Ok((prefix as u64 + m.start, indep::manifest(&p[m.start as usize..(m.start + m.head.size) as usize])?))
}

/// The model of set_location.
fn rewrite(b: &mut [u8], prefix: usize, uuid: [u8; 16], loc: &str) -> Option<(u8, String)> {
    let (start, m) = manifest_at(b, prefix).unwrap();
    let i = m.infos.iter().find(|i| i.uuid == uuid)?;
    let at = (start + i.at) as usize;
    let old = i.location.clone();
    b[at + 38..at + 252].fill(0);
    b[at + 38] = loc.len() as u8;
    b[at + 39..at + 39 + loc.len()].copy_from_slice(loc.as_bytes());
    let c = indep::crc(&b[at..at + 252]).to_be_bytes();
    b[at + 252..at + 256].copy_from_slice(&c);
    Some((i.kind, old))
}

/// uuids one can name: listed packs, then strangers
fn names(f: &Fixture) -> (Vec<[u8; 16]>, Vec<[u8; 16]>) {
    let (_, m) = manifest_at(&f.bytes, f.prefix).unwrap();
    let listed: Vec<[u8; 16]> = m.infos.iter().map(|i| i.uuid).collect();
    let mut other = vec![[0; 16], [0xff; 16]];
    for p in indep::packs(&f.bytes[f.prefix..]).unwrap() { if !listed.contains(&p.head.uuid) { other.push(p.head.uuid) } }
    let mut near = listed[0]; near[15] ^= 1; other.push(near);
    (listed, other)
}

/// One call on the file and the model, everything compared.
fn step(path: &Path, model: &mut Vec<u8>, f: &Fixture, uuid: [u8; 16], loc: &str) -> Result<(), String> {
    let want = rewrite(model, f.prefix, uuid, loc);
    let call = format!("set_location({}, {} bytes {:?})", indep::hex(&uuid), loc.len(), &loc.chars().take(12).collect::<String>());
    let got = jubako::tools::set_location(path, uuid::Uuid::from_bytes(uuid), loc.into()).map_err(|e| format!("{call}: {e}"))?;
    let got = got.map(|(k, old)| (k as u8, old.as_str().to_string()));
    if got != want { return Err(format!("{call} returned {got:?}, expected {want:?}")); }
    let now = read(path);
    if now.len() != model.len() { return Err(format!("{call}: the file has {} bytes instead of {}", now.len(), model.len())); }
    if let Some(p) = (0..now.len()).find(|p| now[*p] != model[*p]) { return Err(format!("{call}: byte {p} is {} instead of {}", now[p], model[p])); }
    Ok(())
}

/// The manifest as the reader sees it, against the original and the model's locations.
fn verify(path: &Path, f: &Fixture, model: &[u8], original: &Dump) -> Result<(), String> {
    let (_, m) = manifest_at(model, f.prefix)?;
    let mut want = original.clone();
    for i in &m.infos { want.insert(format!("m/{}/location", indep::hex(&i.uuid)), Obs::Str(i.location.clone())); }
    let got = dump::observe_manifest(path, true);
    if got.get("m#check") != Some(&Obs::Bool(true)) || got.get("m#container_check") != Some(&Obs::Bool(true)) { return Err(format!("checks: {:?} {:?}", got.get("m#check"), got.get("m#container_check"))); }
    if let Some((k, v)) = got.iter().find(|(k, _)| k.starts_with("m/container/") || k.as_str() == "m/kind") { return Err(format!("{k}: {}", v.brief())); }
    if let Some(d) = diff(&want, &got, |_| true) { return Err(format!("manifest: {d}")); }
    Ok(())
}

fn install(f: &Fixture, cx: &Cx) -> PathBuf {
    clean(cx.dir);
    let p = cx.dir.join("c.jbk");
    std::fs::write(&p, &f.bytes).unwrap();
    p
}

fn utf8(unit: &str, n: usize) -> String {
    let mut s = unit.repeat(n / unit.len());
    while s.len() < n { s.push('z') }
    s
}

/// every length, in characters of 1 to 4 bytes, on every pack; then back
fn lengths(root: &Path) -> Space {
    let fx = fixtures(root);
    let units = ["a", "é", "€", "𝄞"];
    let mut cases = vec![];
    for (k, f) in fx.iter().enumerate() { for p in 0..names(f).0.len() { for u in 0..4 { cases.push((k, p, u)); } } }
    Space::new("every-length", cases.len() as u64, move |i, cx| {
        let (k, p, u) = cases[i as usize];
        let f = &fx[k];
        let path = install(f, cx);
        let mut model = f.bytes.clone();
        let uuid = names(f).0[p];
        let original = dump::observe_manifest(&path, true);
        cx.outcome(&format!("{} pack {p} unit {}", f.name, units[u]));
        cx.sample(|| format!("{} pack {p} unit {}", f.name, units[u]));
        for n in (0..=213).chain((0..213).rev().step_by(13)) {
            step(&path, &mut model, f, uuid, &utf8(units[u], n))?;
            verify(&path, f, &model, &original)?;
            cx.transitions(1);
            cx.states(1);
        }
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// every sequence of rewrites
fn sequences(root: &Path, t: Tier) -> Space {
    let fx = fixtures(root);
    let long = utf8("€", 213);
    let strings: Vec<String> = ["", "b", "dir/ sub/../é\u{0}\n.jbkc", LONG, &long].iter().map(|s| s.to_string()).collect();
    let k = if t == Tier::Quick { 2 } else { 3 };
    let mut cases = vec![];
    for (f, fxt) in fx.iter().enumerate() {
        let (l, o) = names(fxt);
        let a = (l.len() + o.len()) as u64 * strings.len() as u64;
        for s in 0..a.pow(k) { cases.push((f, s, a)); }
    }
    Space::new("sequences", cases.len() as u64, move |i, cx| {
        let (fi, s, a) = cases[i as usize];
        let f = &fx[fi];
        let (mut l, o) = names(f);
        l.extend(o);
        let path = install(f, cx);
        let mut model = f.bytes.clone();
        let original = dump::observe_manifest(&path, true);
        let ops: Vec<(usize, usize)> = mixed(s, &vec![a; k as usize]).iter().map(|x| (*x as usize / strings.len(), *x as usize % strings.len())).collect();
        cx.outcome(&format!("{} {ops:?}", f.name));
        cx.sample(|| format!("{} {ops:?} (pack, string)", f.name));
        for (u, x) in ops {
            step(&path, &mut model, f, l[u], &strings[x])?;
            cx.transitions(1);
            cx.states(1);
        }
        verify(&path, f, &model, &original)?;
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// The packs really are found at their new place: every external pack moved to every kind of name.
fn moves(root: &Path) -> Space {
    let fx: Vec<Fixture> = fixtures(root);
    let n213 = "n".repeat(213);
    let wide = "é".repeat(106);
    let targets: Vec<String> = vec!["moved".into(), "sub/moved.jbkc".into(), "sub/../up".into(), "./here".into(), n213, wide, " sp ace".into(), "@".into()];
    let mut cases = vec![];
    for (k, f) in fx.iter().enumerate() { for p in 0..names(f).0.len() { for t in 0..targets.len() { cases.push((k, p, t)); } } }
    Space::new("moves", cases.len() as u64, move |i, cx| {
        let (k, p, t) = cases[i as usize];
        let f = &fx[k];
        let path = install(f, cx);
        for x in files(&f.dir) { let n = x.file_name().unwrap(); if n != "c.jbk" { std::fs::copy(&x, cx.dir.join(n)).unwrap(); } }
        std::fs::create_dir_all(cx.dir.join("sub")).unwrap();
        let o = dump::Opts { indexes: &f.indexes, check: true, max_pack: f.packs, ..Default::default() };
        let before = dump::observe(&path, &o);
        let (_, m) = manifest_at(&f.bytes, f.prefix)?;
        let info = &m.infos[p];
        cx.outcome(&format!("{} pack {p} to {t}", f.name));
        cx.sample(|| format!("{} pack {p} to {:?}", f.name, targets[t]));
        let mut model = f.bytes.clone();
        let target = if targets[t] == "@" { cx.dir.join("absolute").to_str().unwrap().to_string() } else { targets[t].clone() };
        if target.len() > 213 { clean(cx.dir); return Ok(()); }
        step(&path, &mut model, f, info.uuid, &target)?;
        let file = cx.dir.join(&info.location);
        if !info.location.is_empty() && file.is_file() { std::fs::rename(&file, cx.dir.join(&target)).map_err(|e| e.to_string())?; cx.nontrivial(1); }
        let after = dump::observe(&path, &o);
        // packs that are not there (manifests written by hand with fictive locations) report their new location
        let known = |k: &str| !matches!(before.get(k), Some(Obs::Missing(_)));
        if let Some(d) = diff(&before, &after, known) { return Err(format!("after the move to {target:?}: {d}")); }
        if !matches!(after.get("#check"), Some(Obs::Bool(true))) && before.contains_key("#check") { return Err(format!("check after the move: {:?}", after.get("#check"))); }
        cx.transitions(2);
        cx.states(2);
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    })
    .desc(|i| format!("case {i}"))
}

/// Manifests of many packs, with more free data than one byte numbers: every pack of each, at both ends of the lengths.
fn many(root: &Path, t: Tier) -> Space {
    let mut fx = vec![];
    for (n, free) in if t == Tier::Quick { vec![(15usize, 0usize), (16, 3), (40, 0), (300, 8)] } else { vec![(15, 0), (16, 3), (17, 0), (40, 0), (254, 1), (255, 8), (256, 8), (300, 8), (1000, 2)] } {
        let dir = root.join(format!("many-{n}"));
        std::fs::create_dir_all(&dir).unwrap();
        manual(&dir, n, free, "x");
        for prefix in [0, 77] { fx.push(Fixture { name: format!("many-{n}+{prefix}"), prefix, dir: dir.clone(), bytes: embed(&read(&dir.join("c.jbk")), prefix), indexes: vec![], packs: 0 }); }
    }
    let mut cases = vec![];
    for (k, f) in fx.iter().enumerate() { for p in 0..names(f).0.len() { cases.push((k, p)); } }
    Space::new("many-packs", cases.len() as u64, move |i, cx| {
        let (k, p) = cases[i as usize];
        let f = &fx[k];
        let path = install(f, cx);
        let mut model = f.bytes.clone();
        let (l, o) = names(f);
        let original = dump::observe_manifest(&path, true);
        cx.outcome(&format!("{} pack {p}", f.name));
        for loc in [LONG, "", "y"] {
            step(&path, &mut model, f, l[p], loc)?;
            cx.transitions(1);
            cx.states(1);
        }
        step(&path, &mut model, f, o[0], "nobody")?;
        verify(&path, f, &model, &original)?;
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    }).desc(|i| format!("case {i}"))
}

/// Names that differ from the one of a listed pack by any one bit, and by halves: nothing changes.
fn near(root: &Path) -> Space {
    let fx = fixtures(root);
    let mut cases = vec![];
    for (k, f) in fx.iter().enumerate() { for p in 0..names(f).0.len() { cases.push((k, p)); } }
    Space::new("near-names", cases.len() as u64, move |i, cx| {
        let (k, p) = cases[i as usize];
        let f = &fx[k];
        let path = install(f, cx);
        let mut model = f.bytes.clone();
        let (listed, _) = names(f);
        let mut all = vec![];
        for b in 0..128 { let mut u = listed[p]; u[b / 8] ^= 1 << (b % 8); all.push(u); }
        for r in [0..8, 8..16, 0..4, 12..16, 1..16, 0..15] { let mut u = listed[p]; for x in r { u[x] = !u[x] } all.push(u); }
        let mut u = listed[p]; u.reverse(); all.push(u);
        for (k, u) in all.into_iter().enumerate() {
            if listed.contains(&u) { continue }
            step(&path, &mut model, f, u, ["elsewhere", "", LONG][k % 3])?;
            cx.transitions(1);
        }
        if model != f.bytes { return Err("the model moved".into()) }
        cx.outcome(&format!("{} pack {p}", f.name));
        cx.states(1);
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    }).desc(|i| format!("case {i}"))
}

/// A file in pieces: where each of them is.
type Pieces = Vec<(u64, Vec<u8>)>;

fn seal(b: &mut [u8], at: usize, n: usize) {
    let c = indep::crc(&b[at..at + n]).to_be_bytes();
    b[at + n..at + n + 4].copy_from_slice(&c);
}
fn shift(b: &mut [u8], at: usize, by: u64) {
    let v = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) + by;
    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
}

/// The same container with a hole of `gap` bytes before its manifest.
fn stretch(b: &[u8], gap: u64) -> Option<Pieces> {
    if b[3] != b'C' { return None }
    let ps = indep::packs(b).unwrap();
    let g = ps.iter().find(|p| p.head.kind == b'm')?.start;
    let mut v = b.to_vec();
    let n = v.len();
    shift(&mut v, 32, gap);
    shift(&mut v, 40, gap);
    seal(&mut v, 0, 60);
    let loc = u64::from_le_bytes(v[64..72].try_into().unwrap()) as usize;
    shift(&mut v, 64, gap);
    seal(&mut v, 64, 60);
    for k in 0..ps.len() - 1 {
        let at = loc + 36 * k;
        if u64::from_le_bytes(v[at + 24..at + 32].try_into().unwrap()) >= g { shift(&mut v, at + 24, gap) }
        seal(&mut v, at, 32);
    }
    let mut tail = v[..64].to_vec();
    tail.reverse();
    v[n - 64..].copy_from_slice(&tail);
    Some(vec![(0, v[..g as usize].to_vec()), (g + gap, v[g as usize..].to_vec())])
}

/// The same beyond 32 bits: behind a prefix, or far inside its container.
fn far(root: &Path, t: Tier) -> Space {
    use std::os::unix::fs::{FileExt, MetadataExt};
    let fx: Vec<Fixture> = fixtures(root).into_iter().filter(|f| f.prefix == 0).collect();
    let mut at: Vec<u64> = vec![1 << 31, (1 << 32) - 700, (1 << 32) - 300, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 36];
    if t == Tier::Thorough { at.extend((0..40).map(|k| (1u64 << 32) - 2000 + 53 * k)); at.extend([1 << 24, (1 << 31) - 300, 1 << 33, 1 << 40]); }
    let mut cases = vec![];
    for (k, f) in fx.iter().enumerate() { for a in &at { for inside in [false, true] { if !inside || f.bytes[3] == b'C' { cases.push((k, *a, inside)); } } } }
    let cases2 = cases.clone();
    let names2: Vec<String> = fx.iter().map(|f| f.name.clone()).collect();
    Space::new("far", cases.len() as u64, move |i, cx| {
        let (k, at, inside) = cases[i as usize];
        let f = &fx[k];
        clean(cx.dir);
        let path = cx.dir.join("c.jbk");
        let lay = |b: &[u8]| -> Pieces { if inside { stretch(b, at).unwrap() } else { vec![(at, b.to_vec())] } };
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).map_err(|e| e.to_string())?;
        for (p, b) in lay(&f.bytes) { if file.write_all_at(&b, p).is_err() { cx.note("no such long file", 1); clean(cx.dir); return Ok(()) } }
        let (len, blocks) = { let m = file.metadata().map_err(|e| e.to_string())?; (m.len(), m.blocks()) };
        let original = dump::observe_manifest(&path, true);
        if original.get("m#check") != Some(&Obs::Bool(true)) { return Err(format!("before anything: {:?}", original.get("m#check"))) }
        let (listed, strangers) = names(f);
        let mut model = f.bytes.clone();
        for (k, uuid) in listed.iter().chain(&strangers).chain(&listed).enumerate() {
            let loc = [LONG, "", "é/x", "y"][k % 4];
            let want = rewrite(&mut model, 0, *uuid, loc);
            let call = format!("set_location({}, {} bytes)", indep::hex(uuid), loc.len());
            let got = jubako::tools::set_location(&path, uuid::Uuid::from_bytes(*uuid), loc.into()).map_err(|e| format!("{call}: {e}"))?;
            let got = got.map(|(k, old)| (k as u8, old.as_str().to_string()));
            if got != want { return Err(format!("{call} returned {got:?}, expected {want:?}")) }
            let m = file.metadata().map_err(|e| e.to_string())?;
            if m.len() != len { return Err(format!("{call}: the file has {} bytes instead of {len}", m.len())) }
            // a page that was a hole stays one; in the others every byte is compared
            if m.blocks() != blocks { return Err(format!("{call}: something was written in a hole of the file")) }
            for (p, b) in lay(&model) {
                let from = p & !4095;
                let mut now = vec![0; (((p + b.len() as u64 + 4095) & !4095).min(len) - from) as usize];
                file.read_exact_at(&mut now, from).map_err(|e| e.to_string())?;
                let mut want = vec![0; now.len()];
                want[(p - from) as usize..(p - from) as usize + b.len()].copy_from_slice(&b);
                // (two pieces may share a page)
                for (q, c) in lay(&model) { for (x, v) in c.iter().enumerate() { let y = q + x as u64; if y >= from && y < from + want.len() as u64 { want[(y - from) as usize] = *v } } }
                if let Some(x) = (0..now.len()).find(|x| now[*x] != want[*x]) { return Err(format!("{call}: byte {} is {} instead of {}", from + x as u64, now[x], want[x])) }
            }
            cx.transitions(1);
            cx.states(1);
        }
        let (_, m) = manifest_at(&model, 0)?;
        let mut want = original.clone();
        for i in &m.infos { want.insert(format!("m/{}/location", indep::hex(&i.uuid)), Obs::Str(i.location.clone())); }
        if let Some(d) = diff(&want, &dump::observe_manifest(&path, true), |_| true) { return Err(format!("manifest: {d}")) }
        cx.outcome(&format!("{} {at} {inside}", f.name));
        cx.sample(|| format!("{} {at} {inside}", f.name));
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    }).desc(move |i| { let (k, a, inside) = cases2[i as usize]; format!("{} {} {a} bytes", names2[k], if inside { "with a hole before the manifest of" } else { "behind" }) })
}

/// Files which hold no manifest: there is nothing to rewrite, they stay as they are.
fn bare(root: &Path) -> Space {
    build::create(&spec(Mode::No, 1), root, "c.jbk").unwrap();
    let two = camino::Utf8PathBuf::from_path_buf(root.join("both")).unwrap();
    jubako::tools::concat(&[root.join("c.jbkc"), root.join("c..jbkd")], &two).unwrap();
    let mut cases = vec![];
    for f in ["c.jbkc", "c..jbkd", "both"] { for prefix in PREFIXES { for loc in ["", "b", LONG] { for k in 0..4 { cases.push((root.join(f), prefix, loc, k)); } } } }
    let uuids: Vec<[u8; 16]> = indep::packs(&read(&root.join("both"))).unwrap().iter().map(|p| p.head.uuid).collect();
    let list = cases.clone();
    Space::new("no-manifest", cases.len() as u64, move |i, cx| {
        let (f, prefix, loc, k) = &cases[i as usize];
        let bytes = embed(&read(f), *prefix);
        clean(cx.dir);
        let path = cx.dir.join("c.jbk");
        std::fs::write(&path, &bytes).unwrap();
        let uuid = if *k == 3 { [0; 16] } else { uuids[*k % uuids.len()] };
        let got = guard(|| jubako::tools::set_location(&path, uuid::Uuid::from_bytes(uuid), (*loc).into()));
        if let Ok(Ok(Some(_))) = got { return Err("a location is said to be rewritten in a file without a manifest".into()); }
        if read(&path) != bytes { return Err("a file without a manifest is modified".into()); }
        cx.outcome(&format!("{i}"));
        cx.transitions(1);
        cx.states(1);
        cx.traces(1);
        clean(cx.dir);
        Ok(())
    }).desc(move |i| { let (f, prefix, loc, k) = &list[i as usize]; format!("{} behind {prefix} bytes, uuid {k}, location of {} bytes", f.file_name().unwrap().to_string_lossy(), loc.len()) })
}

fn spaces(t: Tier, d: &Path) -> Vec<Space> {
    let sub = |n: &str| { let p = d.join(n); std::fs::create_dir_all(&p).unwrap(); p };
    vec![lengths(&sub("l")), sequences(&sub("s"), t), moves(&sub("m")), near(&sub("r")), far(&sub("f"), t), bare(&sub("b")), many(&sub("n"), t)]
}
