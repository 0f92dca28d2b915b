use crate::build::{self, Built};
use crate::dump::{self, Opts};
use crate::indep;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn clean(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) { let _ = std::fs::remove_dir_all(&p); } else { let _ = std::fs::remove_file(&p); }
        }
    }
}

pub fn ct(kind: u8, len: usize, salt: u64, hint: Hint, src: Src) -> ContentSpec {
    ContentSpec { data: Arc::new(bytes(kind, len, salt)), hint, src }
}

pub fn mixed(n: u64, radix: &[u64]) -> Vec<u64> {
    let mut n = n;
    radix.iter().map(|r| { let d = n % r; n /= r; d }).collect()
}

/// All sequences over `a` symbols of length 0..=k, as (index -> sequence).
pub fn seq_count(a: u64, k: u32) -> u64 { (0..=k).map(|i| a.pow(i)).sum() }
pub fn seq(mut i: u64, a: u64, k: u32) -> Vec<u64> {
    for l in 0..=k {
        let n = a.pow(l);
        if i < n { return mixed(i, &vec![a; l as usize]); }
        i -= n;
    }
    unreachable!()
}

pub fn create(spec: &ContainerSpec, cx: &Cx) -> Result<Built, String> {
    build::create(spec, cx.dir, "c.jbk").map_err(|e| format!("creation failed: {e}"))
}

pub fn brief_contents(c: &[ContentSpec]) -> String {
    if c.len() > 12 {
        return format!("{} contents, first {}", c.len(), brief_contents(&c[..6]));
    }
    c.iter().map(|c| format!("{}B/{:?}/{:?}/{:?}", c.data.len(), c.data.first().zip(c.data.last()), c.hint, c.src)).collect::<Vec<_>>().join(" ")
}
pub fn brief(s: &ContainerSpec) -> String {
    format!("{:?} {:?} dedup={} [{}] extra={}", s.comp, s.mode, s.dedup, brief_contents(&s.contents), s.extra.len())
}

/// What reads back what was written: the library's reader or the independent decoder.
#[derive(Clone, Copy, PartialEq)]
pub enum Oracle { Reader, Independent }
static INDEPENDENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_oracle(o: Oracle) { INDEPENDENT.store(o == Oracle::Independent, std::sync::atomic::Ordering::SeqCst) }
fn independent() -> bool { INDEPENDENT.load(std::sync::atomic::Ordering::SeqCst) }

/// What the independent decoder finds in the files of a container, entry point first.
pub fn decode_files(main: &Path, d: &DirSpec) -> Result<Dump, String> {
    let mut fs = vec![read(main)];
    for f in files(main.parent().unwrap()) { if f != main { fs.push(read(&f)); } }
    let dump = indep::to_dump(&fs, &model::index_names(d)).map_err(|e| format!("independent decoder: {e}"))?;
    for f in &fs {
        let dec = indep::decode(f)?;
        for p in &dec.packs { if p.head.kind != b'C' && p.head.vendor != *b"veri" { return Err("vendor id".into()) } }
        for (_, dir) in &dec.directories {
            for (k, ix) in dir.indexes.iter().enumerate() {
                if ix.free != [k as u8 + 1, 2, 3, 4] || ix.key != k as u8 { return Err(format!("free data or key of index {k}: {:?} {}", ix.free, ix.key)) }
            }
        }
    }
    Ok(dump)
}

/// Build, read back, compare with the model.
pub fn round_trip(spec: &ContainerSpec, cx: &Cx, streams: bool) -> Result<(), String> {
    clean(cx.dir);
    let b = create(spec, cx)?;
    let want = model::expect(spec, &b)?;
    if independent() {
        let got = decode_files(&b.main, &spec.dir)?;
        clean(cx.dir);
        cx.states(1);
        cx.transitions(spec.contents.len() as u64 + spec.extra.iter().map(|e| e.1.len() as u64).sum::<u64>() + 1);
        cx.traces(1);
        return match diff(&want, &got, model::modelled) { None => Ok(()), Some(d) => Err(format!("written vs decoded: {d}")) };
    }
    let ix = model::index_names(&spec.dir);
    let got = dump::observe(&b.main, &Opts { indexes: &ix, streams, max_pack: 2 + spec.extra.len() as u16, ..Default::default() });
    let mut want = want;
    want.insert(format!("p0/pack"), Obs::None);
    let r = disagree_contents(&want, &got);
    clean(cx.dir);
    cx.states(1);
    cx.transitions(spec.contents.len() as u64 + spec.extra.iter().map(|e| e.1.len() as u64).sum::<u64>() + 1);
    cx.traces(1);
    r
}

pub fn disagree_contents(want: &Dump, got: &Dump) -> Result<(), String> {
    match got.get("open") {
        Some(Obs::Str(s)) if s == "ok" => {}
        x => return Err(format!("the container does not open: {x:?}")),
    }
    match diff(want, got, |k| k.starts_with('p') && model::modelled(k)) {
        None => Ok(()),
        Some(d) => Err(format!("written vs read: {d}")),
    }
}

pub fn read(p: &Path) -> Vec<u8> { std::fs::read(p).unwrap_or_else(|e| panic!("{}: {e}", p.display())) }

/// Regular files of a directory, by name.
pub fn files(dir: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn brief_dir(d: &DirSpec) -> String {
    let col = |c: &Col| match c {
        Col::U(n) => format!("{n}:u"), Col::S(n) => format!("{n}:s"), Col::C(n) => format!("{n}:c"),
        Col::A(p, s, n) => format!("{n}:a(prefix {p}, store {s})"),
    };
    let cols = |v: &[Col]| if v.len() > 8 { format!("{} columns", v.len()) } else { v.iter().map(col).collect::<Vec<_>>().join(" ") };
    let val = |v: &Val| match v { Val::A(a) if a.len() > 12 => format!("{}B {:02x?}..", a.len(), &a[..4]), Val::A(a) => format!("{:?}", String::from_utf8_lossy(a)), v => format!("{v:?}") };
    let mut s = format!("vstores(indexed?) {:?}", if d.vstores.len() > 6 { vec![] } else { d.vstores.clone() });
    for e in &d.estores {
        s += &format!(" | [{}]", cols(&e.common));
        for (n, v) in e.variants.iter().take(6) { s += &format!(" {n}[{}]", cols(v)); }
        if e.sort.is_some() { s += &format!(" sort {:?}", e.sort); }
        s += &format!(" {} entries", e.entries.len());
        for en in e.entries.iter().take(6) {
            s += &format!(" ({}{})", en.variant.map(|v| format!("v{v}; ")).unwrap_or_default(), en.vals.iter().take(6).map(|(n, v)| format!("{n}={}", val(v))).collect::<Vec<_>>().join(", "));
        }
    }
    for i in d.indexes.iter().take(4) { s += &format!(" index {:.20} {}+{} of {}", i.name, i.offset, i.count, i.store); }
    s
}

/// The directory written alone, as a directory pack, and what the reader says about it.
/// Ok(None): creation refused (only where `may_fail`).
pub fn dir_dump(d: &DirSpec, cx: &Cx, may_fail: bool) -> Result<Option<(model::Handlepos, Dump)>, String> {
    clean(cx.dir);
    let made = guard(|| build::create_directory_pack(d, cx.dir, "d.jbkd"));
    let (p, h) = match made {
        Ok(Ok((p, h, _))) => (p, h),
        Ok(Err(e)) if may_fail => { cx.note("creation refused", 1); let _ = e; return Ok(None) }
        Err(_) if may_fail => { cx.note("creation refused", 1); return Ok(None) }
        Ok(Err(e)) => return Err(format!("creation fails: {e}")),
        Err(e) => return Err(format!("creation fails: {e}")),
    };
    let hp = model::Handlepos::of(&h);
    hp.check(d)?;
    let mut got = Dump::new();
    if independent() {
        let dir = indep::directory(&read(&p)).map_err(|e| format!("independent decoder: {e}"))?;
        indep::dump_dir(&dir, &model::index_names(d), &mut got)?;
        return Ok(Some((hp, got)));
    }
    let dp = dump::open_directory(&p).map_err(|e| format!("what was created does not open: {e}"))?;
    dump::observe_directory(&dp, &model::index_names(d), u32::MAX, &mut got);
    Ok(Some((hp, got)))
}

/// Could this not fit the format (one-byte counts and name lengths, 16-bit tails, 24-bit array lengths)?
/// Errs towards yes: only what certainly fits must be accepted.
fn may_not_fit(d: &DirSpec) -> bool {
    let width = |c: &Col| match c { Col::U(_) | Col::S(_) => 8, Col::A(p, _, _) => p + 3 + 8, Col::C(_) => 2 + 8 };
    if d.vstores.len() > 255 || d.indexes.iter().any(|i| i.name.len() > 255) { return true }
    let mut tails = vec![(0usize, 0usize); d.vstores.len()];
    for st in &d.estores {
        let cols = || st.common.iter().chain(st.variants.iter().flat_map(|v| &v.1));
        let largest = st.variants.iter().map(|v| v.1.iter().map(width).sum::<usize>()).max().unwrap_or(0);
        // a variant: its own column, its properties, padding up to the largest
        let n = cols().count() + st.variants.len() * (1 + if largest == 0 { 0 } else { largest / 16 + 1 });
        let names = cols().map(|c| c.name().len() + 16).sum::<usize>() + st.variants.iter().map(|v| v.0.len() + 16).sum::<usize>();
        if n > 255 || st.variants.len() > 255 || names + n > 65_000 { return true }
        if cols().any(|c| c.name().len() > 255) || st.variants.iter().any(|v| v.0.len() > 255) { return true }
        for e in &st.entries {
            for (name, v) in &e.vals {
                let Val::A(b) = v else { continue };
                if b.len() >= 1 << 24 { return true }
                if let Some(Col::A(p, s, _)) = cols().find(|c| c.name() == *name) { let t = &mut tails[*s]; t.0 += 1; t.1 += b.len().saturating_sub(*p); }
            }
        }
    }
    tails.iter().zip(&d.vstores).any(|((n, bytes), indexed)| *indexed && (n + 1) * (1 + (usize::BITS - bytes.leading_zeros()) as usize / 8) + 32 > 65_535)
}

pub fn dir_round_trip(d: &DirSpec, cx: &Cx, may_fail: bool) -> Result<(), String> {
    cx.states(1);
    cx.transitions(d.estores.iter().map(|e| e.entries.len() as u64).sum::<u64>() + 1);
    let Some((hp, got)) = dir_dump(d, cx, may_fail && may_not_fit(d))? else { return Ok(()) };
    cx.traces(1);
    let mut want = Dump::new();
    model::expect_dir(d, &hp, &mut want);
    match diff(&want, &got, |k| k.starts_with("ix/")) {
        None => Ok(()),
        Some(x) => Err(format!("written vs read: {x}")),
    }
}
