//! Alterations of the stored bytes of a container, enumerated; shared by C04, C05 and C06.

use super::kit::{self, Made};
use super::util::*;
use crate::dump::{self, Opts};
use crate::infra::*;
use crate::model;
use crate::spec::*;
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fill { Zero, Ones, Invert, Text, Reverse, Next }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// xor of one byte
    Xor(u8),
    /// the byte becomes this value (case skipped when it is that already)
    Set(u8),
    /// the range of this length becomes ..
    Fill(u32, Fill),
    /// cut the file here
    Trunc,
    /// so many bytes more at the end
    Append(u32, Fill),
    /// the bytes from elsewhere in the file: (from, length)
    Copy(u32, u32),
    /// this byte and the one so far away, both xored
    Two(u32, u8, u8),
}

#[derive(Clone, Copy, Debug)]
pub struct Alt { pub file: u16, pub at: u32, pub op: Op }

impl Alt {
    /// None: nothing changes
    pub fn apply(&self, b: &[u8]) -> Option<Vec<u8>> {
        let mut v = b.to_vec();
        let at = self.at as usize;
        let fill = |v: &mut [u8], f: Fill| for k in 0..v.len() {
            v[k] = match f { Fill::Zero => 0, Fill::Ones => 0xFF, Fill::Invert => !v[k], Fill::Text => b"the quick brown fox jumps over the lazy dog\n"[k % 44], Fill::Reverse | Fill::Next => v[k] };
        };
        match self.op {
            Op::Xor(m) => v[at] ^= m,
            Op::Set(x) => v[at] = x,
            Op::Two(d, m, n) => { v[at] ^= m; let o = at + d as usize; if o >= v.len() { return None } v[o] ^= n }
            Op::Fill(n, Fill::Reverse) => v[at..at + n as usize].reverse(),
            // shifted by one: a byte inserted, the last of the range lost
            Op::Fill(n, Fill::Next) => v[at..at + n as usize].rotate_right(1),
            Op::Fill(n, f) => fill(&mut v[at..at + n as usize], f),
            Op::Copy(from, n) => { let p = b[from as usize..(from + n) as usize].to_vec(); let n = p.len().min(v.len() - at); v[at..at + n].copy_from_slice(&p[..n]) }
            Op::Trunc => v.truncate(at),
            Op::Append(n, f) => { let l = v.len(); v.resize(l + n as usize, 0); match f {
                // a copy of the beginning or the end of the file
                Fill::Reverse => for k in 0..n as usize { v[l + k] = v[k % l.max(1)] },
                Fill::Next => for k in 0..n as usize { v[l + k] = v[l - (n as usize).min(l) + k % l.max(1)] },
                f => fill(&mut v[l..], f) } }
        }
        (v != b).then_some(v)
    }
}

/// A container, what the reader says of it when intact (which is what was written).
pub struct Victim { pub name: String, pub made: Made, pub base: Dump, pub mbase: Dump }

impl Victim {
    pub fn new(root: &Path, name: &str, s: &ContainerSpec) -> Arc<Victim> {
        let made = kit::make(root, name, s);
        let base = dump::observe(&made.main, &opts(&made, false));
        if let Some(d) = diff(&made.want, &base, |k| k != "open" && model::modelled(k) && !(k.contains("/c") && k.starts_with('p') && !base.contains_key(k))) { panic!("{name}: the intact container is not what was written: {d}") }
        let mbase = dump::observe_manifest(&made.main, true);
        Arc::new(Victim { name: name.into(), made, base, mbase })
    }
    /// The files, one of them replaced, on new inodes.
    pub fn place(&self, dir: &Path, file: usize, b: &[u8]) -> PathBuf {
        for (k, (n, o)) in self.made.files.iter().enumerate() {
            let p = dir.join(n);
            let _ = std::fs::remove_file(&p);
            std::fs::write(&p, if k == file { b } else { o }).unwrap();
        }
        dir.join("c.jbk")
    }
    pub fn describe(&self, a: &Alt) -> String {
        let (n, b) = &self.made.files[a.file as usize];
        format!("{}: {n} ({} bytes) at {} {:?}", self.name, b.len(), a.at, a.op)
    }
}

pub fn opts(m: &Made, streams: bool) -> Opts<'_> { Opts { streams, cap: 300_000, sparse: true, ..m.opts() } }

/// A container whose clusters are decoded in several chunks.
pub fn large(comp: Comp, mode: Mode, len: usize) -> ContainerSpec {
    let mut s = kit::container(comp, mode, 0, 2);
    s.contents = vec![ct(2, 300, 1, Hint::Yes, Src::Mem), ct(1, len, 2, Hint::Yes, Src::Mem), ct(2, len / 2, 3, Hint::Yes, Src::Mem), ct(1, 50, 4, Hint::No, Src::Mem)];
    s
}

/// Alterations of every file of the victim.
pub fn alterations(v: &Victim, masks: &[u8], step: usize, ranges: &[(usize, usize)], fills: &[Fill], truncs: bool, appends: &[usize]) -> Vec<Alt> {
    let mut out = vec![];
    for (k, (_, b)) in v.made.files.iter().enumerate() {
        let n = b.len();
        let f = k as u16;
        for at in (0..n).step_by(step) {
            for m in masks { out.push(Alt { file: f, at: at as u32, op: Op::Xor(*m) }); }
            if b[at] != 0 && !masks.contains(&b[at]) { out.push(Alt { file: f, at: at as u32, op: Op::Set(0) }); }
        }
        for &(len, stride) in ranges {
            if len > n { continue; }
            for at in (0..=n - len).step_by(stride) {
                for x in fills { out.push(Alt { file: f, at: at as u32, op: Op::Fill(len as u32, *x) }); }
            }
        }
        // from here to the end, and all of it
        for at in (0..n).step_by(step * 7) { out.push(Alt { file: f, at: at as u32, op: Op::Fill((n - at) as u32, Fill::Zero) }); }
        if truncs { for at in (0..n).step_by(step) { out.push(Alt { file: f, at: at as u32, op: Op::Trunc }); } }
        for &a in appends { for x in [Fill::Zero, Fill::Ones, Fill::Text, Fill::Reverse, Fill::Next] { out.push(Alt { file: f, at: 0, op: Op::Append(a as u32, x) }); } }
    }
    out
}

pub fn pairs(v: &Victim, dists: &[u32], masks: &[(u8, u8)]) -> Vec<Alt> {
    let mut out = vec![];
    for (k, (_, b)) in v.made.files.iter().enumerate() {
        for at in 0..b.len() { for d in dists { for m in masks { out.push(Alt { file: k as u16, at: at as u32, op: Op::Two(*d, m.0, m.1) }); } } }
    }
    out
}

pub const BITS: [u8; 9] = [1, 2, 4, 8, 16, 32, 64, 128, 255];
pub fn all_masks() -> Vec<u8> { (1..=255).collect() }

/// Reads of the contents in other orders than the dump's: through a stream first; the last bytes first.
pub fn read_other_ways(main: &Path, packs: u16) {
    use jubako as jbk;
    use std::io::Read;
    for way in 0..2 {
        let Ok(c) = jbk::reader::Container::new(main) else { return };
        for id in 1..=packs {
            let Ok(Some(p)) = c.get_pack(jbk::PackId::from(id)) else { continue };
            let jbk::reader::MayMissPack::FOUND(p) = p else { continue };
            let n = p.get_content_count().into_u32().min(10_000);
            for i in (0..n).rev() {
                if dump::skipped(i, n) { continue }
                let Ok(Some(r)) = p.get_content(jbk::ContentIdx::from(i)) else { continue };
                let size = r.size().into_u64();
                if size > 1 << 31 { continue; }
                if way == 0 {
                    let mut s = r.stream();
                    let mut buf = [0u8; 333];
                    let mut left = size + 1000;
                    while let Ok(k) = s.read(&mut buf) { if k == 0 || left == 0 { break; } left = left.saturating_sub(k as u64); }
                } else {
                    for o in [size.saturating_sub(1), size / 2, 0] {
                        let _ = r.get_slice(jbk::Offset::from(o), (size - o).min(7) as usize);
                        if o <= size { if let Ok(s) = r.cut(jbk::Offset::from(o), jbk::Size::from(size - o)).stream().bytes().take(3).collect::<Result<Vec<_>, _>>() { let _ = s; } }
                    }
                }
            }
        }
    }
}

/// One space per victim.
pub fn space(name: &str, v: Arc<Victim>, alts: Vec<Alt>, run: impl Fn(&Victim, &Alt, &[u8], &Cx) -> Result<(), String> + Send + Sync + 'static) -> Space {
    let v2 = Arc::clone(&v);
    let alts = Arc::new(alts);
    let a2 = Arc::clone(&alts);
    Space::new(&format!("{name}/{}", v.name), alts.len() as u64, move |i, cx| {
        let a = &alts[i as usize];
        let Some(b) = a.apply(&v.made.files[a.file as usize].1) else { return Ok(()) };
        cx.evals(1);
        run(&v, a, &b, cx)
    }).desc(move |i| v2.describe(&a2[i as usize])).horizon(20)
}

/// Every block (with its CRC) written where every other one is: misdirected writes.
pub fn moved(v: &Victim) -> Vec<Alt> {
    let mut out = vec![];
    for (k, (_, b)) in v.made.files.iter().enumerate() {
        let bl = crate::indep::blocks(b).unwrap();
        for x in &bl { for y in &bl { if x != y {
            out.push(Alt { file: k as u16, at: y.0 as u32, op: Op::Copy(x.0 as u32, x.1 as u32 + 4) });
            // aligned on the ends
            let e = (y.0 + y.1) as i64 - x.1 as i64;
            if x.1 != y.1 && e >= 0 { out.push(Alt { file: k as u16, at: e as u32, op: Op::Copy(x.0 as u32, x.1 as u32 + 4) }); }
        } } }
    }
    out
}

/// Everything read from one pack held in memory.
pub fn observe_bytes(kind: u8, b: Vec<u8>, names: &[String]) -> Dump {
    use jubako as jbk;
    use jbk::Pack;
    let mut out = Dump::new();
    let r = jbk::Reader::from(b);
    let err = |x: jbk::Error| Obs::Err(format!("{x:?}").chars().take(200).collect());
    match kind {
        b'd' => match jbk::reader::DirectoryPack::new(r) {
            Ok(p) => {
                out.insert("dir#check".into(), p.check().map(Obs::Bool).unwrap_or_else(err));
                out.insert("dir/free".into(), Obs::A(p.get_free_data().to_vec()));
                dump::observe_directory(&Arc::new(p), names, 10_000, &mut out);
            }
            Err(x) => { out.insert("open".into(), err(x)); }
        },
        b'c' => match jbk::reader::ContentPack::new(r) {
            Ok(p) => {
                out.insert("p1#check".into(), p.check().map(Obs::Bool).unwrap_or_else(err));
                out.insert("p1/free".into(), Obs::A(p.get_free_data().to_vec()));
                let n = p.get_content_count().into_u32();
                out.insert("p1/count".into(), Obs::U(n as u64));
                for i in 0..n.min(10_000) {
                    if dump::skipped(i, n) { continue }
                    let v = match p.get_content(jbk::ContentIdx::from(i)) {
                        Ok(Some(r)) => dump::region_obs(&r, false),
                        Ok(None) => Obs::None,
                        Err(x) => err(x),
                    };
                    out.insert(format!("p1/c{i}"), v);
                }
            }
            Err(x) => { out.insert("open".into(), err(x)); }
        },
        b'm' => match jbk::reader::ManifestPack::new(r) {
            Ok(m) => dump::observe_manifest_pack(&m, true, &mut out),
            Err(x) => { out.insert("m/open".into(), err(x)); }
        },
        k => panic!("no pack of kind {k}"),
    }
    out
}

/// The packs of every file: (kind, bytes).
pub fn pack_bytes(m: &Made) -> Vec<(u8, Vec<u8>)> {
    let mut out = vec![];
    for (_, b) in &m.files {
        for p in crate::indep::packs(b).unwrap() {
            if p.head.kind != b'C' { out.push((p.head.kind, b[p.start as usize..(p.start + p.head.size) as usize].to_vec())); }
        }
    }
    out
}
