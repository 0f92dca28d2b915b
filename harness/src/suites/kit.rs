//! Small containers and what is expected of them, for the suites about packaging, damage and faults.

use super::util::*;
use crate::build;
use crate::model;
use crate::spec::*;
use std::path::{Path, PathBuf};

/// A directory with every kind of column, two variants, plain and indexed stores, two indexes.
pub fn dir(entries: u32, packs: u16) -> DirSpec {
    let common = vec![Col::A(1, 0, "path"), Col::C("addr"), Col::U("n"), Col::A(0, 1, "mime"), Col::S("t")];
    let variants: Vec<(Name, Vec<Col>)> = vec![("file", vec![Col::U("size"), Col::A(2, 0, "owner")]), ("link", vec![Col::A(0, 1, "to")])];
    let es = (0..entries).map(|j| {
        let mut vals = vec![
            ("path", Val::A(format!("{}path/{j}", ["", "a", "deep/er/"][j as usize % 3]).into_bytes())),
            ("addr", Val::C(1 + (j as u16 % packs.max(1)), j % 2)),
            ("n", Val::U([0, 300, 1 << 33][j as usize % 3])),
            ("mime", Val::A([b"text/plain".to_vec(), b"".to_vec(), b"image/png".to_vec()][j as usize % 3].clone())),
            ("t", Val::S([-1, 5, -40_000][j as usize % 3])),
        ];
        let variant = (j % 2) as usize;
        if variant == 0 { vals.extend([("size", Val::U(j as u64 * 1000)), ("owner", Val::A(vec![b'o'; j as usize % 5]))]); } else { vals.push(("to", Val::A(format!("target {j}").into_bytes()))); }
        EntrySpec { variant: Some(variant), vals }
    }).collect();
    DirSpec {
        vstores: vec![false, true],
        estores: vec![EStoreSpec { common, variants, sort: Some(vec!["path"]), entries: es }],
        indexes: vec![
            IndexSpec { name: "all".into(), store: 0, offset: 0, count: entries, offset_of: None },
            IndexSpec { name: "some".into(), store: 0, offset: entries / 2, count: entries - entries / 2, offset_of: None },
        ],
    }
}

/// main pack plus `extra` packs, raw and compressed contents in each
pub fn container(comp: Comp, mode: Mode, extra: usize, entries: u32) -> ContainerSpec {
    let v = |s: u64| vec![
        ct(1, 120, s, Hint::Yes, Src::Mem), ct(2, 33, s + 1, Hint::No, Src::Mem), ct(2, 0, 0, Hint::Yes, Src::Mem), ct(0, 700, s + 2, Hint::Yes, Src::Mem), ct(2, 5, s + 3, Hint::No, Src::Mem)];
    ContainerSpec { comp, dedup: false, contents: v(10), dir: dir(entries, 1 + extra as u16), mode, extra: (0..extra).map(|k| (if k % 2 == 0 { comp } else { Comp::None }, v(100 * (k as u64 + 1)))).collect() }
}

/// A container on disk with the model's expectation.
#[derive(Clone)]
pub struct Made { pub dir: PathBuf, pub main: PathBuf, pub want: Dump, pub indexes: Vec<String>, pub packs: u16, pub files: Vec<(String, Vec<u8>)> }

pub fn make(root: &Path, name: &str, s: &ContainerSpec) -> Made { make_as(root, name, s, "c.jbk") }

/// The same, with its entry point at this file name.
pub fn make_as(root: &Path, name: &str, s: &ContainerSpec, main: &str) -> Made {
    let dir = root.join(name);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    make_on(root, name, s, main)
}

/// The same, over what the directory holds.
pub fn make_on(root: &Path, name: &str, s: &ContainerSpec, main: &str) -> Made {
    let dir = root.join(name);
    std::fs::create_dir_all(&dir).unwrap();
    let b = build::create(s, &dir, main).unwrap();
    let mut want = model::expect(s, &b).unwrap();
    want.insert("p0/pack".into(), Obs::None);
    want.insert(format!("p{}/pack", 2 + s.extra.len()), Obs::None);
    let files = files(&dir).into_iter().map(|f| (f.file_name().unwrap().to_str().unwrap().to_string(), read(&f))).collect();
    Made { main: b.main, want, indexes: model::index_names(&s.dir), packs: 2 + s.extra.len() as u16, files, dir }
}

impl Made {
    pub fn opts(&self) -> crate::dump::Opts<'_> { crate::dump::Opts { indexes: &self.indexes, check: true, max_pack: self.packs, cap: 100_000, ..Default::default() } }
    /// copies of the files, the entry point is returned
    pub fn install(&self, to: &Path) -> PathBuf {
        for (n, b) in &self.files { std::fs::write(to.join(n), b).unwrap(); }
        to.join(self.main.file_name().unwrap())
    }
    pub fn size(&self) -> usize { self.files.iter().map(|f| f.1.len()).sum() }
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut out = vec![];
    for p in permutations(n - 1) { for k in 0..=p.len() { let mut q = p.clone(); q.insert(k, n - 1); out.push(q); } }
    out
}

/// Every table of the directory larger than what the reader takes in one small read: value stores, entries.
pub fn big_stores(mode: Mode) -> ContainerSpec {
    let mut s = container(Comp::Zstd(1), mode, 1, 2);
    s.dir.estores[0].entries = (0..72u32).map(|j| EntrySpec { variant: Some(j as usize % 2), vals: {
        let mut v = vec![("path", Val::A([format!("{j}/").into_bytes(), bytes(2, 70, j as u64)].concat())), ("addr", Val::C(1 + (j % 2) as u16, j % 5)),
            ("n", Val::U(0x0102_0304_0506_0708 * (j as u64 % 5))), ("mime", Val::A(bytes(2, 80, 1000 + j as u64))), ("t", Val::S(-(1 << 50) - j as i64))];
        if j % 2 == 0 { v.extend([("size", Val::U(u64::MAX - j as u64)), ("owner", Val::A(vec![b'o'; j as usize % 40]))]); } else { v.push(("to", Val::A(bytes(2, 3, j as u64)))); }
        v
    } }).collect();
    // entries of more than 57 bytes
    s.dir.estores[0].common.extend([Col::A(27, 0, "pad"), Col::A(31, 0, "pad2")]);
    for (j, e) in s.dir.estores[0].entries.iter_mut().enumerate() { e.vals.extend([("pad", Val::A(bytes(2, 27, 7 + j as u64))), ("pad2", Val::A(bytes(2, 31, 700 + j as u64)))]); }
    for i in &mut s.dir.indexes { i.offset = 0; i.count = 72; }
    s.dir.indexes[1].offset = 40;
    s.dir.indexes[1].count = 3;
    s
}

/// The same for the tables of a content pack: contents, offsets within a cluster.
pub fn big_tables(comp: Comp, mode: Mode) -> ContainerSpec {
    let mut s = container(comp, mode, 0, 1);
    s.contents = (0..2200u32).map(|j| ct(2, (j % 2) as usize, j as u64, if j < 50 { Hint::No } else { Hint::Yes }, Src::Mem)).collect();
    s.contents.push(ct(2, 5000, 1, Hint::No, Src::Mem));
    s
}

/// Every table beyond 64 KiB: a value store, an entry store, the contents of a pack.
pub fn huge() -> ContainerSpec {
    let mut s = big_stores(Mode::One);
    s.contents = (0..17_000u32).map(|j| ct(2, (j % 2) as usize, j as u64, if j < 50 { Hint::No } else { Hint::Yes }, Src::Mem)).collect();
    let st = &mut s.dir.estores[0];
    let proto = st.entries.clone();
    for j in proto.len()..800 {
        let mut e = proto[j % proto.len()].clone();
        for (n, v) in &mut e.vals { if *n == "path" { *v = Val::A([format!("{j}/").into_bytes(), bytes(2, 120, 5000 + j as u64)].concat()); } }
        st.entries.push(e);
    }
    for i in &mut s.dir.indexes { i.offset = 0; i.count = 800; }
    s.dir.indexes[1].offset = 700;
    s.dir.indexes[1].count = 3;
    s
}

/// Every table beyond 1 MiB.
pub fn mega() -> ContainerSpec {
    let mut s = big_stores(Mode::One);
    s.contents = (0..280_000u32).map(|j| ct(2, (j % 2) as usize, (j % 11) as u64, if j < 50 { Hint::No } else { Hint::Yes }, Src::Mem)).collect();
    let st = &mut s.dir.estores[0];
    let cols: Vec<Name> = (0..150).map(|k| &*Box::leak(format!("w{k}").into_boxed_str())).collect();
    st.common.extend(cols.iter().map(|n| Col::A(31, 0, n)));
    let proto = st.entries.clone();
    for j in proto.len()..250 { st.entries.push(proto[j % proto.len()].clone()); }
    for (j, e) in st.entries.iter_mut().enumerate() {
        for (k, n) in cols.iter().enumerate() { e.vals.push((n, Val::A(bytes(2, 31, (j * 150 + k) as u64)))); }
        for (n, v) in &mut e.vals { if *n == "path" { *v = Val::A([format!("{j}/").into_bytes(), bytes(2, 5000, 5000 + j as u64)].concat()); } }
    }
    for i in &mut s.dir.indexes { i.offset = 0; i.count = 250; }
    s.dir.indexes[1].offset = 200;
    s.dir.indexes[1].count = 3;
    s
}
