//! Runs the real creator on a logical container.

use crate::spec::*;
use jubako as jbk;
use jbk::creator::{self, schema, CompHint, InputReader};
use std::collections::HashMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub fn compression(c: Comp) -> creator::Compression {
    match c {
        Comp::None => creator::Compression::None,
        Comp::Lz4(l) => creator::Compression::Lz4(deranged::RangedU32::new(l).unwrap()),
        Comp::Lzma(l) => creator::Compression::Lzma(deranged::RangedU32::new(l).unwrap()),
        Comp::Zstd(l) => creator::Compression::Zstd(deranged::RangedI32::new(l).unwrap()),
    }
}

pub fn hint(h: Hint) -> CompHint {
    match h { Hint::Yes => CompHint::Yes, Hint::No => CompHint::No, Hint::Detect => CompHint::Detect }
}

pub fn input(dir: &Path, c: &ContentSpec, serial: usize) -> std::io::Result<Box<dyn InputReader>> {
    Ok(match c.src {
        Src::Mem => Box::new(std::io::Cursor::new(c.data.as_ref().clone())),
        Src::Custom => Box::new(std::io::Cursor::new(SharedBytes(Arc::clone(&c.data)))),
        Src::File => {
            let p = dir.join(format!("src-{serial}"));
            std::fs::write(&p, c.data.as_slice())?;
            Box::new(creator::InputFile::open(&p)?)
        }
        Src::Range(a, b) => {
            let p = dir.join(format!("src-{serial}"));
            let mut f = std::fs::File::create(&p)?;
            f.write_all(&bytes(2, a as usize, 77))?;
            f.write_all(&c.data)?;
            f.write_all(&bytes(2, b as usize, 78))?;
            drop(f);
            let f = std::fs::File::open(&p)?;
            let size = if b == 0 { None } else { Some(c.data.len() as u64) };
            Box::new(creator::InputFile::new_range(f, a as u64, size)?)
        }
    })
}

pub struct SharedBytes(Arc<Vec<u8>>);
impl AsRef<[u8]> for SharedBytes { fn as_ref(&self) -> &[u8] { self.0.as_slice() } }

type Schema = schema::Schema<Name, Name>;
type Store = creator::EntryStore<Name, Name, creator::BasicEntry<Name, Name>>;

pub struct Handles(pub Vec<Vec<jbk::Bound<jbk::EntryIdx>>>);

/// Value stores, entry stores and indexes of a directory, ready to be put in a DirectoryPackCreator.
pub struct DirBuild {
    vstores: Vec<creator::StoreHandle>,
    estores: Vec<Store>,
    indexes: Vec<IndexSpec>,
    handles: Handles,
}

fn column(c: &Col, vs: &[creator::StoreHandle]) -> schema::Property<Name> {
    match c {
        Col::U(n) => schema::Property::new_uint(n),
        Col::S(n) => schema::Property::new_sint(n),
        Col::A(p, s, n) => schema::Property::new_array(*p, vs[*s].clone(), n),
        Col::C(n) => schema::Property::new_content_address(n),
    }
}

pub fn build_dir(d: &DirSpec) -> DirBuild {
    let vstores: Vec<creator::StoreHandle> = d
        .vstores
        .iter()
        .map(|ix| if *ix { creator::ValueStore::new_indexed() } else { creator::ValueStore::new_plain(None) })
        .collect();
    // One vow per entry so that any reference (forward, self) can be expressed.
    let vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>> = d
        .estores
        .iter()
        .map(|s| s.entries.iter().map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect())
        .collect();
    let bounds: Vec<Vec<jbk::Bound<jbk::EntryIdx>>> =
        vows.iter().map(|v| v.iter().map(|w| w.bind()).collect()).collect();
    // who is referred to, or has its handle used, needs its own
    let mut held: std::collections::HashSet<(usize, usize)> = std::collections::HashSet::new();
    for e in d.estores.iter().flat_map(|s| &s.entries) {
        for (_, v) in &e.vals {
            if let Val::RefU(st, i) | Val::RefS(st, i) = v { held.insert((*st, *i)); }
        }
    }
    let mut handles = vec![];
    let mut estores = vec![];
    for (si, (s, vows)) in d.estores.iter().zip(vows).enumerate() {
        let common = schema::CommonProperties::new(s.common.iter().map(|c| column(c, &vstores)).collect());
        let variants = s
            .variants
            .iter()
            .map(|(n, cols)| (*n, schema::VariantProperties::new(cols.iter().map(|c| column(c, &vstores)).collect())))
            .collect();
        let schema: Schema = schema::Schema::new(common, variants, s.sort.clone());
        let mut st = Store::new(schema, Some(s.entries.len()));
        let mut hs = vec![];
        for (ei, (e, vow)) in s.entries.iter().zip(vows).enumerate() {
            let mut m: HashMap<Name, jbk::Value> = HashMap::new();
            for (n, v) in &e.vals {
                let jv = match v {
                    Val::U(u) => jbk::Value::Unsigned(*u),
                    Val::S(i) => jbk::Value::Signed(*i),
                    Val::WU(u) => jbk::Value::UnsignedWord((*u).into()),
                    Val::WS(i) => jbk::Value::SignedWord((*i).into()),
                    Val::A(a) => jbk::Value::Array(a.as_slice().into()),
                    Val::C(p, c) => jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into())),
                    Val::RefU(st, i) => jbk::Value::UnsignedWord(bounds[*st][*i].clone().into()),
                    Val::RefS(st, i) => {
                        let b = bounds[*st][*i].clone();
                        let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || b.get().into_u32() as i64);
                        jbk::Value::SignedWord(f.into())
                    }
                };
                m.insert(n, jv);
            }
            let variant = e.variant.map(|i| s.variants[i].0);
            // every other entry nothing refers to is made without a vow
            let be = if ei % 2 == 1 && !held.contains(&(si, ei)) {
                creator::BasicEntry::new_from_schema(&st.schema, variant, m)
            } else {
                creator::BasicEntry::new_from_schema_idx(&st.schema, vow, variant, m)
            };
            hs.push(st.add_entry(be));
        }
        assert!(st.len() == s.entries.len() && st.is_empty() == s.entries.is_empty(), "{} entries added, {} in the store", s.entries.len(), st.len());
        handles.push(hs);
        estores.push(st);
    }
    DirBuild { vstores, estores, indexes: d.indexes.clone(), handles: Handles(handles) }
}

impl DirBuild {
    /// Returns the handles (valid after finalisation).
    pub fn install(self, dp: &mut creator::DirectoryPackCreator) -> Handles {
        for v in self.vstores { dp.add_value_store(v); }
        let mut idx = vec![];
        for s in self.estores { idx.push(dp.add_entry_store(Box::new(s))); }
        for (k, i) in self.indexes.iter().enumerate() {
            let fd = [k as u8 + 1, 2, 3, 4].into();
            let key = jbk::PropertyIdx::from(k as u8);
            let n = jbk::EntryCount::from(i.count);
            match i.offset_of {
                None => dp.create_index(&i.name, fd, key, idx[i.store], n, jbk::EntryIdx::from(i.offset).into()),
                Some(h) => dp.create_index(&i.name, fd, key, idx[i.store], n, self.handles.0[i.store][h].clone().into()),
            }
        }
        self.handles
    }
}

pub struct FinalDir(pub DirBuild, pub Arc<std::sync::Mutex<Option<Handles>>>);
impl creator::EntryStoreTrait for FinalDir {
    fn finalize(self: Box<Self>, dp: &mut creator::DirectoryPackCreator) {
        let h = self.0.install(dp);
        *self.1.lock().unwrap() = Some(h);
    }
}

pub struct Built {
    pub main: PathBuf,
    pub handles: Handles,
    /// address returned for each content, in insertion order: (pack, id)
    pub addrs: Vec<(u16, u32)>,
    pub extra_addrs: Vec<Vec<(u16, u32)>>,
}

pub fn addr(a: jbk::ContentAddress) -> (u16, u32) {
    (a.pack_id.into_u16(), a.content_id.into_u32())
}

pub fn vendor() -> jbk::VendorId { jbk::VendorId::from([0x76, 0x65, 0x72, 0x69]) }

pub type E = Box<dyn std::error::Error + Send + Sync>;

/// Create the container `dir/name` with the high-level creator.
pub fn create(spec: &ContainerSpec, dir: &Path, name: &str) -> Result<Built, E> {
    create_with(spec, dir, name, Arc::new(()))
}

pub fn create_with(
    spec: &ContainerSpec,
    dir: &Path,
    name: &str,
    progress: Arc<dyn creator::Progress>,
) -> Result<Built, E> {
    create_from(spec, dir, dir, name, progress)
}

/// The same with the files the contents come from in `src`.
pub fn create_from(
    spec: &ContainerSpec,
    src: &Path,
    dir: &Path,
    name: &str,
    progress: Arc<dyn creator::Progress>,
) -> Result<Built, E> {
    let main = dir.join(name);
    let main8 = camino::Utf8PathBuf::from_path_buf(main.clone()).map_err(|_| "path")?;
    let mode = match spec.mode {
        Mode::One => creator::ConcatMode::OneFile,
        Mode::Two => creator::ConcatMode::TwoFiles,
        Mode::No => creator::ConcatMode::NoConcat,
    };
    let bc = creator::BasicCreator::new(&main8, mode, vendor(), compression(spec.comp), progress)?;
    let mut addrs = vec![];
    let mut serial = 0usize;
    let bc = if spec.dedup {
        let mut ca = creator::CachedContentAdder::new(bc, std::rc::Rc::new(()));
        for c in &spec.contents {
            addrs.push(addr(creator::ContentAdder::add_content(&mut ca, input(src, c, serial)?, hint(c.hint))?));
            serial += 1;
        }
        ca.into_inner()
    } else {
        let mut bc = bc;
        for c in &spec.contents {
            addrs.push(addr(bc.add_content(input(src, c, serial)?, hint(c.hint))?));
            serial += 1;
        }
        bc
    };
    let mut extra = vec![];
    let mut extra_addrs = vec![];
    for (k, (comp, contents)) in spec.extra.iter().enumerate() {
        let p = camino::Utf8PathBuf::from_path_buf(dir.join(format!("{name}.x{k}.jbkc"))).map_err(|_| "path")?;
        let f = creator::AtomicOutFile::new(&p)?;
        let f: Box<dyn creator::PackRecipient> = f;
        let mut cc = creator::ContentPackCreator::new_from_output(
            f, jbk::PackId::from(2 + k as u16), vendor(), Default::default(), compression(*comp))?;
        let mut v = vec![];
        for c in contents {
            v.push(addr(cc.add_content(input(src, c, serial)?, hint(c.hint))?));
            serial += 1;
        }
        extra.push(cc);
        extra_addrs.push(v);
    }
    for s in 0..serial {
        let _ = std::fs::remove_file(src.join(format!("src-{s}")));
    }
    let slot = Arc::new(std::sync::Mutex::new(None));
    let db = build_dir(&spec.dir);
    bc.finalize(Box::new(FinalDir(db, Arc::clone(&slot))), extra)?;
    let handles = slot.lock().unwrap().take().ok_or("entry store was not finalised")?;
    Ok(Built { main, handles, addrs, extra_addrs })
}

/// Content pack alone, in its own file.
pub fn create_content_pack(
    comp: Comp, dedup: bool, contents: &[ContentSpec], dir: &Path, name: &str,
) -> Result<(PathBuf, Vec<(u16, u32)>, creator::PackData), E> {
    let p = dir.join(name);
    let p8 = camino::Utf8PathBuf::from_path_buf(p.clone()).map_err(|_| "path")?;
    let cc = creator::ContentPackCreator::new(&p8, jbk::PackId::from(1), vendor(), Default::default(), compression(comp))?;
    let mut addrs = vec![];
    let cc = if dedup {
        let mut ca = creator::CachedContentAdder::new(cc, std::rc::Rc::new(()));
        for (i, c) in contents.iter().enumerate() {
            addrs.push(addr(creator::ContentAdder::add_content(&mut ca, input(dir, c, i)?, hint(c.hint))?));
        }
        ca.into_inner()
    } else {
        let mut cc = cc;
        for (i, c) in contents.iter().enumerate() {
            addrs.push(addr(cc.add_content(input(dir, c, i)?, hint(c.hint))?));
        }
        cc
    };
    for i in 0..contents.len() { let _ = std::fs::remove_file(dir.join(format!("src-{i}"))); }
    let (_f, pd) = cc.finalize()?;
    Ok((p, addrs, pd))
}

/// Directory pack alone, in its own file.
pub fn create_directory_pack(d: &DirSpec, dir: &Path, name: &str) -> Result<(PathBuf, Handles, creator::PackData), E> {
    let p = dir.join(name);
    let mut dp = creator::DirectoryPackCreator::new(jbk::PackId::from(0), vendor(), Default::default());
    let h = build_dir(d).install(&mut dp);
    let fin = dp.finalize()?;
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p)?;
    let pd = fin.write(&mut f)?;
    Ok((p, h, pd))
}
