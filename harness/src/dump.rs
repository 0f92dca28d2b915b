//! Reads everything the reader API exposes into a flat map of observations.

use crate::spec::*;
use jubako as jbk;
use jbk::reader::builder::{self, PropertyBuilderTrait};
use jbk::reader::{EntryTrait, MayMissPack, Range};
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

fn e(x: &jbk::Error) -> Obs {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        let mut i = 300;
        while !s.is_char_boundary(i) { i -= 1; }
        s.truncate(i);
    }
    Obs::Err(s)
}

pub struct Opts<'a> {
    pub indexes: &'a [String],
    /// also read every content through a stream with small reads
    pub streams: bool,
    pub check: bool,
    pub max_pack: u16,
    /// bound on the number of contents / entries read (damaged counters)
    pub cap: u32,
    /// number of indexes when it is not that of the names
    pub ixcount: Option<u32>,
    /// of many contents, only the first, the last and some in between
    pub sparse: bool,
}
impl Default for Opts<'_> {
    fn default() -> Self {
        Opts { indexes: &[], streams: false, check: false, max_pack: 3, cap: 5_000_000, ixcount: None, sparse: false }
    }
}

fn raw(v: &jbk::reader::RawValue) -> Obs {
    use jbk::reader::RawValue as R;
    // a value resolved is the one of its typed accessor
    match (v, v.get()) {
        (R::U8(_) | R::U16(_) | R::U32(_) | R::U64(_), Ok(jbk::Value::Unsigned(x))) if x == v.as_unsigned() => {}
        (R::I8(_) | R::I16(_) | R::I32(_) | R::I64(_), Ok(jbk::Value::Signed(x))) if x == v.as_signed() => {}
        (R::Content(c), Ok(jbk::Value::Content(x))) if x == *c && v.as_content() == x => {}
        (R::Array(_), Ok(jbk::Value::Array(x))) if v.as_vec().is_ok_and(|y| y == x) => {}
        (R::Array(_), Err(_)) if v.as_vec().is_err() => {}
        (_, x) => return Obs::Str(format!("{v:?} resolves to {x:?}")),
    }
    match v {
        R::U8(_) | R::U16(_) | R::U32(_) | R::U64(_) => Obs::U(v.as_unsigned()),
        R::I8(_) | R::I16(_) | R::I32(_) | R::I64(_) => Obs::S(v.as_signed()),
        R::Content(c) => Obs::C(c.pack_id.into_u16(), c.content_id.into_u32()),
        R::Array(a) => match v.as_vec() {
            Ok(b) => {
                if let Some(s) = a.size() {
                    if s != b.len() {
                        return Obs::Str(format!("array reports size {s}, holds {} bytes", b.len()));
                    }
                }
                match a.cmp(&b) {
                    Ok(std::cmp::Ordering::Equal) => {}
                    Ok(o) => return Obs::Str(format!("array compares {o:?} with its own bytes {:?}", &b[..])),
                    Err(x) => return e(&x),
                }
                Obs::A(b.to_vec())
            }
            Err(x) => e(&x),
        },
    }
}

pub fn value(v: jbk::Result<Option<jbk::reader::RawValue>>) -> Obs {
    match v {
        Ok(Some(v)) => raw(&v),
        Ok(None) => Obs::None,
        Err(x) => e(&x),
    }
}

/// Typed views of one property, for every builder type that accepts it.
macro_rules! typed {
    ($p:expr, $vs:expr, $r:expr) => {{
        let (p, vs, r) = ($p, $vs, $r);
        let mut out: Vec<Obs> = vec![];
        match p.as_builder::<builder::IntProperty, _>(vs) {
            Ok(Some(b)) => out.push(b.create(r).map(Obs::U).unwrap_or_else(|x| e(&x))),
            Ok(None) => {}
            Err(x) => out.push(e(&x)),
        }
        match p.as_builder::<builder::SignedProperty, _>(vs) {
            Ok(Some(b)) => out.push(b.create(r).map(Obs::S).unwrap_or_else(|x| e(&x))),
            Ok(None) => {}
            Err(x) => out.push(e(&x)),
        }
        match p.as_builder::<builder::ContentProperty, _>(vs) {
            Ok(Some(b)) => out.push(
                b.create(r)
                    .map(|c| Obs::C(c.pack_id.into_u16(), c.content_id.into_u32()))
                    .unwrap_or_else(|x| e(&x)),
            ),
            Ok(None) => {}
            Err(x) => out.push(e(&x)),
        }
        match p.as_builder::<builder::ArrayProperty, _>(vs) {
            Ok(Some(b)) => out.push(match b.create(r) {
                Ok(a) => raw(&jbk::reader::RawValue::Array(a)),
                Err(x) => e(&x),
            }),
            Ok(None) => {}
            Err(x) => out.push(e(&x)),
        }
        out
    }};
}

/// The name of a variant, as a typed builder gives it.
#[derive(Clone, Copy, PartialEq, Debug)]
struct VName(&'static str);
impl<'a> TryFrom<&'a str> for VName {
    type Error = ();
    fn try_from(s: &'a str) -> Result<Self, ()> { Ok(VName(intern(s))) }
}
/// A user's enumeration which knows only some of the variants.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Even(&'static str);
impl<'a> TryFrom<&'a str> for Even {
    type Error = ();
    fn try_from(s: &'a str) -> Result<Self, ()> { if knows(s) { Ok(Even(intern(s))) } else { Err(()) } }
}
fn knows(s: &str) -> bool { s.bytes().map(|b| b as u32).sum::<u32>() % 2 == 0 }

/// Everything about one index.
pub fn observe_index(store: jbk::Result<jbk::reader::EntryStore>, vs: &jbk::reader::ValueStorage, ix: &jbk::reader::Index, pre: &str, cap: u32, out: &mut Dump) {
    let count = ix.count().into_u32();
    out.insert(format!("{pre}/count"), Obs::U(count as u64));
    out.insert(format!("{pre}/size"), Obs::U(ix.size().into_u32() as u64));
    out.insert(format!("{pre}/offset"), Obs::U(ix.offset().into_u32() as u64));
    if ix.is_empty() != (count == 0) {
        out.insert(format!("{pre}/empty"), Obs::Bool(ix.is_empty()));
    }
    let range = if ix.offset().into_u32().checked_add(count).is_some() {
        let range = jbk::EntryRange::from(ix);
        if range.offset() != ix.offset() || range.count() != ix.count() {
            out.insert(format!("{pre}/range"), Obs::Str(format!("{}+{}", range.offset().into_u32(), range.count().into_u32())));
        }
        Some(range)
    } else { None };
    let store = match store {
        Ok(s) => s,
        Err(x) => {
            out.insert(format!("{pre}/store"), e(&x));
            return;
        }
    };
    let any = match builder::AnyBuilder::new(Arc::clone(&store), vs) {
        Ok(b) => b,
        Err(x) => {
            out.insert(format!("{pre}/builder"), e(&x));
            return;
        }
    };
    let layout = store.layout();
    let mut common: Vec<String> = layout.common.iter().map(|(n, _)| n.as_str().to_string()).collect();
    common.sort();
    let mut variants: Vec<(String, Vec<String>)> = vec![];
    if let Some(vp) = &layout.variant_part {
        let mut names: Vec<(u8, String)> = vp.names.iter().map(|(n, i)| (*i, n.as_str().to_string())).collect();
        names.sort();
        for (k, v) in vp.variants.iter().enumerate() {
            let mut ns: Vec<String> = v.iter().map(|(n, _)| n.as_str().to_string()).collect();
            ns.sort();
            let vn = names.iter().find(|(i, _)| *i as usize == k).map(|(_, n)| n.clone()).unwrap_or_default();
            variants.push((vn, ns));
        }
        out.insert(
            format!("{pre}/variants"),
            Obs::Str(variants.iter().map(|(n, p)| format!("{n}:{}", p.join(","))).collect::<Vec<_>>().join(";")),
        );
    }
    let (named, some) = (layout.variant_id_builder::<VName>(), layout.variant_id_builder::<Even>());
    if layout.variant_len() != variants.len() {
        out.insert(format!("{pre}/variant_len"), Obs::U(layout.variant_len() as u64));
    }
    for (k, (n, ns)) in variants.iter().enumerate() {
        let mut got: Option<Vec<String>> = layout.get_variant(intern(n)).map(|v| v.iter().map(|(n, _)| n.as_str().to_string()).collect());
        if let Some(g) = got.as_mut() { g.sort(); }
        let named = layout.variant_part.as_ref().is_some_and(|p| p.names.iter().any(|(_, i)| *i as usize == k));
        if named && got.as_ref() != Some(ns) {
            out.insert(format!("{pre}/get_variant/{n}"), Obs::Str(format!("{got:?}")));
        }
    }
    out.insert(format!("{pre}/common"), Obs::Str(common.join(",")));
    for i in 0..count.min(cap) {
        let k = format!("{pre}/e{i}");
        let entry = match ix.get_entry(&any, jbk::EntryIdx::from(i)) {
            Ok(Some(en)) => en,
            Ok(None) => {
                out.insert(k, Obs::None);
                continue;
            }
            Err(x) => {
                out.insert(k, e(&x));
                continue;
            }
        };
        let mut names: Vec<&String> = common.iter().collect();
        let variant = match entry.get_variant_id() {
            Ok(None) => None,
            Ok(Some(v)) => {
                let v = v.into_u8();
                out.insert(format!("{k}/variant"), Obs::U(v as u64));
                // the typed builders agree: one that knows every name, and one that knows some
                if let Some(r) = ix.offset().into_u32().checked_add(i).and_then(|i| store.get_entry_reader(jbk::EntryIdx::from(i))) {
                    let n = variants.get(v as usize).map(|(n, _)| n.as_str());
                    if let Some(t) = named.as_ref().map(|b| b.create(&r)) {
                        match t {
                            Ok(t) => if t.map(|x| x.0) != n { out.insert(format!("{k}/variant#typed"), Obs::Str(format!("{t:?}"))); }
                            Err(x) => if n.is_some() { out.insert(format!("{k}/variant#typed"), e(&x)); }
                        }
                    }
                    if let Some(t) = some.as_ref().map(|b| b.create(&r)) {
                        match t {
                            Ok(t) => if t.map(|x| x.0) != n.filter(|n| knows(n)) { out.insert(format!("{k}/variant#typed-some"), Obs::Str(format!("{t:?}"))); }
                            Err(x) => if n.is_some() { out.insert(format!("{k}/variant#typed-some"), e(&x)); }
                        }
                    }
                }
                match variants.get(v as usize) {
                    Some((n, ns)) => {
                        out.insert(format!("{k}/variant_name"), Obs::Str(n.clone()));
                        names.extend(ns.iter());
                    }
                    None => {
                        out.insert(format!("{k}/variant_name"), Obs::Str("<unknown variant>".into()));
                    }
                }
                Some(v)
            }
            Err(x) => {
                out.insert(format!("{k}/variant"), e(&x));
                None
            }
        };
        // as a range of entries, the same entry
        if let Some(Ok(None) | Err(_)) = range.as_ref().map(|r| r.get_entry(&any, jbk::EntryIdx::from(i))) {
            out.insert(format!("{k}#range"), Obs::None);
        }
        let reader = ix.offset().into_u32().checked_add(i).and_then(|i| store.get_entry_reader(jbk::EntryIdx::from(i)));
        for n in names {
            let any_v = value(entry.get_value(n));
            let key = format!("{k}/{n}");
            if let Some(r) = &reader {
                let p = layout.common.get(intern(n)).or_else(|| {
                    variant.and_then(|v| layout.variant_part.as_ref().and_then(|p| p.variants.get(v as usize)).and_then(|p| p.get(intern(n))))
                });
                if let Some(p) = p {
                    for t in typed!(p, vs, r) {
                        if t != any_v && !t.is_err() && !any_v.is_err() {
                            out.insert(format!("{key}#typed"), t);
                        }
                    }
                }
            }
            out.insert(key, any_v);
        }
        // a property that is in no schema
        let none = value(entry.get_value("no such property"));
        if none != Obs::None {
            out.insert(format!("{k}#unknown"), none);
        }
    }
    if LOOKUPS.load(Ordering::Relaxed) { lookups(ix, &any, &common, count, pre, out); }
    // nothing beyond the window
    for past in [count, count.saturating_add(1)] {
        if count > cap { break; }
        if let Some(r) = &range {
            if let Ok(Some(_)) = r.get_entry(&any, jbk::EntryIdx::from(past)) {
                out.insert(format!("{pre}/past{past}/range"), Obs::Str("an entry beyond the window".into()));
            }
        }
        match ix.get_entry(&any, jbk::EntryIdx::from(past)) {
            Ok(None) => {}
            Ok(Some(_)) => {
                out.insert(format!("{pre}/past{past}"), Obs::Str("an entry beyond the window".into()));
            }
            Err(x) => {
                out.insert(format!("{pre}/past{past}"), e(&x));
            }
        }
    }
}

/// Dumps also look the values of some entries up.
pub static LOOKUPS: AtomicBool = AtomicBool::new(false);

/// Columns and values that are looked for whatever the layout says; set once.
pub static PROBES: std::sync::Mutex<Vec<(Name, Val)>> = std::sync::Mutex::new(vec![]);

struct Search<C>(C, bool);
impl<C: jbk::reader::CompareTrait> jbk::reader::CompareTrait for Search<C> {
    fn ordered(&self) -> bool { self.1 }
    fn compare_entry(&self, i: jbk::EntryIdx) -> jbk::Result<std::cmp::Ordering> { self.0.compare_entry(i) }
}

fn lookups(ix: &jbk::reader::Index, any: &builder::AnyBuilder, common: &[String], count: u32, pre: &str, out: &mut Dump) {
    // what the user believes the columns to be
    for (n, v) in PROBES.lock().unwrap().iter() {
        let key = match v { Val::U(x) => jbk::Value::Unsigned(*x), Val::S(x) => jbk::Value::Signed(*x), Val::A(x) => jbk::Value::Array(x.as_slice().into()), _ => continue };
        for ordered in [true, false] {
            if !ordered && count > 200 { continue }
            let _ = ix.find(&Search(any.new_property_compare(n.to_string(), match &key { jbk::Value::Unsigned(x) => jbk::Value::Unsigned(*x), jbk::Value::Signed(x) => jbk::Value::Signed(*x), jbk::Value::Array(x) => jbk::Value::Array(x.clone()), _ => continue }), ordered));
        }
    }
    let mut at = vec![0, count / 2, count.saturating_sub(1)];
    at.dedup();
    for i in at {
        let Ok(Some(entry)) = ix.get_entry(any, jbk::EntryIdx::from(i)) else { continue };
        for n in common {
            let Ok(Some(v)) = entry.get_value(n) else { continue };
            if matches!(v, jbk::reader::RawValue::Content(_)) { continue }
            for ordered in [true, false] {
                if !ordered && count > 200 { continue }
                let Ok(key) = v.get() else { continue };
                let r = ix.find(&Search(any.new_property_compare(n.clone(), key), ordered));
                out.insert(format!("{pre}/find/{n}/{i}/{ordered}"), match r { Ok(Some(k)) => Obs::U(k.into_u32() as u64), Ok(None) => Obs::None, Err(x) => e(&x) });
            }
        }
    }
}

pub fn region_obs(r: &jbk::reader::ByteRegion, streams: bool) -> Obs {
    let n = r.size().into_u64();
    if n > 1 << 31 {
        return Obs::Err(format!("absurd size {n}"));
    }
    let o = match r.get_slice(jbk::Offset::from(0u64), n as usize) {
        Ok(b) => Obs::data(&b),
        Err(x) => return e(&x),
    };
    if streams {
        use std::io::Read;
        let mut st = r.stream();
        let mut v = Vec::with_capacity(n as usize);
        let mut buf = [0u8; 700];
        loop {
            match st.read(&mut buf) {
                Ok(0) => break,
                Ok(k) => v.extend_from_slice(&buf[..k]),
                Err(x) => return Obs::Err(format!("{x:?}")),
            }
            if v.len() as u64 > n + 10_000 { break; }
        }
        let o2 = Obs::data(&v);
        if o2 != o {
            return Obs::Str(format!("stream and slice differ: {} vs {}", o2.brief(), o.brief()));
        }
    }
    o
}

pub fn pack_info_str(p: &jbk::reader::PackInfo) -> String {
    format!("{} id={} kind={} group={} size={} loc={:?}", p.uuid, p.pack_id.into_u16(), p.pack_kind as u8 as char,
        p.pack_group, p.pack_size.into_u64(), p.pack_location.as_str())
}

/// Is it one of those a sparse read leaves out?
pub fn skipped(i: u32, n: u32) -> bool { n > 300 && i > 20 && i + 20 < n && i % 97 != 0 }

/// Every way through a `MayMissPack` keeps what it holds, and the description of what is missing.
fn helpers(mk: &dyn Fn() -> Option<MayMissPack<()>>) -> Option<String> {
    let there = |m: &MayMissPack<u8>| match m { MayMissPack::FOUND(7) => "found".to_string(), MayMissPack::FOUND(_) => "another".into(), MayMissPack::MISSING(p) => pack_info_str(p) };
    let m = || mk().map(|m| match m { MayMissPack::FOUND(()) => MayMissPack::FOUND(7u8), MayMissPack::MISSING(p) => MayMissPack::MISSING(p) });
    let want = there(&m()?);
    let found = want == "found";
    let ways = [
        ("map", there(&m()?.map(|x| x))),
        ("as_ref", there(&m()?.as_ref().map(|x| *x))),
        ("transpose a result", m()?.map(Ok::<u8, ()>).transpose().map(|m| there(&m)).unwrap_or("an error".into())),
        ("transpose an option", m()?.map(Some).transpose().map(|m| there(&m)).unwrap_or("nothing".into())),
    ];
    for (how, got) in ways {
        if got != want { return Some(format!("{how}: {got}")) }
    }
    if m()?.get() != found.then_some(7) { return Some("get".into()) }
    if found && m()?.unwrap() != 7 { return Some("unwrap".into()) }
    let e = m()?.map(|_| Err::<u8, u8>(9)).transpose().map(|m| there(&m));
    if found != (e == Err(9)) || !found && e != Ok(want.clone()) { return Some("transpose an error".into()) }
    let o = m()?.map(|_| None::<u8>).transpose().map(|m| there(&m));
    if found != o.is_none() || !found && o != Some(want) { return Some("transpose a none".into()) }
    None
}

pub fn observe_contents(c: &jbk::reader::Container, o: &Opts, out: &mut Dump) {
    for id in 0..=o.max_pack {
        let pre = format!("p{id}");
        if let Some(w) = helpers(&|| c.get_pack(jbk::PackId::from(id)).ok().flatten().map(|m| m.map(|_| ()))) {
            out.insert(format!("{pre}/helpers"), Obs::Str(w));
        }
        match c.get_pack(jbk::PackId::from(id)) {
            Err(x) => {
                out.insert(format!("{pre}/pack"), e(&x));
            }
            Ok(None) => {
                out.insert(format!("{pre}/pack"), Obs::None);
                match c.get_bytes(jbk::ContentAddress::new(jbk::PackId::from(id), jbk::ContentIdx::from(0))) {
                    Ok(None) => {}
                    Ok(Some(_)) => { out.insert(format!("{pre}/bytes"), Obs::Str("bytes from an unknown pack".into())); }
                    Err(x) => { out.insert(format!("{pre}/bytes"), e(&x)); }
                }
            }
            Ok(Some(MayMissPack::MISSING(p))) => {
                out.insert(format!("{pre}/pack"), Obs::Missing(pack_info_str(&p)));
                let b = c.get_bytes(jbk::ContentAddress::new(jbk::PackId::from(id), jbk::ContentIdx::from(0)));
                out.insert(format!("{pre}/bytes"), match b {
                    Ok(Some(MayMissPack::MISSING(p))) => Obs::Missing(pack_info_str(&p)),
                    Ok(Some(MayMissPack::FOUND(_))) => Obs::Str("bytes from a missing pack".into()),
                    Ok(None) => Obs::None,
                    Err(x) => e(&x),
                });
            }
            Ok(Some(MayMissPack::FOUND(p))) => {
                let n = p.get_content_count().into_u32();
                out.insert(format!("{pre}/pack"), Obs::Str("found".into()));
                if jbk::Pack::kind(p) as u8 != b'c' {
                    out.insert(format!("{pre}/kind"), Obs::Str(format!("{:?}", jbk::Pack::kind(p))));
                }
                out.insert(format!("{pre}/count"), Obs::U(n as u64));
                out.insert(format!("{pre}/free"), Obs::A(p.get_free_data().to_vec()));
                {
                    use jbk::Pack;
                    out.insert(format!("{pre}/uuid"), Obs::Str(p.uuid().to_string()));
                    out.insert(format!("{pre}/packsize"), Obs::U(p.size().into_u64()));
                    out.insert(format!("{pre}/version"), Obs::Str(format!("{:?} {:?}", p.version(), p.app_vendor_id())));
                    if o.check {
                        out.insert(format!("{pre}#check"), p.check().map(Obs::Bool).unwrap_or_else(|x| e(&x)));
                    }
                }
                for i in 0..n.min(o.cap) {
                    if o.sparse && skipped(i, n) { continue }
                    let a = jbk::ContentAddress::new(jbk::PackId::from(id), jbk::ContentIdx::from(i));
                    let v = match c.get_bytes(a) {
                        Ok(Some(MayMissPack::FOUND(Some(r)))) => {
                            out.insert(format!("{pre}/c{i}/size"), Obs::U(r.size().into_u64()));
                            region_obs(&r, o.streams)
                        }
                        Ok(Some(MayMissPack::FOUND(None))) => Obs::None,
                        Ok(Some(MayMissPack::MISSING(p))) => Obs::Missing(pack_info_str(&p)),
                        Ok(None) => Obs::Str("pack vanished".into()),
                        Err(x) => e(&x),
                    };
                    out.insert(format!("{pre}/c{i}"), v);
                }
                if n <= o.cap {
                    for past in [n, n.wrapping_add(1), n ^ 0x8000_0000, u32::MAX] {
                        if past < n { continue; }
                        let a = jbk::ContentAddress::new(jbk::PackId::from(id), jbk::ContentIdx::from(past));
                        match c.get_bytes(a) {
                            Ok(Some(MayMissPack::FOUND(None))) => {}
                            Ok(_) => { out.insert(format!("{pre}/past{past}"), Obs::Str("something past the count".into())); }
                            Err(x) => { out.insert(format!("{pre}/past{past}"), e(&x)); }
                        }
                    }
                }
            }
        }
    }
}

/// Everything the reader says about the container at `path`.
pub fn observe(path: &Path, o: &Opts) -> Dump {
    let mut out = Dump::new();
    let c = match jbk::reader::Container::new(path) {
        Ok(c) => c,
        Err(x) => {
            out.insert("open".into(), e(&x));
            return out;
        }
    };
    observe_container(&c, o, &mut out);
    out
}

pub fn observe_container(c: &jbk::reader::Container, o: &Opts, out: &mut Dump) {
    use jbk::Pack;
    out.insert("open".into(), Obs::Str("ok".into()));
    out.insert("uuid".into(), Obs::Str(c.uuid().to_string()));
    out.insert("pack_count".into(), Obs::U(c.pack_count().into_u16() as u64));
    let dp = c.get_directory_pack();
    if dp.kind() as u8 != b'd' { out.insert("dir/kind".into(), Obs::Str(format!("{:?}", dp.kind()))); }
    out.insert("dir/uuid".into(), Obs::Str(dp.uuid().to_string()));
    out.insert("dir/free".into(), Obs::A(dp.get_free_data().to_vec()));
    out.insert("dir/packsize".into(), Obs::U(dp.size().into_u64()));
    if o.check {
        out.insert("dir#check".into(), dp.check().map(Obs::Bool).unwrap_or_else(|x| e(&x)));
    }
    for name in o.indexes.iter() {
        match c.get_index_for_name(name) {
            Ok(Some(ix)) => {
                let (a, b) = (ix.get_store(c.get_entry_storage()), c.get_entry_storage().get_entry_store(ix.get_store_id()));
                match (&a, &b) {
                    (Ok(a), Ok(b)) if Arc::ptr_eq(a, b) => {}
                    (Err(_), Err(_)) => {}
                    _ => { out.insert(format!("ix/{name}/store_id"), Obs::Str(format!("not the store of id {}", ix.get_store_id().into_u32()))); }
                }
                observe_index(a, c.get_value_storage(), &ix, &format!("ix/{name}"), o.cap, out)
            }
            Ok(None) => {
                out.insert(format!("ix/{name}"), Obs::None);
            }
            Err(x) => {
                out.insert(format!("ix/{name}"), e(&x));
            }
        }
    }
    for k in 0..o.ixcount.unwrap_or(o.indexes.len() as u32) {
        match dp.get_index(k.into()) {
            Ok(ix) => {
                out.insert(format!("ixn/{k}"), Obs::Str(format!("{}+{}", ix.offset().into_u32(), ix.count().into_u32())));
            }
            Err(x) => {
                out.insert(format!("ixn/{k}"), e(&x));
            }
        }
    }
    // names close to those that exist
    for n in o.indexes.iter().take(8) {
        let mut near = vec![format!("{n}x"), format!("{n}\0"), format!(" {n}"), n.to_uppercase(), n.to_lowercase()];
        if let Some((k, _)) = n.char_indices().last() { near.push(n[..k].into()); near.push(n[n.chars().next().unwrap().len_utf8()..].into()); }
        for m in near {
            if o.indexes.contains(&m) { continue }
            if let Ok(Some(_)) = c.get_index_for_name(&m) { out.insert(format!("ix-unknown/{m}"), Obs::Str("index invented".into())); }
        }
    }
    match c.get_index_for_name("no such index") {
        Ok(None) => {}
        Ok(Some(_)) => { out.insert("ix-unknown".into(), Obs::Str("index invented".into())); }
        Err(x) => { out.insert("ix-unknown".into(), e(&x)); }
    }
    observe_contents(c, o, out);
    if o.check {
        out.insert("#check".into(), c.check().map(Obs::Bool).unwrap_or_else(|x| e(&x)));
    }
}

/// A directory pack alone.
pub fn observe_directory(dp: &Arc<jbk::reader::DirectoryPack>, names: &[String], cap: u32, out: &mut Dump) {
    let es = dp.create_entry_storage();
    let vs = dp.create_value_storage();
    for name in names {
        match dp.get_index_from_name(name) {
            Ok(Some(ix)) => observe_index(ix.get_store(&es), &vs, &ix, &format!("ix/{name}"), cap, out),
            Ok(None) => { out.insert(format!("ix/{name}"), Obs::None); }
            Err(x) => { out.insert(format!("ix/{name}"), e(&x)); }
        }
    }
}

pub fn open_directory(path: &Path) -> Result<Arc<jbk::reader::DirectoryPack>, String> {
    let r = jbk::Reader::from(jbk::FileSource::open(path).map_err(|e| e.to_string())?);
    jbk::reader::DirectoryPack::new(r).map(Arc::new).map_err(|e| format!("{e:?}"))
}

/// The manifest of the file at `path` (header at offset 0 of the file).
pub fn observe_manifest(path: &Path, check: bool) -> Dump {
    let mut out = Dump::new();
    let cp = match jbk::tools::open_pack(path) {
        Ok(c) => c,
        Err(x) => {
            out.insert("m/open".into(), e(&x));
            return out;
        }
    };
    out.insert("m/container_packs".into(), Obs::U(cp.pack_count().into_u16() as u64));
    for k in 0..cp.pack_count().into_u16() {
        let u = cp.get_pack_uuid(jbk::PackId::from(k));
        let (a, b) = (cp.get_pack_reader_from_idx(jbk::PackId::from(k)), cp.get_pack_reader(&u));
        if a.is_none() || b.is_none() || !cp.iter().any(|(v, _)| *v == u) {
            out.insert(format!("m/container/{k}"), Obs::Str(format!("pack {u} is not there")));
        }
    }
    if check {
        out.insert("m#container_check".into(), cp.check().map(Obs::Bool).unwrap_or_else(|x| e(&x)));
    }
    let r = match cp.get_manifest_pack_reader() {
        Ok(Some(r)) => r,
        Ok(None) => {
            out.insert("m/open".into(), Obs::None);
            return out;
        }
        Err(x) => {
            out.insert("m/open".into(), e(&x));
            return out;
        }
    };
    match jbk::reader::ManifestPack::new(r) {
        Ok(m) => observe_manifest_pack(&m, check, &mut out),
        Err(x) => {
            out.insert("m/open".into(), e(&x));
        }
    }
    out
}

pub fn observe_manifest_pack(m: &jbk::reader::ManifestPack, check: bool, out: &mut Dump) {
    use jbk::Pack;
    out.insert("m/open".into(), Obs::Str("ok".into()));
    if m.kind() as u8 != b'm' { out.insert("m/kind".into(), Obs::Str(format!("{:?}", m.kind()))); }
    out.insert("m/uuid".into(), Obs::Str(m.uuid().to_string()));
    out.insert("m/packsize".into(), Obs::U(m.size().into_u64()));
    out.insert("m/free".into(), Obs::A(m.get_free_data().as_ref().to_vec()));
    out.insert("m/count".into(), Obs::U(m.pack_count().into_u16() as u64));
    out.insert("m/max_id".into(), Obs::U(m.max_id() as u64));
    let mut all: Vec<&jbk::reader::PackInfo> = vec![m.get_directory_pack_info()];
    all.extend(m.get_pack_infos().iter());
    for p in all {
        let k = format!("m/{}", p.uuid);
        out.insert(format!("{k}/id"), Obs::U(p.pack_id.into_u16() as u64));
        out.insert(format!("{k}/kind"), Obs::U(p.pack_kind as u8 as u64));
        out.insert(format!("{k}/group"), Obs::U(p.pack_group as u64));
        out.insert(format!("{k}/size"), Obs::U(p.pack_size.into_u64()));
        out.insert(format!("{k}/location"), Obs::Str(p.pack_location.as_str().to_string()));
        out.insert(format!("{k}/checkpos"), Obs::Str(format!("{:?}", p.check_info_pos)));
        out.insert(format!("{k}/freedata"), match m.get_pack_free_data_uuid(p.uuid) {
            Ok(Some(d)) => Obs::A(d.to_vec()),
            Ok(None) => Obs::None,
            Err(x) => e(&x),
        });
        out.insert(format!("{k}/freedata-of-id"), match m.get_pack_free_data(p.pack_id) {
            Ok(Some(d)) => Obs::A(d.to_vec()),
            Ok(None) => Obs::None,
            Err(x) => e(&x),
        });
        out.insert(format!("{k}/checkinfo"), match m.get_pack_check_info(p.uuid) {
            Ok(Some(c)) => Obs::Str(format!("{c:?}")),
            Ok(None) => Obs::None,
            Err(x) => e(&x),
        });
    }
    if check {
        out.insert("m#check".into(), m.check().map(Obs::Bool).unwrap_or_else(|x| e(&x)));
    }
}
