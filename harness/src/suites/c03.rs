//! C03: sorted stores follow the reader's order; lookup finds exactly what was written.

use super::c02::{one_store, plain_entry};
use super::util::*;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use crate::{build, dump};
use jubako as jbk;
use jbk::reader::builder::AnyBuilder;
use jbk::reader::{CompareTrait, EntryTrait, Range as RangeTrait, RawValue};
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every key sequence of the stated alphabets and bounds is written in a sorted store by the real creator; the order read back is compared with the order of the keys, and every probe key is looked up in every window of the store, by binary and by linear search, with the library's comparator and with an independent one; a state is the store reached, a transition one entry added or one lookup",
        assumptions: vec!["binary search is only asked with a comparator consistent with the order of the store"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

type K = Vec<Val>;

fn obs(v: &Val) -> Obs { match v { Val::U(u) => Obs::U(*u), Val::S(i) => Obs::S(*i), Val::WU(u) => Obs::U(*u), Val::WS(i) => Obs::S(*i), Val::A(a) => Obs::A(a.clone()), _ => unreachable!() } }
fn cmp_key(a: &[Val], b: &[Val]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = cmp_val(&obs(x), &obs(y));
        if o.is_ne() { return o }
    }
    Ordering::Equal
}

/// Compares through the values as the reader gives them; watches that the search stays in its window.
struct Own<'a> { any: &'a AnyBuilder, names: &'a [Name], key: &'a [Val], ordered: bool, from: u32, to: u64, out: &'a Cell<Option<u32>> }
impl CompareTrait for Own<'_> {
    fn ordered(&self) -> bool { self.ordered }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        let i = idx.into_u32();
        if i < self.from || i as u64 >= self.to { self.out.set(Some(i)); }
        let e = match jbk::reader::builder::BuilderTrait::create_entry(self.any, idx)? { Some(e) => e, None => { self.out.set(Some(i)); return Ok(Ordering::Less) } };
        for (n, v) in self.names.iter().zip(self.key) {
            let r = e.get_value(n)?.expect("a key property");
            let o = match v {
                Val::U(u) => r.as_unsigned().cmp(u),
                Val::S(s) => r.as_signed().cmp(s),
                Val::A(a) => { let mut b = jbk::SmallBytes::new(); match &r { RawValue::Array(x) => x.resolve_to_vec(&mut b)?, _ => panic!("not an array") }; b[..].cmp(&a[..]) }
                _ => unreachable!(),
            };
            if o.is_ne() { return Ok(o) }
        }
        Ok(Ordering::Equal)
    }
}

/// The library's comparator, declared ordered or not.
struct Lib<C> { inner: C, ordered: bool }
impl<C: CompareTrait> CompareTrait for Lib<C> {
    fn ordered(&self) -> bool { self.ordered }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> { self.inner.compare_entry(idx) }
}

fn jv(v: &Val) -> jbk::Value {
    match v { Val::U(u) => jbk::Value::Unsigned(*u), Val::S(s) => jbk::Value::Signed(*s), Val::A(a) => jbk::Value::Array(a.as_slice().into()), _ => unreachable!() }
}

/// The same keys, given as words.
fn jw(v: &Val) -> jbk::Value {
    match v { Val::U(u) => jbk::Value::UnsignedWord((*u).into()), Val::S(s) => jbk::Value::SignedWord((*s).into()), v => jv(v) }
}

/// Creates, checks order and values, then every probe in every window.
fn check(d: &DirSpec, probes: &[K], windows: &[(u32, u32)], pairs: bool, cx: &Cx) -> Result<(), String> {
    clean(cx.dir);
    cx.states(1);
    let which = d.indexes.iter().find(|i| i.name == "all").unwrap().store;
    let st = &d.estores[which];
    cx.transitions(st.entries.len() as u64 + 1);
    let made = guard(|| build::create_directory_pack(d, cx.dir, "d.jbkd"));
    let (p, h) = match made { Ok(Ok((p, h, _))) => (p, h), Ok(Err(e)) => return Err(format!("creation fails: {e}")), Err(e) => return Err(format!("creation fails: {e}")) };
    let hp = model::Handlepos::of(&h);
    hp.check(d)?;
    let dp = dump::open_directory(&p).map_err(|e| format!("what was created does not open: {e}"))?;
    let mut got = Dump::new();
    dump::observe_directory(&dp, &model::index_names(d), u32::MAX, &mut got);
    cx.traces(1);
    let mut want = Dump::new();
    model::expect_dir(d, &hp, &mut want);
    if let Some(x) = diff(&want, &got, |k| k.starts_with("ix/")) { return Err(format!("written vs read: {x}")); }
    let names = st.sort.clone().unwrap();
    let flat = |v: &Val| match v { Val::RefU(..) => { let Obs::U(u) = model::val(v, &hp) else { unreachable!() }; Val::U(u) } Val::RefS(..) => { let Obs::S(i) = model::val(v, &hp) else { unreachable!() }; Val::S(i) } v => v.clone() };
    let key = |e: &EntrySpec| -> K { names.iter().map(|n| flat(&e.vals.iter().find(|(m, _)| m == n).unwrap().1)).collect() };
    let mut keys: Vec<K> = vec![vec![]; st.entries.len()];
    for (i, pos) in hp.0[which].iter().enumerate() { keys[*pos as usize] = key(&st.entries[i]); }
    for (i, w) in keys.windows(2).enumerate() {
        if cmp_key(&w[0], &w[1]).is_gt() { return Err(format!("entry {i} has key {:?}, the following one {:?}", w[0].iter().map(|v| obs(v).brief()).collect::<Vec<_>>(), w[1].iter().map(|v| obs(v).brief()).collect::<Vec<_>>())) }
    }
    let es = dp.create_entry_storage();
    let vs = dp.create_value_storage();
    let ix = dp.get_index_from_name("all").map_err(|e| format!("{e:?}"))?.ok_or("no index")?;
    let any = AnyBuilder::new(ix.get_store(&es).map_err(|e| format!("{e:?}"))?, vs.as_ref()).map_err(|e| format!("{e:?}"))?;
    if pairs {
        // the reader's own comparison of every stored array with every probe
        for i in 0..keys.len() as u32 {
            let e = ix.get_entry(&any, i.into()).map_err(|e| format!("{e:?}"))?.ok_or("entry")?;
            for (c, n) in names.iter().enumerate() {
                if let RawValue::Array(a) = e.get_value(n).map_err(|e| format!("{e:?}"))?.ok_or("value")? {
                    for p in probes {
                        let Val::A(b) = &p[c] else { unreachable!() };
                        let o = a.cmp(b).map_err(|e| format!("{e:?}"))?;
                        let Val::A(mine) = &keys[i as usize][c] else { unreachable!() };
                        if o != mine.as_slice().cmp(b) { return Err(format!("the reader compares {mine:?} with {b:?} as {o:?}")) }
                        cx.evals(1);
                    }
                }
            }
        }
    }
    let out = Cell::new(None);
    let mut finds = 0;
    for (off, count) in windows {
        let named = d.indexes.iter().find(|i| i.name != "all" && (i.offset, i.count) == (*off, *count));
        let nix = match named { Some(i) => dp.get_index_from_name(&i.name).map_err(|e| format!("{e:?}"))?, None => None };
        let range = jbk::EntryRange::new_from_size(jbk::EntryIdx::from(*off), jbk::EntryCount::from(*count));
        let win = &keys[*off as usize..(*off + *count) as usize];
        for p in probes {
            let there = win.iter().any(|k| cmp_key(k, p).is_eq());
            let words = p.iter().any(|v| !matches!(v, Val::A(_)));
            for mode in 0..if words { 6 } else { 4 } {
                let ordered = mode % 2 == 0;
                let own = Own { any: &any, names: &names, key: p, ordered, from: *off, to: *off as u64 + *count as u64, out: &out };
                let r = if mode < 2 {
                    match &nix { Some(ix) => ix.find(&own), None => range.find(&own) }
                } else {
                    let jv = if mode < 4 { jv } else { jw };
                    let inner = if names.len() == 1 { any.new_property_compare(names[0].to_string(), jv(&p[0])) } else {
                        any.new_multiple_property_compare(names.iter().map(|n| n.to_string()).collect(), p.iter().map(jv).collect()) };
                    let lib = Lib { inner, ordered };
                    match &nix { Some(ix) => ix.find(&lib), None => range.find(&lib) }
                };
                finds += 1;
                let how = format!("{} search for {:?} in {off}+{count}", if ordered { "binary" } else { "linear" }, p.iter().map(|v| obs(v).brief()).collect::<Vec<_>>());
                if let Some(i) = out.get() { return Err(format!("{how}: compares entry {i}, outside of the window")) }
                match r.map_err(|e| format!("{how}: {e:?}"))? {
                    None if there => return Err(format!("{how}: nothing found though the key was written")),
                    None => {}
                    Some(i) => {
                        let Some(k) = win.get(i.into_u32() as usize) else { return Err(format!("{how}: position {} given", i.into_u32())) };
                        if cmp_key(k, p).is_ne() { return Err(format!("{how}: an entry with another key is given ({})", i.into_u32())) }
                    }
                }
            }
        }
    }
    cx.transitions(finds);
    cx.evals(finds);
    Ok(())
}

fn all_windows(n: u32) -> Vec<(u32, u32)> {
    (0..=n).flat_map(|o| (0..=n - o).map(move |c| (o, c))).collect()
}

fn space(name: &str, n: u64, mk: impl Fn(u64) -> (DirSpec, Vec<K>, Vec<(u32, u32)>, bool) + Send + Sync + Clone + 'static) -> Space {
    let mk2 = mk.clone();
    Space::new(name, n, move |i, cx| {
        let (d, p, w, pairs) = mk(i);
        cx.outcome(&format!("{i}"));
        cx.sample(|| format!("{} | {} probes x {} windows", brief_dir(&d), p.len(), w.len()));
        check(&d, &p, &w, pairs, cx)
    })
    .desc(move |i| brief_dir(&mk2(i).0))
}

const KEYS: [&[u8]; 13] = [b"", b"\0", b"\0\0", b"a", b"a\0", b"ab", b"abc", b"abcd", b"abd", b"b", b"\xff", b"\xff\xff", b"ab\xff"];
const ABSENT: [&[u8]; 8] = [b"\0\0\0", b"a\x01", b"ab\0", b"abce", b"ac", b"\x7f", b"\xff\0", b"\xff\xff\xff"];
const PRE: [usize; 6] = [0, 1, 2, 3, 4, 31];

fn kprobes() -> Vec<K> { KEYS.iter().chain(ABSENT.iter()).map(|k| vec![Val::A(k.to_vec())]).collect() }

/// Windows of a directory, plus a named index for each when few.
fn windowed(mut d: DirSpec, n: u32) -> (DirSpec, Vec<(u32, u32)>) {
    let w = all_windows(n);
    for (k, (o, c)) in w.iter().enumerate().filter(|(k, _)| k % 2 == 0).take(100) {
        d.indexes.push(IndexSpec { name: format!("w{k}"), store: 0, offset: *o, count: *c, offset_of: None });
    }
    (d, w)
}

fn arrays(t: Tier) -> Vec<Space> {
    let na = KEYS.len() as u64;
    let k = if t == Tier::Quick { 3 } else { 4 };
    let n = seq_count(na, k);
    let radix = [PRE.len() as u64, 2, n];
    let a = space("arrays", radix.iter().product(), move |i| {
        let d = mixed(i, &radix);
        let s = seq(d[2], na, k);
        let e: Vec<EntrySpec> = s.iter().map(|x| plain_entry(vec![("a", Val::A(KEYS[*x as usize].to_vec()))])).collect();
        let m = e.len() as u32;
        let (d, w) = windowed(one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(PRE[d[0] as usize], 0, "a")], entries: e, sort: Some(vec!["a"]), ..Default::default() }), m);
        (d, kprobes(), w, true)
    });
    // every subset of the keys, in two insertion orders: larger stores
    let radix2 = [PRE.len() as u64, 2, 1 << na, 2];
    let stride = if t == Tier::Quick { 5 } else { 1 };
    let b = space("array-subsets", radix2.iter().product::<u64>() / stride, move |i| {
        let d = mixed(i * stride, &radix2);
        let mut s: Vec<&[u8]> = (0..na as usize).filter(|x| d[2] >> x & 1 == 1).map(|x| KEYS[x]).collect();
        if d[3] == 1 { s.reverse(); }
        let e: Vec<EntrySpec> = s.iter().map(|x| plain_entry(vec![("a", Val::A(x.to_vec()))])).collect();
        let m = e.len() as u32;
        let d = one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(PRE[d[0] as usize], 0, "a")], entries: e, sort: Some(vec!["a"]), ..Default::default() });
        let w = vec![(0, m), (0, m.saturating_sub(1)), (m.min(1), m - m.min(1)), (m / 2, m - m / 2)];
        (d, kprobes(), w, false)
    });
    // a second column shares the value store of the key, before or after it, with values between those of the keys
    let words: [&[u8]; 5] = [b"", b"a", b"ab", b"abc", b"b"];
    let (nw, pr) = (words.len() as u64, [0usize, 1, 2, 3]);
    let radix3 = [4, 4, 2, 2, seq_count(nw * nw, 2)];
    let c = space("shared-store", radix3.iter().product(), move |i| {
        let d = mixed(i, &radix3);
        let s = seq(d[4], nw * nw, 2);
        let e: Vec<EntrySpec> = s.iter().map(|x| plain_entry(vec![
            ("k", Val::A(words[(x % nw) as usize].to_vec())), ("o", Val::A([words[(x / nw) as usize], b"a"].concat()))])).collect();
        let (ck, co) = (Col::A(pr[d[0] as usize], 0, "k"), Col::A(pr[d[1] as usize], 0, "o"));
        let m = e.len() as u32;
        let d = one_store(vec![d[2] == 1], EStoreSpec { common: if d[3] == 0 { vec![ck, co] } else { vec![co, ck] }, entries: e, sort: Some(vec!["k"]), ..Default::default() });
        (d, kprobes(), all_windows(m), false)
    });
    // keys around the widths of lengths and value ids
    let lens: &'static [usize] = if t == Tier::Quick { &[0, 1, 31, 32, 255, 256, 65536] } else { &[0, 1, 30, 31, 32, 255, 256, 257, 65535, 65536, 65537] };
    let radix4 = [PRE.len() as u64, 2, lens.len() as u64, lens.len() as u64, 4];
    let l = space("long-keys", radix4.iter().product(), move |i| {
        let d = mixed(i, &radix4);
        // the second key: same bytes / last byte differs / first differs / unrelated
        let x = bytes(2, lens[d[2] as usize], 5);
        let mut y = bytes(2, lens[d[3] as usize], if d[4] == 3 { 6 } else { 5 });
        if d[4] == 1 { if let Some(l) = y.last_mut() { *l ^= 0x80; } }
        if d[4] == 2 { if let Some(l) = y.first_mut() { *l ^= 1; } }
        let mut z = x.clone();
        z.push(0);
        let probes = [&x, &y, &z].iter().map(|k| vec![Val::A(k.to_vec())]).chain([vec![Val::A(vec![])]]).collect();
        let e = [&y, &x].iter().map(|k| plain_entry(vec![("a", Val::A(k.to_vec()))])).collect();
        let d = one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(PRE[d[0] as usize], 0, "a")], entries: e, sort: Some(vec!["a"]), ..Default::default() });
        (d, probes, all_windows(2), true)
    });
    vec![a, b, c, l]
}

fn ints(t: Tier) -> Vec<Space> {
    let mut u = vec![0u64, 1, 127, 128, 255, 256, 65535, 65536];
    u.extend([1 << 24, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX, i64::MAX as u64]);
    let s: Vec<i64> = vec![0, 1, -1, 127, 128, -128, -129, 255, -256, 32767, -32768, -32769, 1 << 31, -(1 << 31), i64::MAX, i64::MIN];
    let k = if t == Tier::Quick { 3 } else { 4 };
    let (nu, ns) = (u.len() as u64, s.len() as u64);
    let a = space("unsigned-keys", seq_count(nu, k), move |i| {
        let e: Vec<EntrySpec> = seq(i, nu, k).iter().map(|x| plain_entry(vec![("n", Val::U(u[*x as usize]))])).collect();
        let m = e.len() as u32;
        let probes = u.iter().flat_map(|x| [*x, x.wrapping_add(1)]).map(|x| vec![Val::U(x)]).collect();
        let (d, w) = windowed(one_store(vec![], EStoreSpec { common: vec![Col::U("n")], entries: e, sort: Some(vec!["n"]), ..Default::default() }), m);
        (d, probes, w, false)
    });
    let b = space("signed-keys", seq_count(ns, k), move |i| {
        let e: Vec<EntrySpec> = seq(i, ns, k).iter().map(|x| plain_entry(vec![("n", Val::S(s[*x as usize]))])).collect();
        let m = e.len() as u32;
        let probes = s.iter().flat_map(|x| [*x, x.wrapping_sub(1)]).map(|x| vec![Val::S(x)]).collect();
        let (d, w) = windowed(one_store(vec![], EStoreSpec { common: vec![Col::S("n")], entries: e, sort: Some(vec!["n"]), ..Default::default() }), m);
        (d, probes, w, false)
    });
    // plain numbers and words in one key column
    let x = [0u64, 1, 255, 256, 1 << 63];
    let y = [0i64, -1, 1, -129, i64::MIN];
    let n = seq_count(10, k);
    let c = space("words-among-plain-keys", n * 2, move |i| {
        let signed = i % 2 == 1;
        let e: Vec<EntrySpec> = seq(i / 2, 10, k).iter().map(|j| {
            let (w, j) = (*j % 2 == 1, *j as usize / 2);
            plain_entry(vec![("n", match (signed, w) { (false, false) => Val::U(x[j]), (false, true) => Val::WU(x[j]), (true, false) => Val::S(y[j]), _ => Val::WS(y[j]) })])
        }).collect();
        let m = e.len() as u32;
        let probes = (0..5).map(|j| vec![if signed { Val::S(y[j]) } else { Val::U(x[j]) }]).chain([vec![if signed { Val::S(5) } else { Val::U(5) }]]).collect();
        let (d, w) = windowed(one_store(vec![], EStoreSpec { common: vec![if signed { Col::S("n") } else { Col::U("n") }], entries: e, sort: Some(vec!["n"]), ..Default::default() }), m);
        (d, probes, w, false)
    });
    vec![a, b, c]
}

/// Several keys, with ties on the first ones; the key columns among others; variants.
fn several(t: Tier) -> Vec<Space> {
    let w: [&[u8]; 4] = [b"", b"a", b"ab", b"b"];
    let sym = 4 * 3;
    let k = if t == Tier::Quick { 3 } else { 4 };
    let sorts: [&[Name]; 6] = [&["a", "n"], &["n", "a"], &["a"], &["n"], &["s", "a"], &["n", "s", "a"]];
    let radix = [sorts.len() as u64, 3, 2, 2, seq_count(sym, k)];
    let a = space("several-keys", radix.iter().product(), move |i| {
        let d = mixed(i, &radix);
        let names = sorts[d[0] as usize];
        let mk = |x: u64| -> Vec<(Name, Val)> { vec![("a", Val::A(w[(x % 4) as usize].to_vec())), ("n", Val::U([0, 1, 256][(x / 4) as usize])), ("s", Val::S([1, -1, 0][(x / 4) as usize]))] };
        let e: Vec<EntrySpec> = seq(d[4], sym, k).iter().enumerate().map(|(j, x)| {
            let mut v = mk(*x);
            let variant = if d[3] == 1 { v.push((if j % 2 == 0 { "p" } else { "q" }, Val::U(j as u64))); Some(j % 2) } else { None };
            EntrySpec { variant, vals: v }
        }).collect();
        let m = e.len() as u32;
        let probes = (0..sym).map(|x| names.iter().map(|n| mk(x).into_iter().find(|(o, _)| o == n).unwrap().1).collect()).collect();
        let variants = if d[3] == 1 { vec![("P", vec![Col::U("p")]), ("Q", vec![Col::U("q")])] } else { vec![] };
        let d = one_store(vec![d[2] == 1], EStoreSpec { common: vec![Col::S("s"), Col::A([0, 1, 2][d[1] as usize], 0, "a"), Col::U("n")], variants, entries: e, sort: Some(names.to_vec()) });
        (d, probes, vec![(0, m), (m / 2, m - m / 2)], false)
    });
    vec![a]
}

/// Thousands of keys, of several shapes; every key and its neighbours are looked up.
fn large(t: Tier) -> Space {
    let ns: &'static [u64] = if t == Tier::Quick { &[100, 256, 257, 1023, 1024, 1025, 3000] } else { &[100, 256, 257, 1023, 1024, 1025, 3000, 20_000, 70_000] };
    let radix = [ns.len() as u64, 2, 4, 6];
    space("large", radix.iter().product(), move |i| {
        let d = mixed(i, &radix);
        let n = ns[d[0] as usize];
        let p = [0, 2, 5, 31][d[2] as usize];
        let key = |j: u64| -> Vec<u8> {
            match d[3] {
                0 => format!("{:06}", j * 2).into_bytes(),
                1 => format!("{}", j * 2).into_bytes(),
                2 => { let mut b = b"common".to_vec(); b.extend(bytes(2, 4, j * 2)); b }
                3 => vec![(j * 2 % 256) as u8; (j * 2 / 256) as usize],
                4 => bytes(2, 1 + (j % 3) as usize, j * 2 / 3),
                _ => (j as u32 * 2).to_le_bytes()[..3].to_vec(),
            }
        };
        // a fixed permutation
        let e: Vec<EntrySpec> = (0..n).map(|j| plain_entry(vec![("a", Val::A(key((j * 7919 + 13) % n))), ("n", Val::U(j))])).collect();
        let step = (n / 40).max(1);
        let probes: Vec<K> = (0..n).step_by(step as usize).flat_map(|j| {
            let k = key(j);
            let mut after = k.clone(); after.push(0);
            let mut before = k.clone(); before.pop();
            [k, after, before]
        }).map(|k| vec![Val::A(k)]).collect();
        let m = n as u32;
        // (the description of an indexed store cannot exceed 64 KiB)
        let mut d = one_store(vec![d[1] == 1 && n <= 20_000], EStoreSpec { common: vec![Col::A(p, 0, "a"), Col::U("n")], entries: e, sort: Some(vec!["a"]), ..Default::default() });
        d.indexes.push(IndexSpec { name: "mid".into(), store: 0, offset: m / 3, count: m / 3, offset_of: None });
        (d, probes, vec![(0, m), (m / 3, m / 3)], false)
    })
    .horizon(600)
}

/// The search alone, on ranges whose entries are a function of their position.
struct Mock<'a> { f: &'a dyn Fn(u32) -> u64, key: u64, ordered: bool, from: u32, to: u64, bad: &'a Cell<Option<u32>>, calls: &'a Cell<u64> }
impl CompareTrait for Mock<'_> {
    fn ordered(&self) -> bool { self.ordered }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        let i = idx.into_u32();
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 10_000_000 { panic!("the search does not end") }
        if i < self.from || i as u64 >= self.to { self.bad.set(Some(i)); return Ok(Ordering::Less) }
        Ok((self.f)(i).cmp(&self.key))
    }
}
struct Win(u32, u32);
impl RangeTrait for Win {
    fn count(&self) -> jbk::EntryCount { self.1.into() }
    fn offset(&self) -> jbk::EntryIdx { self.0.into() }
}

fn find1(off: u32, count: u32, f: &dyn Fn(u32) -> u64, key: u64, there: bool, linear: bool, cx: &Cx) -> Result<(), String> {
    let (bad, calls) = (Cell::new(None), Cell::new(0));
    for mode in 0..if linear { 4 } else { 2 } {
        let ordered = mode < 2;
        calls.set(0);
        let m = Mock { f, key, ordered, from: off, to: off as u64 + count as u64, bad: &bad, calls: &calls };
        let r = if mode % 2 == 0 { Win(off, count).find(&m) } else { jbk::EntryRange::new_from_size(jbk::EntryIdx::from(off), jbk::EntryCount::from(count)).find(&m) };
        cx.evals(1);
        let how = format!("{} search of {key} in {off}+{count}", if ordered { "binary" } else { "linear" });
        if let Some(b) = bad.get() { return Err(format!("{how}: looks at {b}, outside of the range")) }
        match r.map_err(|e| format!("{how}: {e:?}"))? {
            None if there => return Err(format!("{how}: not found")),
            Some(i) if i.into_u32() >= count || f(off + i.into_u32()) != key => return Err(format!("{how}: position {}", i.into_u32())),
            _ => {}
        }
    }
    Ok(())
}

fn search(t: Tier) -> Vec<Space> {
    // every non-decreasing sequence of n values below m, as a multiset
    let (n, m) = if t == Tier::Quick { (8u32, 6u64) } else { (12, 7) };
    let mut seqs: Vec<Vec<u64>> = vec![];
    fn rec(v: &mut Vec<u64>, m: u64, n: u32, out: &mut Vec<Vec<u64>>) {
        out.push(v.clone());
        if v.len() as u32 == n { return }
        for x in v.last().copied().unwrap_or(0)..m { v.push(x); rec(v, m, n, out); v.pop(); }
    }
    rec(&mut vec![], m, n, &mut seqs);
    let seqs = Arc::new(seqs);
    let total = seqs.len() as u64;
    let s2 = Arc::clone(&seqs);
    let a = Space::new("search-sequences", total, move |i, cx| {
        let s = &seqs[i as usize];
        cx.outcome(&format!("{i}"));
        cx.states(1);
        cx.traces(1);
        for off in [0u32, 1, 5, u32::MAX - s.len() as u32 - 1] {
            let f = |x: u32| s[(x - off) as usize] * 2 + 1;
            for key in 0..=2 * m {
                cx.transitions(1);
                find1(off, s.len() as u32, &f, key, s.iter().any(|v| v * 2 + 1 == key), true, cx)?;
            }
        }
        Ok(())
    }).desc(move |i| format!("the sequence {:?}", s2[i as usize]));
    // distinct keys: every length up to a bound, every probe
    let nl = if t == Tier::Quick { 200u64 } else { 600 };
    let b = Space::new("search-lengths", nl, move |i, cx| {
        let n = i as u32;
        cx.outcome(&format!("{i}"));
        cx.states(1);
        for off in [0, 7] {
            for key in 0..=2 * i + 1 {
                cx.transitions(1);
                find1(off, n, &|x| ((x - off) as u64) * 2 + 1, key, key % 2 == 1 && key / 2 < i, true, cx)?;
            }
        }
        Ok(())
    }).desc(|i| format!("{i} distinct keys"));
    // very large ranges, up to the last entry an index can have
    let c: Vec<u32> = vec![65535, 65536, 65537, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 2, u32::MAX - 1, u32::MAX];
    let nc = c.len() as u64;
    let big = Space::new("search-large", nc * 3, move |i, cx| {
        let n = c[(i % nc) as usize];
        let off = [0, (u32::MAX - n).min(3), u32::MAX - n][(i / nc) as usize];
        cx.outcome(&format!("{i}"));
        cx.states(1);
        let mut keys: Vec<u64> = vec![];
        for e in 0..64 { let x = 1u64 << e; for d in [x.wrapping_sub(1), x, x + 1] { if d <= 2 * n as u64 + 2 { keys.push(d); } } }
        keys.extend([0, n as u64, 2 * n as u64 - 1, 2 * n as u64 + 1, n as u64 / 3 * 2 + 1]);
        for k in keys {
            cx.transitions(1);
            find1(off, n, &|x| ((x - off) as u64) * 2 + 1, k, k % 2 == 1 && k / 2 < n as u64, n < 70_000, cx)?;
        }
        Ok(())
    }).desc(|i| format!("large range {i}"));
    vec![a, b, big]
}

/// Sorted on the positions of the entries of another store, itself sorted, created before or after.
fn references(_t: Tier) -> Space {
    // references, key order of the other store, which one is first, signed, key order of the store
    let radix = [27, 6, 2, 2, 6];
    const PERMS: [[u64; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    space("references", radix.iter().product(), move |i| {
        let d = mixed(i, &radix);
        let f = [d[0] % 3, d[0] / 3 % 3, d[0] / 9];
        let (p, p2, sg) = (PERMS[d[1] as usize], PERMS[d[4] as usize], d[3] == 1);
        let (me, other) = if d[2] == 0 { (0, 1) } else { (1, 0) };
        let a = EStoreSpec { common: vec![if sg { Col::S("r") } else { Col::U("r") }, Col::U("k")], sort: Some(vec!["r", "k"]),
            entries: (0..3).map(|j| plain_entry(vec![("r", if sg { Val::RefS(other, f[j] as usize) } else { Val::RefU(other, f[j] as usize) }), ("k", Val::U(p2[j]))])).collect(), ..Default::default() };
        let b = EStoreSpec { common: vec![Col::U("k")], sort: Some(vec!["k"]), entries: (0..3).map(|j| plain_entry(vec![("k", Val::U(p[j]))])).collect(), ..Default::default() };
        let w = all_windows(3);
        let indexes = w.iter().enumerate().map(|(n, (o, c))| IndexSpec { name: if (*o, *c) == (0, 3) { "all".into() } else { format!("w{n}") }, store: me, offset: *o, count: *c, offset_of: None }).collect();
        let d = DirSpec { vstores: vec![], estores: if me == 0 { vec![a, b] } else { vec![b, a] }, indexes };
        let probes = (0..4u64).flat_map(|r| (0..4u64).map(move |k| vec![if sg { Val::S(r as i64) } else { Val::U(r) }, Val::U(k)])).collect();
        (d, probes, w, false)
    })
}

fn spaces(t: Tier, _dir: &std::path::Path) -> Vec<Space> {
    let mut v = search(t);
    v.push(references(t));
    v.extend(arrays(t));
    v.extend(ints(t));
    v.extend(several(t));
    v.push(large(t));
    v
}
