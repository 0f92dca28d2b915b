//! C15: references between entries resolve to the referenced entry's final position.

use super::util::*;
use crate::infra::*;
use crate::model;
use crate::spec::*;
use jubako as jbk;
use jubako::creator;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every reference function on the entries x every order of their keys of the stated bounds is created with deferred values; each reference read back is compared with the position at which the referenced entry is found, and with the handle of that entry; a state is the directory reached, a transition one entry added or the finalisation",
        assumptions: vec!["a store sorted on references to its own entries may be refused, as not every such graph has a fixed point; it is never stored wrong"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

/// Round trip (values, references and handles), and the order of every sorted store.
fn check(d: &DirSpec, cx: &Cx, may_fail: bool) -> Result<(), String> {
    cx.states(1);
    cx.transitions(d.estores.iter().map(|e| e.entries.len() as u64).sum::<u64>() + 1);
    let Some((hp, got)) = dir_dump(d, cx, may_fail)? else { return Ok(()) };
    cx.traces(1);
    let mut want = Dump::new();
    model::expect_dir(d, &hp, &mut want);
    if let Some(x) = diff(&want, &got, |k| k.starts_with("ix/")) { return Err(format!("written vs read: {x}")) }
    for (s, st) in d.estores.iter().enumerate() {
        let Some(names) = &st.sort else { continue };
        let mut at = vec![usize::MAX; st.entries.len()];
        for (i, p) in hp.0[s].iter().enumerate() { at[*p as usize] = i; }
        let key = |i: usize| -> Vec<Obs> { names.iter().map(|n| model::val(&st.entries[i].vals.iter().find(|(m, _)| m == n).unwrap().1, &hp)).collect() };
        for w in at.windows(2) {
            let (a, b) = (key(w[0]), key(w[1]));
            let o = a.iter().zip(&b).map(|(x, y)| cmp_val(x, y)).find(|o| o.is_ne());
            if o == Some(std::cmp::Ordering::Greater) { return Err(format!("store {s} is not sorted: {a:?} before {b:?}")) }
        }
    }
    Ok(())
}

fn space(name: &str, n: u64, may_fail: bool, mk: impl Fn(u64) -> DirSpec + Send + Sync + Clone + 'static) -> Space {
    let mk2 = mk.clone();
    Space::new(name, n, move |i, cx| {
        let d = mk(i);
        cx.outcome(&format!("{i}"));
        cx.sample(|| brief_dir(&d));
        check(&d, cx, may_fail)
    })
    .desc(move |i| brief_dir(&mk2(i)))
    .horizon(300)
}

fn fact(n: u64) -> u64 { (1..=n).product() }
/// The `k`-th permutation of 0..n.
fn perm(n: u64, mut k: u64) -> Vec<u64> {
    let mut pool: Vec<u64> = (0..n).collect();
    (0..n).map(|i| { let f = fact(n - 1 - i); let x = (k / f) as usize; k %= f; pool.remove(x) }).collect()
}
fn function(n: u64, mut k: u64) -> Vec<usize> { (0..n).map(|_| { let x = (k % n) as usize; k /= n; x }).collect() }

fn indexes(d: &mut DirSpec) {
    for (s, st) in d.estores.iter().enumerate() {
        d.indexes.push(IndexSpec { name: format!("i{s}"), store: s, offset: 0, count: st.entries.len() as u32, offset_of: None });
        if !st.entries.is_empty() {
            // and one that starts at an entry given by its handle
            d.indexes.push(IndexSpec { name: format!("h{s}"), store: s, offset: 0, count: 1, offset_of: Some(0) });
        }
    }
}

fn r(signed: bool, s: usize, i: usize) -> Val { if signed { Val::RefS(s, i) } else { Val::RefU(s, i) } }
fn rcol(signed: bool, n: Name) -> Col { if signed { Col::S(n) } else { Col::U(n) } }
/// Key column: integer, array with or without inline part.
fn kcol(k: u64) -> Col { match k { 0 => Col::U("k"), 1 => Col::A(0, 0, "k"), _ => Col::A(1, 0, "k") } }
fn kval(k: u64, x: u64) -> Val { match k { 0 => Val::U(x * 100), _ => Val::A(format!("k{}", (b'a' + x as u8) as char).into_bytes()) } }

fn graphs(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let max = if t == Tier::Quick { 4 } else { 5 };
    for n in 1..=max {
        // function x key order x sorted x signed x key kind
        let radix = [(n as u64).pow(n as u32), fact(n), 2, 2, 3];
        v.push(space(&format!("graphs-of-{n}"), radix.iter().product(), false, move |i| {
            let d = mixed(i, &radix);
            let (f, p, sg, kk) = (function(n, d[0]), perm(n, d[1]), d[3] == 1, d[4]);
            let entries = (0..n as usize).map(|j| EntrySpec { variant: None, vals: vec![("k", kval(kk, p[j])), ("r", r(sg, 0, f[j])), ("id", Val::U(j as u64))] }).collect();
            let mut d = DirSpec { vstores: vec![kk == 1], estores: vec![EStoreSpec { common: vec![Col::U("id"), rcol(sg, "r"), kcol(kk)], variants: vec![], sort: if d[2] == 1 { Some(vec!["k"]) } else { None }, entries }], indexes: vec![] };
            indexes(&mut d);
            d
        }));
    }
    // keys with ties: any key function too
    let n = 3u64;
    let radix = [27, 27, 27, 2];
    v.push(space("ties-and-two-references", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let (f, g, key, sg) = (function(n, d[0]), function(n, d[1]), function(n, d[2]), d[3] == 1);
        let entries = (0..n as usize).map(|j| EntrySpec { variant: Some(j % 2), vals: vec![("k", Val::U(key[j] as u64)), ("r", r(sg, 0, f[j])), ("q", r(!sg, 0, g[j])), ("id", Val::U(j as u64))] }).collect();
        let mut d = DirSpec { vstores: vec![], estores: vec![EStoreSpec { common: vec![Col::U("k"), rcol(sg, "r")], variants: vec![("A", vec![rcol(!sg, "q"), Col::U("id")]), ("B", vec![Col::U("id"), rcol(!sg, "q")])], sort: Some(vec!["k"]), entries }], indexes: vec![] };
        indexes(&mut d);
        d
    }));
    v
}

/// Two stores: each entry of each store refers to an entry of either.
fn two_stores(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let (na, nb) = if t == Tier::Quick { (2u64, 3u64) } else { (3, 3) };
    // reference functions into (own or other) store, key orders, which stores are sorted
    let radix = [(na + nb).pow(na as u32), (na + nb).pow(nb as u32), fact(na), fact(nb), 4];
    v.push(space("two-stores", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let func = |n: u64, mut k: u64| -> Vec<(usize, usize)> { (0..n).map(|_| { let x = k % (na + nb); k /= na + nb; if x < na { (0, x as usize) } else { (1, (x - na) as usize) } }).collect() };
        let fs = [func(na, d[0]), func(nb, d[1])];
        let ps = [perm(na, d[2]), perm(nb, d[3])];
        let estores = (0..2).map(|s| EStoreSpec {
            common: vec![Col::U("id"), Col::U("r"), Col::A(1, 0, "k")],
            variants: vec![],
            sort: if d[4] >> s & 1 == 1 { Some(vec!["k"]) } else { None },
            entries: fs[s].iter().enumerate().map(|(j, (ts, ti))| EntrySpec { variant: None, vals: vec![("id", Val::U(j as u64)), ("r", Val::RefU(*ts, *ti)), ("k", kval(1, ps[s][j]))] }).collect(),
        }).collect();
        let mut d = DirSpec { vstores: vec![false], estores, indexes: vec![] };
        indexes(&mut d);
        d
    }));
    // sorted on a reference into the other store (which is itself sorted), before or after it
    let radix = [27, 6, 2, 2, 6];
    v.push(space("sorted-on-references-into-another-store", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let (f, p, p2) = (function(3, d[0]), perm(3, d[1]), perm(3, d[4]));
        let (me, other) = if d[2] == 0 { (0, 1) } else { (1, 0) };
        let sg = d[3] == 1;
        let a = EStoreSpec { common: vec![rcol(sg, "r"), Col::U("k")], variants: vec![], sort: Some(vec!["r", "k"]),
            entries: (0..3).map(|j| EntrySpec { variant: None, vals: vec![("r", r(sg, other, f[j])), ("k", Val::U(p2[j]))] }).collect() };
        let b = EStoreSpec { common: vec![Col::U("k"), Col::U("back")], variants: vec![], sort: Some(vec!["k"]),
            entries: (0..3).map(|j| EntrySpec { variant: None, vals: vec![("k", Val::U(p[j])), ("back", Val::RefU(me, j))] }).collect() };
        let mut d = DirSpec { vstores: vec![], estores: if me == 0 { vec![a, b] } else { vec![b, a] }, indexes: vec![] };
        indexes(&mut d);
        d
    }));
    v
}

/// Sorted on references to the store's own entries (a tree sorted by parent then name).
fn own_sorted(t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let max = if t == Tier::Quick { 4 } else { 5 };
    for n in 2..=max {
        let radix = [(n as u64).pow(n as u32), fact(n), 2];
        v.push(space(&format!("sorted-on-own-references-{n}"), radix.iter().product(), true, move |i| {
            let d = mixed(i, &radix);
            let (f, p) = (function(n, d[0]), perm(n, d[1]));
            let entries = (0..n as usize).map(|j| EntrySpec { variant: None, vals: vec![("k", Val::U(p[j])), ("r", Val::RefU(0, f[j]))] }).collect();
            let mut d = DirSpec { vstores: vec![], estores: vec![EStoreSpec { common: vec![Col::U("r"), Col::U("k")], variants: vec![], sort: Some(if d[2] == 0 { vec!["r", "k"] } else { vec!["k", "r"] }), entries }], indexes: vec![] };
            indexes(&mut d);
            d
        }));
    }
    v
}

/// Every tree of n entries whose parents come before (a breadth-first order exists): must be accepted.
fn trees(t: Tier) -> Space {
    let n = if t == Tier::Quick { 5u64 } else { 6 };
    let total = fact(n - 1) * fact(n);
    space("trees-sorted-by-parent", total, false, move |i| {
        let (f, p) = (i % fact(n - 1), perm(n, i / fact(n - 1)));
        let mut k = f;
        // entry j refers to one before it; entry 0 to itself
        let par: Vec<usize> = (0..n as usize).map(|j| { if j == 0 { 0 } else { let x = (k % j as u64) as usize; k /= j as u64; x } }).collect();
        let entries = (0..n as usize).map(|j| EntrySpec { variant: None, vals: vec![("k", Val::U(if j == 0 { 0 } else { 1 + p[j] })), ("r", Val::RefU(0, par[j]))] }).collect();
        let mut d = DirSpec { vstores: vec![], estores: vec![EStoreSpec { common: vec![Col::U("r"), Col::U("k")], variants: vec![], sort: Some(vec!["r", "k"]), entries }], indexes: vec![] };
        indexes(&mut d);
        d
    })
}

fn large(t: Tier) -> Space {
    let ns: &'static [usize] = if t == Tier::Quick { &[255, 256, 257, 1000, 4097, 65536, 65537] } else { &[254, 255, 256, 257, 258, 1000, 4097, 20_000, 65535, 65536, 65537, 65538, 200_000, 500_000] };
    // size x graph x key order x signed
    let radix = [ns.len() as u64, 10, 5, 2];
    space("large", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let n = ns[d[0] as usize];
        let sg = d[3] == 1;
        let h = |j: usize| (j as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 20;
        let target = |j: usize| -> usize {
            match d[1] { 0 => j, 1 => (j + 1) % n, 2 => (j + n - 1) % n, 3 => n - 1 - j, 4 => 0, 5 => n - 1, 6 => (h(j) % n as u64) as usize, 7 => j / 2, 8 => (j * 2).min(n - 1), _ => n / 2 }
        };
        let key = |j: usize| -> u64 {
            match d[2] { 0 => j as u64, 1 => (n - j) as u64, 2 => h(j), 3 => (j as u64 * 2654435761) % 1009, _ => 0 }
        };
        let sort = if d[2] == 4 { None } else { Some(vec!["k", "id"]) };
        let entries = (0..n).map(|j| EntrySpec { variant: None, vals: vec![("k", Val::U(key(j))), ("r", r(sg, 0, target(j))), ("id", Val::U(j as u64))] }).collect();
        let mut d = DirSpec { vstores: vec![], estores: vec![EStoreSpec { common: vec![Col::U("k"), rcol(sg, "r"), Col::U("id")], variants: vec![], sort, entries }], indexes: vec![] };
        indexes(&mut d);
        d
    })
}

/// Too many entries for the general representation: columns id (which entry it is), r (a reference), k (the key).
fn million(t: Tier) -> Space {
    let ns: &'static [usize] = if t == Tier::Quick { &[1_048_575, 1_100_000] } else { &[(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1_500_000, 2_097_153, 3_000_000] };
    let radix = [ns.len() as u64, 2, 2];
    let run = move |i: u64, cx: &Cx| -> Result<(), String> {
        use jbk::reader::{builder, EntryTrait, Range};
        let c = mixed(i, &radix);
        let n = ns[c[0] as usize];
        let target = |j: usize| if c[1] == 0 { n - 1 - j } else { (((j as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 20) % n as u64) as usize };
        let key = |j: usize| if c[2] == 0 { 0 } else { (j as u64 * 2654435761) % 1_000_003 };
        let order = if c[2] == 0 { None } else { Some(vec!["k", "id"]) };
        cx.states(1);
        cx.transitions(n as u64 + 1);
        cx.outcome(&format!("{i}"));
        clean(cx.dir);
        let sc: creator::schema::Schema<Name, Name> = creator::schema::Schema::new(
            creator::schema::CommonProperties::new(["id", "r", "k"].iter().map(|n| creator::schema::Property::new_uint(*n)).collect()), vec![], order);
        let mut st = creator::EntryStore::new(sc, Some(n));
        let vows: Vec<jbk::Vow<jbk::EntryIdx>> = (0..n).map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect();
        let bounds: Vec<_> = vows.iter().map(|v| v.bind()).collect();
        for (j, vow) in vows.into_iter().enumerate() {
            let m = std::collections::HashMap::from([("id", jbk::Value::Unsigned(j as u64)), ("r", jbk::Value::UnsignedWord(bounds[target(j)].clone().into())), ("k", jbk::Value::Unsigned(key(j)))]);
            let e = creator::BasicEntry::new_from_schema_idx(&st.schema, vow, None, m);
            st.add_entry(e);
        }
        let p = cx.dir.join("d.jbkd");
        guard(|| -> Result<(), String> {
            let mut dp = creator::DirectoryPackCreator::new(jbk::PackId::from(0), crate::build::vendor(), Default::default());
            let es = dp.add_entry_store(Box::new(st));
            dp.create_index("i", [0u8, 0, 0, 0].into(), 0.into(), es, jbk::EntryCount::from(n as u32), jbk::EntryIdx::from(0).into());
            let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).map_err(|e| e.to_string())?;
            dp.finalize().map_err(|e| e.to_string())?.write(&mut f).map_err(|e| e.to_string())?;
            Ok(())
        })?.map_err(|e| format!("creation fails: {e}"))?;
        let dp = crate::dump::open_directory(&p)?;
        cx.traces(1);
        let er = |e: jbk::Error| format!("reading fails: {e:?}");
        let ix = dp.get_index_from_name("i").map_err(er)?.ok_or("no index")?;
        let any = builder::AnyBuilder::new(ix.get_store(dp.create_entry_storage().as_ref()).map_err(er)?, dp.create_value_storage().as_ref()).map_err(er)?;
        let mut got = Vec::with_capacity(n);
        for j in 0..n {
            let e = ix.get_entry(&any, jbk::EntryIdx::from(j as u32)).map_err(er)?.ok_or(format!("entry {j} is missing"))?;
            let v = |name: &str| e.get_value(name).map_err(er)?.map(|v| v.as_unsigned()).ok_or(format!("entry {j} has no {name}"));
            got.push((v("id")? as usize, v("r")? as usize, v("k")?));
        }
        let mut at = vec![usize::MAX; n];
        for (pos, (id, _, _)) in got.iter().enumerate() {
            if *id >= n || at[*id] != usize::MAX { return Err(format!("position {pos} holds entry {id}, which {}", if *id >= n { "does not exist" } else { "was seen already" })) }
            at[*id] = pos;
        }
        for (pos, (id, r, k)) in got.iter().enumerate() {
            if *k != key(*id) { return Err(format!("entry {id} has key {k} instead of {}", key(*id))) }
            if *r != at[target(*id)] { return Err(format!("entry {id} refers to entry {}, found at {}, but its reference is {r}", target(*id), at[target(*id)])) }
            if bounds[*id].get().into_u32() as usize != pos { return Err(format!("the handle of entry {id} says {}, it is at {pos}", bounds[*id].get().into_u32())) }
        }
        if c[2] == 1 {
            for w in got.windows(2) {
                if (w[0].2, w[0].0) > (w[1].2, w[1].0) { return Err(format!("not sorted: {:?} before {:?}", w[0], w[1])) }
            }
        }
        clean(cx.dir);
        Ok(())
    };
    Space::new("million", radix.iter().product(), move |i, cx| run(i, cx))
        .desc(move |i| { let c = mixed(i, &radix); format!("{} entries, {} references, {}", ns[c[0] as usize], ["mirrored", "scattered"][c[1] as usize], ["unsorted", "sorted"][c[2] as usize]) })
        .horizon(300)
}

fn spaces(t: Tier, _dir: &std::path::Path) -> Vec<Space> {
    let mut v = graphs(t);
    v.extend(two_stores(t));
    v.extend(own_sorted(t));
    v.push(trees(t));
    v.push(large(t));
    v.push(million(t));
    v
}
