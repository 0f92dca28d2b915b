//! C02: entries read back with exactly the values they were written with.
//! Reference model: the vector of entries handed to the entry store.

use super::util::*;
use crate::infra::*;
use crate::spec::*;
use std::path::Path;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every schema x entry sequence x index window of the stated alphabets and bounds is written by the real creator and read back, property by property and through every kind of builder; a state is the directory reached, a transition one entry added or the finalisation",
        assumptions: vec!["a panic of the creator counts as refusing the value"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

pub fn dir_space(name: &str, n: u64, may_fail: bool, mk: impl Fn(u64) -> DirSpec + Send + Sync + Clone + 'static) -> Space {
    let mk2 = mk.clone();
    Space::new(name, n, move |i, cx| {
        let d = mk(i);
        cx.outcome(&format!("{i}"));
        cx.sample(|| brief_dir(&d));
        dir_round_trip(&d, cx, may_fail)
    })
    .desc(move |i| brief_dir(&mk2(i)))
}

pub fn all(store: usize, n: usize) -> Vec<IndexSpec> {
    vec![IndexSpec { name: "all".into(), store, offset: 0, count: n as u32, offset_of: None }]
}

/// One store, one index over everything.
pub fn one_store(vstores: Vec<bool>, st: EStoreSpec) -> DirSpec {
    let n = st.entries.len();
    DirSpec { vstores, estores: vec![st], indexes: all(0, n) }
}

pub fn plain_entry(vals: Vec<(Name, Val)>) -> EntrySpec { EntrySpec { variant: None, vals } }

fn uvals() -> Vec<u64> {
    let mut v = vec![0, 1];
    for b in 1..8u32 { v.push((1u64 << (8 * b)) - 1); v.push(1u64 << (8 * b)); }
    v.extend([127, 128, u64::MAX - 1, u64::MAX, i64::MAX as u64, 1 << 63]);
    v
}

fn svals() -> Vec<i64> {
    let mut v = vec![0, 1, -1];
    for b in 1..8u32 {
        let h = 1i64 << (8 * b - 1);
        v.extend([h - 1, h, -h, -h - 1, 2 * h - 1, 2 * h, -2 * h, -2 * h - 1]);
    }
    v.extend([i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]);
    v
}

fn ints(t: Tier) -> Vec<Space> {
    let u = uvals();
    let s = svals();
    let (nu, ns) = (u.len() as u64, s.len() as u64);
    let ku = if t == Tier::Quick { 3 } else { 4 };
    let ks = if t == Tier::Quick { 2 } else { 3 };
    let a = dir_space("unsigned", seq_count(nu, ku), false, move |i| {
        let e = seq(i, nu, ku).iter().map(|k| plain_entry(vec![("n", Val::U(u[*k as usize]))])).collect();
        one_store(vec![], EStoreSpec { common: vec![Col::U("n")], entries: e, ..Default::default() })
    });
    let b = dir_space("signed", seq_count(ns, ks), false, {
        let s = s.clone();
        move |i| {
            let e = seq(i, ns, ks).iter().map(|k| plain_entry(vec![("n", Val::S(s[*k as usize]))])).collect();
            one_store(vec![], EStoreSpec { common: vec![Col::S("n")], entries: e, ..Default::default() })
        }
    });
    // every width next to a column of every other width, both signs, with and without a variant
    let c = dir_space("signed-and-unsigned", ns * 16 * 2, false, move |i| {
        let d = mixed(i, &[ns, 16, 2]);
        let x = s[d[0] as usize];
        let y = 1u64 << (d[1] * 4);
        let cols = vec![Col::S("s"), Col::U("u"), Col::S("t")];
        let val = |x: i64, y: u64, z: i64| vec![("s", Val::S(x)), ("u", Val::U(y)), ("t", Val::S(z))];
        let (common, variants, v) = if d[2] == 0 { (cols, vec![], None) } else { (vec![], vec![("V", cols)], Some(0)) };
        one_store(vec![], EStoreSpec { common, variants, entries: vec![
            EntrySpec { variant: v, vals: val(x, y, !x) },
            EntrySpec { variant: v, vals: val(!x, y - 1, x) },
            EntrySpec { variant: v, vals: val(0, 0, x) },
        ], ..Default::default() })
    });
    // the same through words, next to plain numbers
    let (u, s) = (uvals(), svals());
    let nw = (u.len() + s.len()) as u64 * 2;
    let w = dir_space("words", seq_count(nw, 2), false, move |i| {
        let val = |k: u64, signed: bool| -> Val {
            let (word, j) = (k % 2 == 1, (k / 2) as usize);
            let (x, y) = (u[j % u.len()], s[j % s.len()]);
            match (signed, word) { (false, false) => Val::U(x), (false, true) => Val::WU(x), (true, false) => Val::S(y), _ => Val::WS(y) }
        };
        let e = seq(i, nw, 2).iter().map(|k| plain_entry(vec![("u", val(*k, false)), ("s", val(*k, true)), ("v", val(k ^ 1, false))])).collect();
        one_store(vec![], EStoreSpec { common: vec![Col::U("u"), Col::S("s"), Col::U("v")], entries: e, ..Default::default() })
    });
    vec![a, b, c, w]
}

fn arr(len: usize, salt: u64) -> Vec<u8> { bytes(2, len, salt) }

fn arrays(t: Tier) -> Vec<Space> {
    // lengths relative to the prefix, then the length-width boundaries
    const REL: [i64; 7] = [-2, -1, 0, 1, 2, 3, 8];
    const ABS: [usize; 9] = [0, 1, 2, 255, 256, 257, 65535, 65536, 65537];
    let nl = (REL.len() + ABS.len()) as u64;
    let len = move |k: u64, p: usize| -> usize {
        if (k as usize) < REL.len() { (p as i64 + REL[k as usize]).max(0) as usize } else { ABS[k as usize - REL.len()] }
    };
    // prefix, store kind, two lengths, relation of the bytes (equal start, unrelated)
    let radix = [32, 2, nl, nl, 2];
    let pairs = dir_space("array-lengths", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let p = d[0] as usize;
        let a = arr(len(d[2], p), 1);
        let b = arr(len(d[3], p), 1 + d[4]);
        one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(p, 0, "a")], entries: vec![
            plain_entry(vec![("a", Val::A(a))]), plain_entry(vec![("a", Val::A(b))])], ..Default::default() })
    });
    // two array columns sharing a store or not, all short contents, up to two entries
    const W: [&[u8]; 7] = [b"", b"a", b"ab", b"abc", b"b", b"abcab", b"\0"];
    const P: [usize; 4] = [0, 1, 2, 5];
    let nw = W.len() as u64;
    let per = nw * nw;
    let radix2 = [P.len() as u64, P.len() as u64, 6, seq_count(per, 2)];
    let mk = move |i: u64, k: u32| {
        let d = mixed(i, &[P.len() as u64, P.len() as u64, 6, seq_count(per, k)]);
        let (stores, s0, s1) = [(vec![false], 0, 0), (vec![true], 0, 0), (vec![false, true], 0, 1), (vec![true, false], 0, 1), (vec![true, true], 1, 0), (vec![false, false], 1, 0)][d[2] as usize].clone();
        let e = seq(d[3], per, k).iter().map(|x| plain_entry(vec![
            ("a", Val::A(W[(x % nw) as usize].to_vec())), ("b", Val::A(W[(x / nw) as usize].to_vec()))])).collect();
        one_store(stores, EStoreSpec { common: vec![Col::A(P[d[0] as usize], s0, "a"), Col::A(P[d[1] as usize], s1, "b")], entries: e, ..Default::default() })
    };
    let shared = dir_space("shared-stores", radix2.iter().product(), false, move |i| mk(i, 2));
    // one column, sequences of up to four short contents (duplicates, prefixes of one another)
    let k = if t == Tier::Quick { 4 } else { 6 };
    let n = seq_count(nw, k);
    let seqs = dir_space("array-sequences", 4 * 2 * n, false, move |i| {
        let d = mixed(i, &[4, 2, n]);
        let e = seq(d[2], nw, k).iter().map(|x| plain_entry(vec![("a", Val::A(W[*x as usize].to_vec()))])).collect();
        one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(P[d[0] as usize], 0, "a")], entries: e, ..Default::default() })
    });
    // value ids at the key-width boundaries: stores of n values / of that many bytes
    const N: [usize; 8] = [1, 2, 254, 255, 256, 257, 1000, 5000];
    let radix3 = [N.len() as u64, 2, 4, 3];
    let keys = dir_space("key-widths", radix3.iter().product(), false, move |i| {
        let d = mixed(i, &radix3);
        let n = N[d[0] as usize];
        let e = (0..n).map(|j| {
            let mut b = format!("{:05}", (j * 7919) % n).into_bytes();
            if d[3] == 1 { b.extend(vec![b'x'; 60 - (j % 3)]); }
            if d[3] == 2 { b.truncate(4); }
            plain_entry(vec![("a", Val::A(b))])
        }).collect();
        one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A([0, 1, 4, 31][d[2] as usize], 0, "a")], entries: e, ..Default::default() })
    });
    // total size of a store at the width boundaries of value ids and offsets
    const B: [usize; 12] = [0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24];
    let radix4 = [B.len() as u64, 2, 3];
    let sizes = dir_space("store-sizes", radix4.iter().product(), true, move |i| {
        let d = mixed(i, &radix4);
        let n = B[d[0] as usize];
        // one to three values that sum up to n bytes
        let parts: Vec<usize> = match d[2] { 0 => vec![n], 1 => vec![n / 2, n - n / 2], _ => vec![n / 3, n / 3, n - 2 * (n / 3)] };
        let e = parts.iter().enumerate().map(|(j, l)| plain_entry(vec![("a", Val::A(arr(*l, 9 + j as u64)))])).collect();
        one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A(0, 0, "a")], entries: e, ..Default::default() })
    });
    vec![pairs, shared, seqs, keys, sizes]
}

fn addresses(_t: Tier) -> Space {
    const P: [u16; 6] = [0, 1, 255, 256, 257, 65535];
    const C: [u32; 11] = [0, 1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, u32::MAX - 1, u32::MAX, 1 << 31];
    let a = (P.len() * C.len()) as u64;
    dir_space("content-addresses", seq_count(a, 2), false, move |i| {
        let e = seq(i, a, 2).iter().map(|k| plain_entry(vec![("c", Val::C(P[*k as usize % P.len()], C[*k as usize / P.len()]))])).collect();
        one_store(vec![], EStoreSpec { common: vec![Col::C("c")], entries: e, ..Default::default() })
    })
}

/// Kinds of column used by the schema shapes: constant / varying of every kind.
const KINDS: u64 = 9;
fn kind_col(k: u64, n: Name) -> Col {
    match k { 0 | 1 => Col::U(n), 2 | 3 => Col::S(n), 4 => Col::A(0, 1, n), 5 => Col::A(2, 0, n), 6 => Col::A(0, 0, n), _ => Col::C(n) }
}
fn kind_val(k: u64, j: u64) -> Val {
    match k {
        0 => Val::U(300), 1 => Val::U(j * 300), 2 => Val::S(-200), 3 => Val::S(if j % 2 == 0 { -(j as i64) - 1 } else { 40_000 }),
        4 => Val::A(bytes(1, (j % 4) as usize * 3, j)), 5 => Val::A(bytes(1, (j % 5) as usize, j)), 6 => Val::A(bytes(1, (j % 3) as usize, j)),
        7 => Val::C(1, (j * 200) as u32), _ => Val::C((j * 200) as u16, 3),
    }
}

fn shapes(t: Tier) -> Space {
    // common part: up to 2 columns; variants: up to 3, each from a list of column lists
    let q = t == Tier::Quick;
    let common = seq_count(KINDS, 2);
    let mut vlists: Vec<Vec<u64>> = vec![vec![]];
    for k in 0..KINDS { vlists.push(vec![k]); }
    for p in [[0, 0], [0, 1], [1, 0], [4, 0], [2, 5], [0, 7], [7, 0], [8, 8]] { vlists.push(p.to_vec()); }
    let nv = vlists.len() as u64;
    let vs = seq_count(nv, if q { 2 } else { 3 });
    let radix = [common, vs, 3];
    dir_space("schema-shapes", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let names = ["a", "b", "c", "d", "e", "f", "g", "h"];
        let ck = seq(d[0], KINDS, 2);
        let vk = seq(d[1], nv, 3);
        let common: Vec<Col> = ck.iter().enumerate().map(|(j, k)| kind_col(*k, names[j])).collect();
        let variants: Vec<(Name, Vec<Col>)> = vk.iter().enumerate().map(|(v, l)| {
            // the same property name in several variants is allowed
            (["V0", "V1", "V2"][v], vlists[*l as usize].iter().enumerate().map(|(j, k)| kind_col(*k, names[2 + j])).collect())
        }).collect();
        let mut entries = vec![];
        let mut j = 0;
        // entries of all variants, two each / of the last variant only / none
        let which: Vec<usize> = match (d[2], variants.len()) { (2, _) => vec![], (_, 0) => vec![0, 0], (0, n) => (0..n).chain(0..n).collect(), (_, n) => vec![n - 1] };
        for v in which {
            let mut vals: Vec<(Name, Val)> = ck.iter().enumerate().map(|(x, k)| (names[x], kind_val(*k, j))).collect();
            if !variants.is_empty() { vals.extend(vlists[vk[v] as usize].iter().enumerate().map(|(x, k)| (names[2 + x], kind_val(*k, j + 1)))); }
            entries.push(EntrySpec { variant: if variants.is_empty() { None } else { Some(v) }, vals });
            j += 1;
        }
        one_store(vec![false, true], EStoreSpec { common, variants, entries, sort: None })
    })
}

/// Variants of very unequal size: the padding is in units of 1 to 16 bytes.
fn padding(_t: Tier) -> Space {
    let radix = [45, 45, 2];
    dir_space("variant-padding", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let mk = |n: u64, p: &str| -> Vec<Col> {
            // n bytes: columns of 8, the last one of the rest
            let mut v = vec![];
            let mut left = n;
            while left > 0 { let w = left.min(8); v.push(Col::U(intern(&format!("{p}{}w{w}", v.len())))); left -= w; }
            v
        };
        let (a, b) = (mk(d[0], "a"), mk(d[1], "b"));
        let common = if d[2] == 1 { vec![Col::U("k")] } else { vec![] };
        let val = |c: &[Col], j: u64| -> Vec<(Name, Val)> {
            c.iter().map(|c| { let w: u64 = c.name().rsplit('w').next().unwrap().parse().unwrap(); (c.name(), Val::U(if j % 2 == 0 { 1u64.checked_shl(8 * w as u32).unwrap_or(0).wrapping_sub(1) } else { j })) }).collect()
        };
        let mut entries = vec![];
        for j in 0..4u64 {
            let v = (j % 2) as usize;
            let mut vals = if d[2] == 1 { vec![("k", Val::U(j))] } else { vec![] };
            vals.extend(val(if v == 0 { &a } else { &b }, j / 2));
            entries.push(EntrySpec { variant: Some(v), vals });
        }
        one_store(vec![], EStoreSpec { common, variants: vec![("A", a), ("B", b)], entries, sort: None })
    })
}

fn windows(t: Tier) -> Vec<Space> {
    let m = if t == Tier::Quick { 5u64 } else { 8 };
    let ext = |m: u64| { let mut v: Vec<u32> = (0..=(m + 2) as u32).collect(); v.extend([255, 256, 65536, u32::MAX - 1, u32::MAX]); v };
    let w = ext(m);
    let nw = w.len() as u64;
    let wc: Vec<u32> = (0..=(m + 2) as u32).chain([300]).collect();
    let nc = wc.len() as u64;
    let radix = [m + 1, nw, nc, 2];
    let a = dir_space("windows", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let e: Vec<EntrySpec> = (0..d[0]).map(|j| plain_entry(vec![("n", Val::U(j * 100)), ("a", Val::A(vec![b'a' + j as u8; j as usize]))])).collect();
        let st = EStoreSpec { common: vec![Col::U("n"), Col::A(1, 0, "a")], entries: e, ..Default::default() };
        let mut ix = vec![IndexSpec { name: "w".into(), store: 0, offset: w[d[1] as usize], count: wc[d[2] as usize], offset_of: None }];
        if d[3] == 1 {
            ix.insert(0, IndexSpec { name: "all".into(), store: 0, offset: 0, count: d[0] as u32, offset_of: None });
            ix.push(IndexSpec { name: "last".into(), store: 0, offset: (d[0] as u32).saturating_sub(1), count: d[0].min(1) as u32, offset_of: None });
        }
        DirSpec { vstores: vec![true], estores: vec![st], indexes: ix }
    });
    // an index whose offset is the handle of an entry
    let b = dir_space("windows-from-handle", 6 * 6 * 6 * 2, false, move |i| {
        let d = mixed(i, &[6, 6, 6, 2]);
        let n = d[0] + 1;
        let e: Vec<EntrySpec> = (0..n).map(|j| plain_entry(vec![("n", Val::U((j * 5) % 7))])).collect();
        let st = EStoreSpec { common: vec![Col::U("n")], entries: e, sort: if d[3] == 1 { Some(vec!["n"]) } else { None }, ..Default::default() };
        let at = (d[1] % n) as usize;
        let c = d[2] as u32 % (n as u32 + 1);
        DirSpec { vstores: vec![], estores: vec![st], indexes: vec![
            IndexSpec { name: "all".into(), store: 0, offset: 0, count: n as u32, offset_of: None },
            IndexSpec { name: "from".into(), store: 0, offset: 0, count: c, offset_of: Some(at) }] }
    });
    // every sequence of names that are close to each other
    let names: Vec<&'static str> = ["", "a", "ab", "b", "A", "a ", "é", "e"].into_iter().collect();
    let k = names.len() as u64;
    let n = dir_space("index-names", k * k * k, false, move |i| {
        let d = mixed(i, &[k, k, k]);
        let st = EStoreSpec { common: vec![Col::U("n")], entries: (0..4).map(|j| plain_entry(vec![("n", Val::U(j))])).collect(), ..Default::default() };
        let mut ix: Vec<IndexSpec> = vec![];
        for (p, x) in d.iter().enumerate() {
            // the first of the same name is the one that is found
            if ix.iter().any(|i| i.name == names[*x as usize]) { continue }
            ix.push(IndexSpec { name: names[*x as usize].into(), store: 0, offset: p as u32, count: 1 + p as u32 % 2, offset_of: None });
        }
        DirSpec { vstores: vec![], estores: vec![st], indexes: ix }
    });
    // several stores, several indexes, in every assignment
    let c = dir_space("several-stores", 27 * 16, false, move |i| {
        let d = mixed(i, &[3, 3, 3, 16]);
        let stores: Vec<EStoreSpec> = (0..3u64).map(|s| {
            let n = d[s as usize];
            EStoreSpec { common: vec![Col::U("n"), Col::A((s % 2) as usize, ((d[3] >> s) & 1) as usize, "a")],
                entries: (0..n).map(|j| plain_entry(vec![("n", Val::U(s * 1000 + j)), ("a", Val::A(format!("store{s} entry{j}").into_bytes()))])).collect(), ..Default::default() }
        }).collect();
        let mut ix = vec![];
        for (s, st) in stores.iter().enumerate().rev() {
            ix.push(IndexSpec { name: format!("i{s}"), store: s, offset: 0, count: st.entries.len() as u32, offset_of: None });
            if d[3] & 8 != 0 { ix.push(IndexSpec { name: format!("i{s}"), store: (s + 1) % 3, offset: 1, count: 1, offset_of: None }); }
        }
        DirSpec { vstores: vec![d[3] & 4 != 0, true], estores: stores, indexes: ix }
    });
    // many entry stores and value stores, their indexes read in several orders
    let m = dir_space("stores-orders", 7 * 3 * 2, false, move |i| {
        let d = mixed(i, &[7, 3, 2]);
        let k = [2usize, 9, 65, 200, 254, 300, 700][d[0] as usize];
        let es: Vec<EStoreSpec> = (0..k).map(|s| EStoreSpec { common: vec![Col::A(0, s % 254, "a"), Col::U("n")], entries: (0..2).map(|j| plain_entry(vec![("a", Val::A(format!("{s}-{j}").into_bytes())), ("n", Val::U((s * 300 + j) as u64))])).collect(), ..Default::default() }).collect();
        let order: Vec<usize> = match d[1] { 0 => (0..k).collect(), 1 => (0..k).rev().collect(), _ => (0..k).map(|x| (x * 7 + k / 2) % k).collect::<std::collections::BTreeSet<_>>().into_iter().rev().chain(0..k).collect() };
        let ix = order.iter().enumerate().map(|(p, s)| IndexSpec { name: format!("i{p}"), store: *s, offset: 0, count: 2, offset_of: None }).collect();
        DirSpec { vstores: (0..k.min(254)).map(|s| (s as u64 + d[2]) % 2 == 0).collect(), estores: es, indexes: ix }
    });
    vec![a, b, n, c, m]
}

fn counts(t: Tier) -> Space {
    let n: &'static [usize] = if t == Tier::Quick { &[0, 1, 255, 256, 257, 4096, 65535, 65536, 65537] } else { &[0, 1, 255, 256, 257, 4096, 65535, 65536, 65537, 200_000, 1_000_000] };
    let radix = [n.len() as u64, 4];
    dir_space("entry-counts", radix.iter().product(), false, move |i| {
        let d = mixed(i, &radix);
        let n = n[d[0] as usize];
        let (common, f): (Vec<Col>, fn(u64) -> Vec<(Name, Val)>) = match d[1] {
            0 => (vec![Col::U("n")], |j| vec![("n", Val::U(j))]),
            1 => (vec![Col::U("k"), Col::C("c")], |j| vec![("k", Val::U(7)), ("c", Val::C(1, j as u32))]),
            2 => (vec![Col::A(4, 0, "a"), Col::S("s")], |j| vec![("a", Val::A(format!("{j}").into_bytes())), ("s", Val::S(-(j as i64)))]),
            // entries of no size at all
            _ => (vec![Col::U("k")], |_| vec![("k", Val::U(77))]),
        };
        let e = (0..n as u64).map(|j| plain_entry(f(j))).collect();
        one_store(vec![false], EStoreSpec { common, entries: e, ..Default::default() })
    })
    .horizon(300)
}

/// The limits of the format: where a layout, a name or a tail does not fit, creation must fail.
fn limits(_t: Tier) -> Vec<Space> {
    let mut v = vec![];
    let ns: &'static [u64] = &[0, 1, 2, 3, 100, 127, 128, 200, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 600];
    // many columns (constant or not), in the common part or in variants
    let radix = [ns.len() as u64, 3, 4];
    v.push(dir_space("many-columns", radix.iter().product(), true, move |i| {
        let d = mixed(i, &radix);
        let n = ns[d[0] as usize];
        let name = |j: u64| intern(&format!("c{j}"));
        let val = |j: u64, e: u64| match d[1] { 0 => Val::U(5), 1 => Val::U(j * 3 + e), _ => Val::A(vec![b'a'; ((j + e) % 40) as usize]) };
        let col = |j: u64| match d[1] { 2 => Col::A(31, 0, name(j)), _ => Col::U(name(j)) };
        let (common, variants): (Vec<Col>, Vec<(Name, Vec<Col>)>) = match d[2] {
            0 => ((0..n).map(col).collect(), vec![]),
            1 => (vec![], vec![("V", (0..n).map(col).collect())]),
            2 => ((0..n / 2).map(col).collect(), vec![("V", (n / 2..n).map(col).collect()), ("W", vec![])]),
            _ => (vec![Col::U("k")], vec![("V", (0..n / 2).map(col).collect()), ("W", (0..n - n / 2).map(col).collect())]),
        };
        let mut entries = vec![];
        for e in 0..3u64 {
            let v = if variants.is_empty() { None } else { Some(e as usize % variants.len()) };
            let mut vals = vec![];
            for c in common.iter().chain(v.iter().flat_map(|v| variants[*v].1.iter())) {
                if c.name() == "k" { vals.push(("k", Val::U(e))); continue }
                let j: u64 = c.name()[1..].parse().unwrap();
                vals.push((c.name(), val(j, e)));
            }
            entries.push(EntrySpec { variant: v, vals });
        }
        one_store(vec![true], EStoreSpec { common, variants, entries, sort: None })
    }).horizon(120));
    let radix = [ns.len() as u64, 4];
    v.push(dir_space("many-variants", radix.iter().product(), true, move |i| {
        let d = mixed(i, &radix);
        let n = ns[d[0] as usize];
        // wide values in every variant, or small ones in some of them
        let cols = |j: u64| -> Vec<Col> { match d[1] { 0 | 3 => vec![Col::U("x")], 1 => vec![], _ => if j % 2 == 0 { vec![Col::U("x")] } else { vec![] } } };
        let variants: Vec<(Name, Vec<Col>)> = (0..n).map(|j| (intern(&format!("V{j}")), cols(j))).collect();
        let entries = (0..n).map(|j| EntrySpec { variant: Some(j as usize), vals: cols(j).iter().map(|c| (c.name(), Val::U(if d[1] == 3 { (j + 1) << (8 * (j % 8)) } else { j * 2 }))).collect() }).collect();
        one_store(vec![], EStoreSpec { common: vec![], variants, entries, sort: None })
    }));
    v.push(dir_space("many-value-stores", ns.len() as u64 * 2, true, move |i| {
        let n = ns[(i / 2) as usize].max(1);
        // one entry store per value store
        let estores: Vec<EStoreSpec> = (0..n).map(|s| EStoreSpec { common: vec![Col::A(0, s as usize, "a")],
            entries: vec![plain_entry(vec![("a", Val::A(format!("value of {s}").into_bytes()))])], ..Default::default() }).collect();
        let indexes = (0..n).map(|s| IndexSpec { name: format!("i{s}"), store: s as usize, offset: 0, count: 1, offset_of: None }).collect();
        DirSpec { vstores: (0..n).map(|_| i % 2 == 0).collect(), estores, indexes }
    }));
    // name lengths
    let ls: &'static [usize] = &[0, 1, 2, 100, 254, 255, 256, 257, 300, 511, 512, 513];
    v.push(dir_space("name-lengths", ls.len() as u64 * 3, true, move |i| {
        let d = mixed(i, &[ls.len() as u64, 3]);
        let name = intern(&"n".repeat(ls[d[0] as usize]));
        let (p, vn, ix) = match d[1] { 0 => (name, "V", "i"), 1 => ("p", name, "i"), _ => ("p", "V", name) };
        DirSpec { vstores: vec![], estores: vec![EStoreSpec { common: vec![], variants: vec![(vn, vec![Col::U(p)])],
            entries: (0..3).map(|j| EntrySpec { variant: Some(0), vals: vec![(p, Val::U(j))] }).collect(), sort: None }],
            indexes: vec![IndexSpec { name: ix.into(), store: 0, offset: 0, count: 3, offset_of: None }] }
    }));
    // tails close to and beyond 65535 bytes: properties with long names; values of an indexed store
    v.push(dir_space("tail-of-entry-store", 24, true, move |i| {
        // n names of 255 and one that makes the tail end around 65535
        let n = 254u64;
        let last = [200usize, 230, 235, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255][(i % 19) as usize];
        let mut common: Vec<Col> = (0..n).map(|j| Col::A(1, 0, intern(&format!("{j:03}{}", "x".repeat(252))))).collect();
        common.push(Col::U(intern(&"y".repeat(last))));
        let common: Vec<Col> = if i >= 19 { common[..(250 + i as usize - 19).min(255)].to_vec() } else { common };
        let entries = (0..2).map(|e| plain_entry(common.iter().enumerate().map(|(j, c)| (c.name(), match c { Col::U(_) => Val::U(e), _ => Val::A(vec![j as u8; e as usize + 1]) })).collect())).collect();
        one_store(vec![true], EStoreSpec { common, entries, ..Default::default() })
    }));
    const TN: [usize; 8] = [32000, 32760, 32762, 32763, 32764, 32765, 32766, 40000];
    v.push(dir_space("tail-of-indexed-store", TN.len() as u64, true, move |i| {
        let n = TN[i as usize];
        let e = (0..n).map(|j| plain_entry(vec![("a", Val::A((j as u16).to_be_bytes()[..if j < 3 { 1 } else { 2 }].to_vec()))])).collect();
        one_store(vec![true], EStoreSpec { common: vec![Col::A(0, 0, "a")], entries: e, ..Default::default() })
    }).horizon(300));
    // lengths around 2^24, the longest an array can be
    v.push(dir_space("longest-array", 3 * 2 * 2, true, move |i| {
        let d = mixed(i, &[3, 2, 2]);
        let l = (1usize << 24) - 1 + d[0] as usize;
        one_store(vec![d[1] == 1], EStoreSpec { common: vec![Col::A([0, 3][d[2] as usize], 0, "a")],
            entries: vec![plain_entry(vec![("a", Val::A(arr(l, 5)))]), plain_entry(vec![("a", Val::A(b"short".to_vec()))])], ..Default::default() })
    }));
    v
}

fn spaces(t: Tier, _fix: &Path) -> Vec<Space> {
    set_oracle(Oracle::Reader);
    shared(t)
}

/// The enumerations, whatever reads back.
pub fn shared(t: Tier) -> Vec<Space> {
    let mut v = ints(t);
    v.extend(arrays(t));
    v.push(addresses(t));
    v.push(shapes(t));
    v.push(padding(t));
    v.extend(windows(t));
    v.push(counts(t));
    v.extend(limits(t));
    v
}
