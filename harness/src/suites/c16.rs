//! C16: the hint decides how a content is stored; identical contents are stored once.  The storage is read by
//! the independent decoder from the bytes of the file.

use super::util::*;
use crate::build;
use crate::indep;
use crate::infra::*;
use crate::spec::*;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every insertion history of the stated alphabets is run on the real creator; the independent decoder then says in which cluster, compressed how, and at which file position each content lies",
        assumptions: vec!["where the deduplicating adder is given the same bytes with contradicting hints, only 'stored once, one address' is required", "the hint 'detect' promises nothing in a compressing pack"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

const COMPS: [Comp; 4] = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
const HINTS: [Hint; 3] = [Hint::Yes, Hint::No, Hint::Detect];

fn code(c: Comp) -> u8 { match c { Comp::None => 0, Comp::Lz4(_) => 1, Comp::Lzma(_) => 2, Comp::Zstd(_) => 3 } }

/// One pack against what was inserted in it.
fn judge(pack: &[u8], comp: Comp, dedup: bool, contents: &[ContentSpec], addrs: &[(u16, u32)], id: u16) -> Result<(), String> {
    let c = indep::content(pack, true).map_err(|e| format!("decoder: {e}"))?;
    let mut first: HashMap<&[u8], (usize, u32)> = HashMap::new();
    let mut hints: HashMap<u32, Vec<Hint>> = HashMap::new();
    let mut next = 0;
    for (k, x) in contents.iter().enumerate() {
        let (p, a) = addrs[k];
        if p != id { return Err(format!("content {k} has pack id {p}, expected {id}")); }
        match first.get(x.data.as_slice()) {
            Some((j, b)) if dedup => {
                if *b != a { return Err(format!("content {k} equals content {j} but has the address {a}, not {b}")); }
            }
            _ => {
                if hints.contains_key(&a) { return Err(format!("content {k} has the address {a} of another insertion")); }
                first.insert(&x.data, (k, a));
                next += 1;
            }
        }
        hints.entry(a).or_default().push(x.hint);
    }
    if c.contents.len() != next { return Err(format!("{} contents stored, {next} expected", c.contents.len())); }
    // the pack stores nothing else
    let blobs: u64 = c.clusters.iter().map(|x| x.blobs as u64).sum();
    if blobs != next as u64 { return Err(format!("{blobs} blobs stored for {next} contents")); }
    for (k, x) in contents.iter().enumerate() {
        let a = addrs[k].1;
        let s = c.contents.get(a as usize).ok_or_else(|| format!("content {k}: address {a} of {}", c.contents.len()))?;
        if s.obs != Obs::data(&x.data) { return Err(format!("content {k}: other bytes stored")); }
        let h = &hints[&a];
        let got = c.clusters[s.cluster as usize].comp;
        if comp == Comp::None || h.iter().all(|h| *h == Hint::No) {
            let at = s.verbatim_at.filter(|_| got == 0).ok_or_else(|| format!("content {k} ({:?}) is in a cluster compressed with {got}", h))? as usize;
            if pack.get(at..at + x.data.len()) != Some(x.data.as_slice()) { return Err(format!("content {k} is not verbatim at {at}")); }
        } else if h.iter().all(|h| *h == Hint::Yes) && got != code(comp) {
            return Err(format!("content {k} (compress, {comp:?}) is in a cluster of compression {got}"));
        } else if got != 0 && got != code(comp) {
            return Err(format!("content {k} is in a cluster of compression {got} in a {comp:?} pack"));
        }
    }
    for (k, cl) in c.clusters.iter().enumerate() {
        if cl.comp != 0 && cl.comp != code(comp) { return Err(format!("cluster {k} has the compression {} in a {comp:?} pack", cl.comp)); }
    }
    Ok(())
}

/// Through the high-level creator; every pack of the container is judged.
fn container(s: &ContainerSpec, cx: &Cx) -> Result<(), String> {
    clean(cx.dir);
    cx.outcome(&brief(s));
    cx.sample(|| brief(s));
    let b = create(s, cx)?;
    let mut seen = 0;
    for f in files(cx.dir) {
        let data = read(&f);
        let d = indep::packs(&data).map_err(|e| format!("decoder: {e}"))?;
        for p in d.iter().filter(|p| p.head.kind == b'c') {
            let pack = &data[p.start as usize..(p.start + p.head.size) as usize];
            let id = {
                // the pack id is recorded in the manifest only
                let m = files(cx.dir).iter().find_map(|f| { let x = read(f); let ps = indep::packs(&x).ok()?; let m = ps.iter().find(|p| p.head.kind == b'm')?; indep::manifest(&x[m.start as usize..(m.start + m.head.size) as usize]).ok() }).ok_or("no manifest")?;
                m.infos.iter().find(|i| i.uuid == p.head.uuid).ok_or("content pack unknown to the manifest")?.id
            };
            seen += 1;
            if id == 1 { judge(pack, s.comp, s.dedup, &s.contents, &b.addrs, 1)?; }
            else {
                let k = id as usize - 2;
                let (comp, contents) = s.extra.get(k).ok_or("pack id")?;
                judge(pack, *comp, false, contents, &b.extra_addrs[k], id).map_err(|e| format!("pack {id}: {e}"))?;
            }
        }
    }
    if seen != 1 + s.extra.len() { return Err(format!("{seen} content packs")); }
    clean(cx.dir);
    cx.states(1);
    cx.transitions(s.contents.len() as u64 + 1);
    cx.traces(1);
    Ok(())
}

/// Directly with the content pack creator.
fn lone(comp: Comp, dedup: bool, v: &[ContentSpec], cx: &Cx) -> Result<(), String> {
    clean(cx.dir);
    cx.outcome(&format!("{comp:?} {dedup} {}", brief_contents(v)));
    cx.sample(|| format!("{comp:?} dedup={dedup} {}", brief_contents(v)));
    let (p, addrs, _) = build::create_content_pack(comp, dedup, v, cx.dir, "c.jbkc").map_err(|e| format!("creation failed: {e}"))?;
    let r = judge(&read(&p), comp, dedup, v, &addrs, 1);
    clean(cx.dir);
    cx.states(1);
    cx.transitions(v.len() as u64 + 1);
    cx.traces(1);
    r
}

/// bytes x hints: every sequence
fn seqs(t: Tier) -> Space {
    let mut al = vec![];
    for (k, n, s) in [(2u8, 0usize, 1u64), (2, 1, 2), (1, 5000, 3), (2, 5000, 4)] {
        for h in HINTS { al.push(ct(k, n, s, h, Src::Mem)); }
    }
    let k = if t == Tier::Quick { 3 } else { 4 };
    let a = al.len() as u64;
    let n = seq_count(a, k) * 8;
    let mk = move |i: u64| {
        let d = mixed(i % 8, &[4, 2]);
        (COMPS[d[0] as usize], d[1] == 1, seq(i / 8, a, k).iter().map(|x| al[*x as usize].clone()).collect::<Vec<_>>())
    };
    let mk2 = mk.clone();
    Space::new("sequences", n, move |i, cx| { let (c, d, v) = mk(i); lone(c, d, &v, cx) })
        .desc(move |i| { let (c, d, v) = mk2(i); format!("{c:?} dedup={d} {}", brief_contents(&v)) })
}

/// raw and compressed clusters filling up and closing in every order
fn clusters(t: Tier) -> Space {
    const OPS: [(u32, usize, Hint); 10] = [
        (1, 0, Hint::No), (1, 0, Hint::Yes),
        (1, 1, Hint::No), (1, 1, Hint::Yes),
        (4095, 2, Hint::No), (4095, 2, Hint::Yes),
        (1, (4 << 20) - 1, Hint::No), (1, (4 << 20) - 1, Hint::Yes),
        (2, (2 << 20) + 1, Hint::No), (1, (4 << 20) + 1, Hint::Yes),
    ];
    let k = if t == Tier::Quick { 3 } else { 4 };
    let cs: &'static [Comp] = if t == Tier::Quick { &[Comp::None, Comp::Zstd(1)] } else { &[Comp::None, Comp::Lz4(1), Comp::Zstd(1)] };
    let c = cs.len() as u64;
    let n = seq_count(10, k) * c;
    let mk = move |i: u64| {
        let mut v = vec![];
        for (p, o) in seq(i / c, 10, k).iter().enumerate() {
            let (cnt, len, h) = OPS[*o as usize];
            for j in 0..cnt { v.push(ct(if len > 100_000 { 1 } else { 2 }, len, p as u64 * 10_000 + j as u64, h, Src::Mem)); }
        }
        (cs[(i % c) as usize], v)
    };
    Space::new("cluster-limits", n, move |i, cx| { let (c, v) = mk(i); lone(c, false, &v, cx) })
        .desc(move |i| format!("{:?} ops {:?}", cs[(i % c) as usize], seq(i / c, 10, k).iter().map(|o| OPS[*o as usize]).collect::<Vec<_>>()))
        .horizon(60)
}

/// long histories: every periodic pattern of hints over more contents than a cluster holds
fn periodic(t: Tier) -> Space {
    let lens: &'static [u32] = if t == Tier::Quick { &[4094, 4095, 4096, 8191, 8300] } else { &[4094, 4095, 4096, 4097, 8189, 8190, 8191, 8300, 12290, 20000] };
    // period of up to 3 hints
    let n = lens.len() as u64 * (3 + 9 + 27) * 4 * 2;
    let mk = move |i: u64| {
        let d = mixed(i, &[lens.len() as u64, 39, 4, 2]);
        let pat = seq(d[1] + 1, 3, 3);
        let v: Vec<ContentSpec> = (0..lens[d[0] as usize]).map(|j| {
            // with the deduplicating adder every third content repeats an earlier one, with the same hint
            let x = if d[3] == 1 && j % 3 == 2 { j / (3 * pat.len() as u32) * pat.len() as u32 + j % pat.len() as u32 } else { j };
            ContentSpec { data: Arc::new(x.to_le_bytes()[..3].to_vec()), hint: HINTS[pat[j as usize % pat.len()] as usize], src: Src::Mem }
        }).collect();
        (COMPS[d[2] as usize], d[3] == 1, v)
    };
    Space::new("long-histories", n, move |i, cx| { let (c, d, v) = mk(i); lone(c, d, &v, cx) })
        .desc(move |i| { let d = mixed(i, &[lens.len() as u64, 39, 4, 2]); format!("{} contents, hints {:?}, {:?}, dedup={}", lens[d[0] as usize], seq(d[1] + 1, 3, 3), COMPS[d[2] as usize], d[3]) })
}

fn levels() -> Space {
    let mut ls = vec![Comp::None];
    ls.extend((0..=15).map(Comp::Lz4));
    ls.extend((0..=9).map(Comp::Lzma));
    ls.extend((-22..=22).map(Comp::Zstd));
    let radix = [ls.len() as u64, 3, 3, 4];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        (ls[d[0] as usize], vec![ct(d[1] as u8, [0usize, 1, 300, 20_000][d[3] as usize], 5, HINTS[d[2] as usize], Src::Mem), ct(2, 7, 9, Hint::No, Src::Mem), ct(1, 70, 9, Hint::Yes, Src::Mem)])
    };
    let mk2 = mk.clone();
    Space::new("levels", n, move |i, cx| { let (c, v) = mk(i); lone(c, false, &v, cx) })
        .desc(move |i| { let (c, v) = mk2(i); format!("{c:?} {}", brief_contents(&v)) })
}

/// hint x source x length (both branches of the deduplicating adder) x entropy
fn sources(t: Tier) -> Space {
    let srcs = [Src::Mem, Src::Custom, Src::File, Src::Range(0, 9), Src::Range(7, 0), Src::Range(5000, 1)];
    let ls: &'static [usize] = if t == Tier::Quick { &[0, 1, 4095, 4097, 70_000, (4 << 20) - 1, 4 << 20, (4 << 20) + 1] } else { &[0, 1, 2, 4095, 4096, 4097, 8192, 70_000, 1 << 20, (4 << 20) - 1, 4 << 20, (4 << 20) + 1, (9 << 20) + 3] };
    let radix = [6, ls.len() as u64, 3, 2, 3, 2, 6];
    let n: u64 = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let h = HINTS[d[2] as usize];
        let l = ls[d[1] as usize];
        // the same bytes twice, from two kinds of source
        let v = vec![ct(d[4] as u8, l, 3, h, srcs[d[0] as usize]), ct(2, 10, 8, Hint::No, Src::Mem), ct(d[4] as u8, l, 3, h, srcs[d[6] as usize]), ct(1, 11, 9, Hint::Yes, Src::File)];
        ([Comp::None, Comp::Zstd(1)][d[3] as usize], d[5] == 1, v)
    };
    let mk2 = mk.clone();
    Space::new("sources", n, move |i, cx| {
        let (c, d, v) = mk(i);
        lone(c, d, &v, cx)
    })
    .desc(move |i| { let (c, d, v) = mk2(i); format!("{c:?} dedup={d} {}", brief_contents(&v)) })
    .horizon(60)
}

/// all pairs and triples of nearly identical contents
fn near(t: Tier) -> Space {
    let base: &'static [usize] = if t == Tier::Quick { &[1, 2, 64, 1024, 4097, 65_537, 200_000] } else { &[1, 2, 3, 63, 64, 65, 1023, 1024, 1025, 4095, 4096, 4097, 65_536, 65_537, 200_000, (4 << 20) - 1, 4 << 20, (4 << 20) + 1] };
    let fam = move |n: usize| -> Vec<Vec<u8>> {
        let b = bytes(2, n, 6);
        let mut v = vec![b.clone()];
        for p in [0, n / 2, n - 1] { let mut x = b.clone(); x[p] ^= 1; v.push(x); }
        v.push(b[..n - 1].to_vec());
        v.push(b[1..].to_vec());
        let mut x = b.clone(); x.push(0); v.push(x);
        let mut x = vec![0]; x.extend(&b); v.push(x);
        let mut x = b.clone(); x.reverse(); v.push(x);
        v
    };
    let radix = [base.len() as u64, 9, 9, 9, 3, 2];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let f = fam(base[d[0] as usize]);
        let v: Vec<ContentSpec> = (1..4).map(|k| ContentSpec { data: Arc::new(f[d[k] as usize].clone()), hint: HINTS[d[4] as usize], src: if k == 2 { Src::File } else { Src::Mem } }).collect();
        ([Comp::None, Comp::Lz4(1)][d[5] as usize], v)
    };
    let mk2 = mk.clone();
    Space::new("near-duplicates", n, move |i, cx| { let (c, v) = mk(i); lone(c, true, &v, cx) })
        .desc(move |i| { let (c, v) = mk2(i); format!("{c:?} {}", brief_contents(&v)) })
        .horizon(60)
}

/// several packs with their own compression, every packaging, through the high-level creator
fn containers(t: Tier) -> Space {
    let radix = [4, 4, 3, 3, 2, if t == Tier::Quick { 3 } else { 27 }];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let hs: Vec<Hint> = mixed(if t == Tier::Quick { [5, 15, 19][d[5] as usize] } else { d[5] }, &[3, 3, 3]).iter().map(|x| HINTS[*x as usize]).collect();
        let v = |s: u64| vec![ct(2, 300, s, hs[0], Src::Mem), ct(1, 300, 2, hs[1], Src::File), ct(2, 300, s, hs[0], Src::Mem), ct(0, 6000, 3, hs[2], Src::Custom), ct(1, 300, 2, hs[1], Src::Mem)];
        let mut s = ContainerSpec::contents_only(COMPS[d[0] as usize], v(1));
        s.mode = [Mode::One, Mode::Two, Mode::No][d[2] as usize];
        s.dedup = d[4] == 1;
        for e in 0..d[3] { s.extra.push((COMPS[((d[1] + e) % 4) as usize], v(1 + e))); }
        s
    };
    let mk2 = mk.clone();
    Space::new("containers", n, move |i, cx| container(&mk(i), cx)).desc(move |i| brief(&mk2(i)))
}

fn spaces(t: Tier, _d: &Path) -> Vec<Space> {
    vec![seqs(t), clusters(t), periodic(t), levels(), sources(t), near(t), containers(t)]
}
