//! C05: after any alteration, every structural fact is what was written or an error.

use super::damage::*;
use super::kit;
use crate::dump;
use crate::infra::*;
use crate::spec::*;
use std::path::Path;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "fault_enumeration",
        rule: "an evaluation is one alteration of one stored file (every position x masks, every range of the listed lengths, every truncation, garbage appended) followed by a full read through the library and its comparison, fact by fact, with the read of the intact files (itself checked against the model); non-trivial when a fact became unreadable or a content differs",
        assumptions: vec![
            "an alteration after which every altered block still matches its CRC-32 is out of reach of the format (none is made on purpose; by chance 2^-32 per multi-byte alteration)",
            "a fact below an inaccessible ancestor counts as inaccessible",
        ],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

fn is_err(d: &Dump, k: &str) -> bool { d.get(k).map(|o| o.is_err()).unwrap_or(false) }

/// Is an ancestor of `k` an error?
fn inaccessible(got: &Dump, k: &str) -> bool {
    if k.starts_with("m/") || k.starts_with("m#") { return is_err(got, "m/open") }
    if is_err(got, "open") { return true }
    let mut p = k;
    while let Some((a, _)) = p.rsplit_once(['/', '#']) {
        if is_err(got, a) || is_err(got, &format!("{a}/pack")) || is_err(got, &format!("{a}/store")) || is_err(got, &format!("{a}/builder")) || is_err(got, &format!("{a}/variant")) { return true }
        p = a;
    }
    false
}

/// Ok(whether anything but equality was seen)
pub fn compare(base: &Dump, got: &Dump) -> Result<bool, String> {
    let mut seen = false;
    let mut content: Option<String> = None;
    for (k, want) in base {
        // what could not be read from the intact files (a pack's check info in the manifest) is not a fact
        if want.is_err() { continue; }
        match got.get(k) {
            Some(g) if g == want => {}
            Some(g) if g.is_err() => seen = true,
            None if inaccessible(got, k) => seen = true,
            None => return Err(format!("{k}: was {}, now neither there nor an error", want.brief())),
            // what the check says is judged below and by C04
            Some(Obs::Bool(_)) if k.contains('#') => seen = true,
            Some(Obs::Data { len, .. }) => match want {
                Obs::Data { len: l, .. } if l == len => { seen = true; content = Some(k.clone()); }
                _ => return Err(format!("{k}: was {}, now {}", want.brief(), got[k].brief())),
            },
            Some(g) => return Err(format!("{k}: was {}, now {}", want.brief(), g.brief())),
        }
    }
    for (k, g) in got {
        if !base.contains_key(k) && !g.is_err() { return Err(format!("{k}: nothing was there, now {}", g.brief())) }
    }
    if let Some(k) = content {
        let pack = format!("{}#check", k.split('/').next().unwrap());
        for c in ["#check", &pack] {
            if got.get(c) == Some(&Obs::Bool(true)) { return Err(format!("{k} differs from what was written and {c} still succeeds")) }
        }
    }
    Ok(seen)
}

fn one(v: &Victim, a: &Alt, b: &[u8], cx: &Cx) -> Result<(), String> {
    let main = v.place(cx.dir, a.file as usize, b);
    // a panic is C06's business; it returned no value
    let Ok(got) = guard(|| dump::observe(&main, &opts(&v.made, false))) else { cx.note("panic", 1); return Ok(()) };
    let mut seen = compare(&v.base, &got)?;
    let got = guard(|| dump::observe_manifest(&main, true));
    if let Ok(got) = got { seen |= compare(&v.mbase, &got).map_err(|e| format!("manifest: {e}"))?; }
    if seen { cx.nontrivial(1); }
    Ok(())
}

fn spaces(tier: Tier, dir: &Path) -> Vec<Space> {
    dump::LOOKUPS.store(true, std::sync::atomic::Ordering::Relaxed);
    let t = tier == Tier::Thorough;
    let mut out = vec![];
    let mut victims: Vec<Arc<Victim>> = vec![];
    let comps = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
    for (k, c) in comps.iter().enumerate() {
        for (j, m) in [Mode::One, Mode::Two, Mode::No].into_iter().enumerate() {
            victims.push(Victim::new(dir, &format!("{m:?}-{k}"), &kit::container(*c, m, (k + j) % 2 + usize::from(m == Mode::No), 3)));
        }
    }
    let all = all_masks();
    let masks: &[u8] = if t { &all } else { &BITS };
    let fills: &[Fill] = if t { &[Fill::Zero, Fill::Ones, Fill::Invert, Fill::Text, Fill::Reverse, Fill::Next] } else { &[Fill::Zero, Fill::Text, Fill::Next] };
    let ranges: &[(usize, usize)] = if t { &[(2, 1), (3, 1), (4, 1), (5, 1), (8, 1), (16, 1), (37, 1), (64, 1), (256, 8), (512, 32), (1000, 64)] } else { &[(2, 1), (4, 1), (5, 2), (16, 3), (64, 8), (256, 32), (1000, 64)] };
    let ends = [1, 4, 64, 100, 4096];
    for v in victims { let a = alterations(&v, masks, 1, ranges, fills, true, &ends); out.push(space("alter", v, a, one)); }
    // two bytes at a distance: what a checksum by lanes or a partial verification would let pass
    let v = Victim::new(dir, "pairs", &kit::container(Comp::Zstd(1), Mode::One, 0, 2));
    let a = pairs(&v, if t { &[1, 2, 3, 4, 8, 16, 32, 64, 128, 256] } else { &[1, 4, 8] }, &[(1, 1), (128, 128), (255, 255)]);
    out.push(space("two", v, a, one));
    // many contents and clusters: every byte of the tables
    let v = Victim::new(dir, "tables", &tables());
    let a = alterations(&v, &[1, 128], 1, &[(4, 8), (64, 64)], &[Fill::Zero, Fill::Next], false, &[]);
    out.push(space("alter", v, a, one));
    // tables and stores beyond the size up to which blocks are read at once, mapped instead
    for (n, s) in [("stores", kit::big_stores(Mode::One)), ("stores-no", kit::big_stores(Mode::No)), ("counts", kit::big_tables(Comp::Zstd(1), Mode::One)), ("counts-raw", kit::big_tables(Comp::None, Mode::Two))] {
        let v = Victim::new(dir, n, &s);
        let st = if t || n == "stores" { 1 } else { 3 };
        let a = alterations(&v, if t { &BITS } else { &[4] }, st, &[(100, 101)], &[Fill::Zero, Fill::Next], false, &[1]);
        out.push(space("large", v, a, one));
    }
    // and beyond what 16 bits hold
    let v = Victim::new(dir, "huge", &kit::huge());
    let a = alterations(&v, &[8], if t { 7 } else { 89 }, &[(200, 4001)], &[Fill::Zero], false, &[]);
    out.push(space("large", v, a, one));
    // and 1 MiB
    let v = Victim::new(dir, "mega", &kit::mega());
    let n = v.made.files[0].1.len();
    let a = alterations(&v, &[8], n / if t { 900 } else { 150 }, &[(400, n / if t { 1700 } else { 300 })], &[Fill::Next], false, &[]);
    out.push(space("large", v, a, one).horizon(120));
    // each pack from memory
    for (n, s) in [("one", kit::container(Comp::Zstd(1), Mode::One, 1, 3)), ("stores", kit::big_stores(Mode::One)), ("counts", kit::big_tables(Comp::Zstd(1), Mode::One))] {
        let v = Victim::new(dir, &format!("m-{n}"), &s);
        let st = if t || n == "one" { 1 } else { 3 };
        for (k, (kind, b)) in pack_bytes(&v.made).into_iter().enumerate() {
            let (b, names) = (Arc::new(b), v.made.indexes.clone());
            let base = observe_bytes(kind, b.to_vec(), &names);
            if base.iter().any(|(k, o)| o.is_err() && !k.ends_with("/checkinfo")) { panic!("pack {k} of {n} cannot be read from memory") }
            let ps = b.len().div_ceil(st) as u64;
            let masks: &'static [u8] = if t { &BITS } else { &[1, 128] };
            out.push(Space::new(&format!("memory/{n}/{}{k}", kind as char), ps * masks.len() as u64, move |i, cx| {
                let mut d = b.to_vec();
                d[(i % ps) as usize * st] ^= masks[(i / ps) as usize];
                cx.evals(1);
                let Ok(got) = guard(|| observe_bytes(kind, d, &names)) else { cx.note("panic", 1); return Ok(()) };
                if compare(&base, &got)? { cx.nontrivial(1); }
                Ok(())
            }).desc(move |i| format!("byte {} xor {}", (i % ps) as usize * st, masks[(i / ps) as usize])).horizon(20));
        }
    }
    out
}

/// 60 contents over raw and compressed clusters, 12 entries with every kind of column, 2 more packs.
pub fn tables() -> ContainerSpec {
    let mut s = kit::container(Comp::Lz4(1), Mode::One, 2, 12);
    s.contents = (0..60).map(|k| super::util::ct(1 + (k % 2) as u8, (k * 7) % 90, k as u64, if k % 3 == 0 { Hint::No } else { Hint::Yes }, Src::Mem)).collect();
    s
}
