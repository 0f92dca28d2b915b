//! What the reader must say about a container built from a spec.

use crate::build::Built;
use crate::spec::*;

pub fn val(v: &Val, b: &Handlepos) -> Obs {
    match v {
        Val::U(u) => Obs::U(*u),
        Val::S(i) => Obs::S(*i),
        Val::WU(u) => Obs::U(*u),
        Val::WS(i) => Obs::S(*i),
        Val::A(a) => Obs::A(a.clone()),
        Val::C(p, c) => Obs::C(*p, *c),
        Val::RefU(s, i) => Obs::U(b.0[*s][*i] as u64),
        Val::RefS(s, i) => Obs::S(b.0[*s][*i] as i64),
    }
}

/// Final position of each entry, by store and insertion number.
pub struct Handlepos(pub Vec<Vec<u32>>);

impl Handlepos {
    pub fn of(h: &crate::build::Handles) -> Self {
        Handlepos(h.0.iter().map(|v| v.iter().map(|b| b.get().into_u32()).collect()).collect())
    }
    /// Positions are a permutation (and the identity for an unsorted store).
    pub fn check(&self, d: &DirSpec) -> Result<(), String> {
        for (s, v) in self.0.iter().enumerate() {
            let mut seen = vec![false; v.len()];
            for (i, p) in v.iter().enumerate() {
                if *p as usize >= v.len() || seen[*p as usize] {
                    return Err(format!("handles of store {s} are not a permutation: {v:?}"));
                }
                seen[*p as usize] = true;
                if d.estores[s].sort.is_none() && *p as usize != i {
                    return Err(format!("unsorted store {s}: entry {i} reported at {p}"));
                }
            }
        }
        Ok(())
    }
}

pub fn expect_dir(d: &DirSpec, hp: &Handlepos, out: &mut Dump) {
    for (k, ix) in d.indexes.iter().enumerate() {
        let s = &d.estores[ix.store];
        let off = match ix.offset_of { None => ix.offset, Some(e) => hp.0[ix.store][e] };
        let pre = format!("ix/{}", ix.name);
        out.insert(format!("ixn/{k}"), Obs::Str(format!("{}+{}", off, ix.count)));
        if d.indexes.iter().position(|i| i.name == ix.name) != Some(k) { continue }
        out.insert(format!("{pre}/count"), Obs::U(ix.count as u64));
        out.insert(format!("{pre}/size"), Obs::U(ix.count as u64));
        out.insert(format!("{pre}/offset"), Obs::U(off as u64));
        let names = |c: &[Col]| {
            let mut v: Vec<&str> = c.iter().map(|c| c.name()).collect();
            v.sort();
            v.join(",")
        };
        out.insert(format!("{pre}/common"), Obs::Str(names(&s.common)));
        if !s.variants.is_empty() {
            out.insert(format!("{pre}/variants"), Obs::Str(
                s.variants.iter().map(|(n, c)| format!("{n}:{}", names(c))).collect::<Vec<_>>().join(";")));
        }
        let mut at = vec![usize::MAX; s.entries.len()];
        for (i, p) in hp.0[ix.store].iter().enumerate() { at[*p as usize] = i; }
        for i in 0..ix.count {
            let k = format!("{pre}/e{i}");
            let Some(en) = at.get(off as usize + i as usize) else { out.insert(k, Obs::None); continue };
            let en = &s.entries[*en];
            if let Some(v) = en.variant {
                out.insert(format!("{k}/variant"), Obs::U(v as u64));
                out.insert(format!("{k}/variant_name"), Obs::Str(s.variants[v].0.to_string()));
            }
            for (n, v) in &en.vals {
                out.insert(format!("{k}/{n}"), val(v, hp));
            }
        }
    }
}

pub fn expect_contents(id: u16, contents: &[ContentSpec], addrs: &[(u16, u32)], dedup: bool, out: &mut Dump) -> Result<(), String> {
    let mut n = 0u32;
    let mut known: std::collections::HashMap<&[u8], u32> = Default::default();
    for (i, (c, a)) in contents.iter().zip(addrs).enumerate() {
        let want = if dedup {
            match known.get(c.data.as_slice()) {
                Some(k) => *k,
                None => {
                    known.insert(&c.data, n);
                    n += 1;
                    n - 1
                }
            }
        } else {
            n += 1;
            n - 1
        };
        if *a != (id, want) {
            return Err(format!("content {i} was given the address {a:?}, expected ({id}, {want})"));
        }
        out.insert(format!("p{id}/c{want}"), Obs::data(&c.data));
        out.insert(format!("p{id}/c{want}/size"), Obs::U(c.data.len() as u64));
    }
    out.insert(format!("p{id}/count"), Obs::U(n as u64));
    Ok(())
}

/// The part of a dump the model determines.
pub fn expect(spec: &ContainerSpec, b: &Built) -> Result<Dump, String> {
    let mut out = Dump::new();
    expect_contents(1, &spec.contents, &b.addrs, spec.dedup, &mut out)?;
    for (k, (_, c)) in spec.extra.iter().enumerate() {
        expect_contents(2 + k as u16, c, &b.extra_addrs[k], false, &mut out)?;
    }
    let hp = Handlepos::of(&b.handles);
    hp.check(&spec.dir)?;
    expect_dir(&spec.dir, &hp, &mut out);
    out.insert("pack_count".into(), Obs::U(2 + spec.extra.len() as u64));
    Ok(out)
}

/// Keys of a reader dump that the model determines.
pub fn modelled(k: &str) -> bool {
    if k.contains("/find/") { return false }
    k == "pack_count" || k == "open" || k.ends_with("#typed") || k.ends_with("#unknown")
        || k.starts_with("ix") || k == "dir/kind" || (k.starts_with('p') && (k.ends_with("/helpers") || k.ends_with("/kind") || k.contains("/c") || k.contains("/past") || k.ends_with("/bytes")))
}

/// First disagreement between a reader dump and the model.
pub fn disagree(want: &Dump, got: &Dump) -> Option<String> {
    let mut g = got.clone();
    match g.remove("open") {
        Some(Obs::Str(s)) if s == "ok" => {}
        x => return Some(format!("the container does not open: {x:?}")),
    }
    diff(want, &g, modelled)
}

pub fn index_names(d: &DirSpec) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in &d.indexes { if !v.contains(&i.name) { v.push(i.name.clone()) } }
    v
}
