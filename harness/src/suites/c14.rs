//! C14: what is written follows the documented layout (independent decoder); old files keep reading the same.

use super::util::*;
use super::{c01, c02};
use crate::dump::{self, Opts};
use crate::infra::*;
use crate::model;
use crate::spec::*;
use crate::build;
use std::path::{Path, PathBuf};

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every container and directory enumerated for C01 and C02 is decoded by an independent decoder that checks every structural rule of the format, and compared with the reference model; every file of the committed corpus, produced by the pinned version, is read by the current reader (those written since the repairs also by the decoder) and compared with its committed dump",
        assumptions: vec!["the independent decoder shares only the compression codecs and blake3 with the library"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

fn root() -> PathBuf { std::env::var("JV_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))) }

/// The corpus: compressions x packagings, store kinds, property kinds, several packs and clusters.
fn specs() -> Vec<(String, ContainerSpec)> {
    let mut v = vec![];
    let contents = || vec![
        ct(2, 0, 1, Hint::Yes, Src::Mem), ct(1, 700, 2, Hint::Yes, Src::Mem), ct(2, 300, 3, Hint::No, Src::Mem),
        ct(1, 1500, 4, Hint::Detect, Src::Mem), ct(0, 5000, 5, Hint::Yes, Src::Mem), ct(2, 1, 6, Hint::No, Src::Mem)];
    let dir = |k: u64| -> DirSpec {
        let pre = [0, 1, 3, 31][(k % 4) as usize];
        let common = vec![Col::A(pre, (k % 2) as usize, "path"), Col::C("addr"), Col::U("n"), Col::U("const"), Col::A(0, 1, "mime"), Col::S("t")];
        let variants: Vec<(Name, Vec<Col>)> = if k % 3 == 0 { vec![] } else {
            vec![("file", vec![Col::A(2, 0, "owner"), Col::U("size"), Col::U("mode"), Col::S("time")]), ("dir", vec![Col::U("first"), Col::U("last"), Col::U("x"), Col::U("y"), Col::U("z"), Col::U("zz")])] };
        let entries = (0..7u64).map(|j| {
            let mut vals = vec![
                ("path", Val::A(format!("some/path/{}/{}", "deep/".repeat(j as usize), 7 - j).into_bytes()[..(j as usize * 6).min(20 + j as usize)].to_vec())),
                ("addr", Val::C(if k % 2 == 0 { 1 } else { 1 + (j % 2) as u16 * 300 }, j as u32 * 70)),
                ("n", Val::U([0, 1, 255, 256, 65536, 1 << 40, u64::MAX][j as usize])),
                ("const", Val::U(123456)),
                ("mime", Val::A([b"text/plain".to_vec(), b"".to_vec(), b"text/html".to_vec()][(j % 3) as usize].clone())),
                ("t", Val::S([0, 1, 100, 127, 3, 9, 77][j as usize])),
            ];
            let variant = if variants.is_empty() { None } else {
                let w = (j % 2) as usize;
                if w == 0 { vals.extend([("owner", Val::A(vec![b'o'; j as usize])), ("size", Val::U(j * 100)), ("mode", Val::U(0o644)), ("time", Val::S(1_700_000_000 + j as i64))]); }
                else { vals.extend([("first", Val::U(j)), ("last", Val::U(j + 300)), ("x", Val::U(1 << 20)), ("y", Val::U(j)), ("z", Val::U(u64::MAX - j)), ("zz", Val::U(j))]); }
                Some(w)
            };
            EntrySpec { variant, vals }
        }).collect();
        let mut d = DirSpec {
            vstores: vec![k % 2 == 1, true],
            estores: vec![
                EStoreSpec { common, variants, sort: if k % 5 == 0 { Some(vec!["path"]) } else { None }, entries },
                EStoreSpec { common: vec![Col::U("r"), Col::U("k")], variants: vec![], sort: Some(vec!["k"]), entries: (0..3).map(|j| EntrySpec { variant: None, vals: vec![("r", Val::RefU(1, (j + 1) % 3)), ("k", Val::U(9 - j as u64))] }).collect() }],
            indexes: vec![],
        };
        d.indexes.push(IndexSpec { name: "all".into(), store: 0, offset: 0, count: 7, offset_of: None });
        d.indexes.push(IndexSpec { name: "window".into(), store: 0, offset: 2, count: 3, offset_of: None });
        d.indexes.push(IndexSpec { name: "other".into(), store: 1, offset: 0, count: 3, offset_of: None });
        d
    };
    let mut k = 0;
    for comp in [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)] {
        for mode in [Mode::One, Mode::Two, Mode::No] {
            for extra in 0..2 {
                v.push((format!("{comp:?}-{mode:?}-{extra}").replace(['(', ')'], "_"), ContainerSpec {
                    comp, dedup: k % 2 == 0, contents: contents(), dir: dir(k), mode,
                    extra: (0..extra).map(|_| (comp, contents()[..3].to_vec())).collect() }));
                k += 1;
            }
        }
    }
    // nothing at all, several clusters, single clusters of each kind
    v.push(("empty".into(), ContainerSpec::contents_only(Comp::Zstd(3), vec![])));
    v.push(("tiny-blobs".into(), ContainerSpec::contents_only(Comp::Zstd(3), (0..5000u32).map(|j| ct(2, (j % 3) as usize, j as u64, Hint::Yes, Src::Mem)).collect())));
    v.push(("raw-tiny-blobs".into(), ContainerSpec::contents_only(Comp::None, (0..4097u32).map(|j| ct(2, (j % 2) as usize, j as u64, Hint::Yes, Src::Mem)).collect())));
    v.push(("large-text".into(), ContainerSpec::contents_only(Comp::Lzma(6), (0..3).map(|j| ct(1, 2 << 20, j, Hint::Yes, Src::Mem)).collect())));
    v
}

pub fn generate(out: &Path) {
    std::fs::create_dir_all(out).unwrap();
    for (name, spec) in specs() {
        let dir = out.join(&name);
        clean(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let b = match guard(|| build::create(&spec, &dir, "c.jbk")) { Ok(Ok(b)) => b, e => { println!("{name}: not created: {:?}", e.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))); clean(&dir); let _ = std::fs::remove_dir(&dir); continue } };
        let mut want = model::expect(&spec, &b).unwrap();
        want.insert("#indexes".into(), Obs::Str(model::index_names(&spec.dir).join("\n")));
        std::fs::write(dir.join("expected.txt"), dump_text(&want)).unwrap();
        println!("{name}: {} files", files(&dir).len() - 1);
    }
}

fn corpus_dirs() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = vec![];
    for sub in ["base", "current"] {
        let Ok(rd) = std::fs::read_dir(root().join("corpus").join(sub)) else { continue };
        v.extend(rd.flatten().map(|e| e.path()).filter(|p| p.join("expected.txt").exists()));
    }
    v.sort();
    v
}

fn corpus() -> Space {
    let dirs = corpus_dirs();
    let n = dirs.len() as u64;
    let d2 = dirs.clone();
    Space::new("corpus", n.max(1), move |i, cx| {
        let Some(dir) = dirs.get(i as usize) else { return Err("the reference corpus is not there".into()) };
        cx.outcome(&format!("{i}"));
        cx.sample(|| dir.display().to_string());
        cx.states(1);
        cx.traces(2);
        let mut want = parse_dump(&std::fs::read_to_string(dir.join("expected.txt")).unwrap());
        let Some(Obs::Str(ix)) = want.remove("#indexes") else { unreachable!() };
        let ix: Vec<String> = ix.lines().map(|s| s.to_string()).collect();
        want.insert("p0/pack".into(), Obs::None);
        let packs = match want.get("pack_count") { Some(Obs::U(n)) => *n as u16, _ => 2 };
        // a copy: locations are looked up next to the file
        clean(cx.dir);
        for f in files(dir) { if f.file_name().unwrap() != "expected.txt" { std::fs::copy(&f, cx.dir.join(f.file_name().unwrap())).unwrap(); } }
        let main = cx.dir.join("c.jbk");
        let got = dump::observe(&main, &Opts { indexes: &ix, streams: true, max_pack: packs, check: true, ..Default::default() });
        cx.evals(want.len() as u64);
        if got.get("#check") != Some(&Obs::Bool(true)) { return Err(format!("its check says {:?}", got.get("#check"))) }
        disagree_contents(&want, &got)?;
        // the pinned version wrote the container header's size and signed columns with defects since repaired
        if dir.parent().unwrap().ends_with("current") {
            let fs: Vec<Vec<u8>> = std::iter::once(main.clone()).chain(files(cx.dir).into_iter().filter(|f| *f != main)).map(|f| read(&f)).collect();
            let got = crate::indep::to_dump(&fs, &ix).map_err(|e| format!("independent decoder: {e}"))?;
            want.remove("p0/pack");
            if let Some(d) = diff(&want, &got, model::modelled) { return Err(format!("corpus vs decoded: {d}")) }
        }
        clean(cx.dir);
        Ok(())
    })
    .desc(move |i| d2.get(i as usize).map(|d| d.display().to_string()).unwrap_or_default())
}

/// Manifests with any number of packs, their free data and locations: decoded, and read, as they were described.
fn manifests(t: Tier) -> Space {
    let mut ns = vec![0usize, 1, 2, 3, 17, 254, 255, 256, 257, 300];
    if t == Tier::Thorough { ns.extend([5, 16, 100, 510, 511, 512, 1000]) }
    let locs = ["", "é", super::c12::LONG];
    let radix = [ns.len() as u64, 3, 3];
    let n2 = ns.clone();
    Space::new("manifests", radix.iter().product(), move |i, cx| {
        let d = mixed(i, &radix);
        let (n, free, loc) = (ns[d[0] as usize], [0usize, 8, 300][d[1] as usize], locs[d[2] as usize]);
        clean(cx.dir);
        let said = super::c12::manual(cx.dir, n, free, loc);
        let b = read(&cx.dir.join("c.jbk"));
        let m = crate::indep::manifest(&b).map_err(|e| format!("independent decoder: {e}"))?;
        let lib = dump::observe_manifest(&cx.dir.join("c.jbk"), true);
        cx.outcome(&format!("{i}"));
        cx.states(1);
        cx.traces(2);
        cx.evals(said.len() as u64);
        if m.infos.len() != said.len() { return Err(format!("{} packs are listed, {} were given", m.infos.len(), said.len())) }
        for (k, s) in said.iter().enumerate() {
            let Some(g) = m.infos.iter().find(|g| g.uuid == s.uuid) else { return Err(format!("pack {k} is not listed")) };
            if (g.id, g.kind, g.size, &g.free, &g.location) != (s.id, s.kind, s.size, &s.free, &s.location) {
                return Err(format!("pack {k}: written as id {} kind {} size {} free data {:?} location {:?}, decoded as {} {} {} {:?} {:?}", s.id, s.kind, s.size, s.free, s.location, g.id, g.kind, g.size, g.free, g.location));
            }
            let h = crate::indep::hex(&s.uuid);
            for (f, want) in [("location", Obs::Str(s.location.clone())), ("freedata", Obs::A(s.free.clone())), ("freedata-of-id", Obs::A(s.free.clone()))] {
                let got = lib.get(&format!("m/{h}/{f}"));
                if got != Some(&want) { return Err(format!("pack {k} {f}: read as {:?}, written as {}", got.map(Obs::brief), want.brief())) }
            }
        }
        clean(cx.dir);
        Ok(())
    }).desc(move |i| { let d = mixed(i, &radix); format!("{} packs, free data {}, location {}", n2[d[0] as usize], d[1], d[2]) }).horizon(60)
}

/// The headers of each kind of pack on its own: vendor, pack id, free data, the size said to the manifest.
fn headers() -> Space {
    let vendors: [[u8; 4]; 3] = [[0; 4], [1, 2, 0xFE, 4], [0xFF; 4]];
    let ids = [1u16, 2, 255, 256, 0x1234, 65_534, 65_535];
    let frees: [[u8; 24]; 4] = [[0; 24], [0xFF; 24], std::array::from_fn(|k| k as u8 + 1), { let mut f = [0; 24]; f[23] = 7; f }];
    let radix = [3u64, ids.len() as u64, 4];
    Space::new("headers", radix.iter().product(), move |i, cx| {
        use jubako::{creator, Pack};
        let d = mixed(i, &radix);
        let (vendor, id, free) = (vendors[d[0] as usize], ids[d[1] as usize], frees[d[2] as usize]);
        let v = || jubako::VendorId::from(vendor);
        clean(cx.dir);
        let at = |n: &str| camino::Utf8PathBuf::from_path_buf(cx.dir.join(n)).unwrap();
        let es = |e: &dyn std::fmt::Display| format!("{e}");
        // a content pack, a directory pack, a manifest that lists them, a container that holds all of them
        let mut cc = creator::ContentPackCreator::new(at("c"), id.into(), v(), free.into(), creator::Compression::None).map_err(|e| es(&e))?;
        cc.add_content(Box::new(std::io::Cursor::new(vec![5u8; 300])), creator::CompHint::No).map_err(|e| es(&e))?;
        let (f, cpd) = cc.finalize().map_err(|e| es(&e))?;
        drop(f);
        let open = |n: &str| std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(at(n)).map_err(|e| es(&e));
        let mut dp = creator::DirectoryPackCreator::new(0.into(), v(), free.into());
        build::build_dir(&simple_dir(2)).install(&mut dp);
        let dpd = dp.finalize().map_err(|e| es(&e))?.write(&mut open("d")?).map_err(|e| es(&e))?;
        let said = [("d", b'd', *dpd.uuid.as_bytes(), dpd.pack_size.into_u64()), ("c", b'c', *cpd.uuid.as_bytes(), cpd.pack_size.into_u64())];
        let mut m = creator::ManifestPackCreator::new(v(), free.into());
        m.add_pack(dpd, "d");
        m.add_pack(cpd, "c");
        let muuid = m.finalize(&mut open("m")?).map_err(|e| es(&e))?;
        let mut k = creator::ContainerPackCreator::new(at("k"), free.into()).map_err(|e| es(&e))?;
        for (n, u) in [("c", uuid::Uuid::from_bytes(said[1].2)), ("m", muuid), ("d", uuid::Uuid::from_bytes(said[0].2))] {
            k.add_pack(u, &mut std::fs::File::open(at(n)).map_err(|e| es(&e))?).map_err(|e| es(&e))?;
        }
        drop(k.finalize().map_err(|e| es(&e))?);
        let (c, d, m, k) = (read(&cx.dir.join("c")), read(&cx.dir.join("d")), read(&cx.dir.join("m")), read(&cx.dir.join("k")));
        // the decoder
        let dec = |b: &[u8]| crate::indep::packs(b).map_err(|e| format!("independent decoder: {e}"));
        for (n, b, kind) in [("content", &c, b'c'), ("directory", &d, b'd'), ("manifest", &m, b'm')] {
            let h = &dec(b)?[0].head;
            if (h.kind, h.vendor, h.size) != (kind, vendor, b.len() as u64) { return Err(format!("{n} pack: header {h:?}")) }
        }
        for (n, _, u, size) in &said {
            let b = if *n == "c" { &c } else { &d };
            if dec(b)?[0].head.uuid != *u || *size != b.len() as u64 { return Err(format!("pack {n}: identity or size said to its creator")) }
        }
        if dec(&m)?[0].head.uuid != *muuid.as_bytes() { return Err("identity of the manifest".into()) }
        let inner = dec(&k)?;
        if inner.len() != 4 { return Err(format!("{} packs in the container", inner.len() - 1)) }
        if k[64 + 36..64 + 60] != free { return Err(format!("free data of the container: {:?}", &k[100..124])) }
        let content = crate::indep::content(&c, true)?;
        let direct = crate::indep::directory(&d)?;
        let manif = crate::indep::manifest(&m)?;
        for (n, f) in [("content", &content.free), ("directory", &direct.free), ("manifest", &manif.free)] {
            if f[..] != free { return Err(format!("free data of the {n} pack: decoded as {f:?}")) }
        }
        let listed: Vec<_> = manif.infos.iter().map(|i| (i.uuid, i.kind, i.id, i.size)).collect();
        for (_, kind, u, size) in &said {
            let want = (*u, *kind, if *kind == b'c' { id } else { 0 }, *size);
            if !listed.contains(&want) { return Err(format!("manifest: {want:?} is not listed in {listed:?}")) }
        }
        // the reader
        let rd = |b: &[u8]| jubako::Reader::from(b.to_vec());
        let (rc, rdir, rm) = (jubako::reader::ContentPack::new(rd(&c)), jubako::reader::DirectoryPack::new(rd(&d)), jubako::reader::ManifestPack::new(rd(&m)));
        let (rc, rdir, rm) = (rc.map_err(|e| es(&e))?, rdir.map_err(|e| es(&e))?, rm.map_err(|e| es(&e))?);
        if rc.get_free_data() != free || rdir.get_free_data() != free || rm.get_free_data().as_ref() != free { return Err("free data as read".into()) }
        let packs: [(&dyn Pack, &[u8]); 3] = [(&rc, &c), (&rdir, &d), (&rm, &m)];
        for (p, b) in packs {
            let h = &dec(b)?[0].head;
            if p.app_vendor_id() != v() || p.version() != (0, 2) || *p.uuid().as_bytes() != h.uuid || p.size().into_u64() != h.size || !p.check().map_err(|e| es(&e))? {
                return Err(format!("read: vendor {:?} version {:?} uuid {} size {}", p.app_vendor_id(), p.version(), p.uuid(), p.size().into_u64()));
            }
        }
        cx.states(4);
        cx.traces(4);
        cx.evals(12);
        cx.outcome(&format!("{i}"));
        clean(cx.dir);
        Ok(())
    }).desc(move |i| format!("{:?} (vendor, pack id, free data)", mixed(i, &radix)))
}

fn spaces(t: Tier, _d: &Path) -> Vec<Space> {
    set_oracle(Oracle::Independent);
    let mut v = vec![corpus(), manifests(t), headers()];
    v.extend(c01::shared(t));
    v.extend(c02::shared(t));
    v
}
