//! C01: every stored content reads back.  Reference model: the vector of inserted byte strings.

use super::util::*;
use crate::infra::*;
use crate::spec::*;
use std::path::Path;
use std::sync::Arc;

pub fn suite() -> Suite {
    Suite {
        level: "model_checking",
        rule: "every insertion history of the stated alphabet and bound is run on the real creator and read back through the real reader; a state is the container reached, a transition one insertion or finalisation",
        assumptions: vec!["data values are drawn from three generators (constant, text-like, incompressible) per length"],
        exhaustive: true,
        dbg: false,
        spaces,
    }
}

const COMPS: [Comp; 4] = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
const HINTS: [Hint; 3] = [Hint::Yes, Hint::No, Hint::Detect];

fn one(cx: &Cx, comp: Comp, contents: Vec<ContentSpec>, streams: bool) -> Result<(), String> {
    let s = ContainerSpec::contents_only(comp, contents);
    cx.sample(|| brief(&s));
    cx.outcome(&brief(&s));
    round_trip(&s, cx, streams)
}

fn alphabet(t: Tier) -> Vec<ContentSpec> {
    let mut v = vec![
        ct(2, 0, 1, Hint::Yes, Src::Mem),
        ct(2, 0, 2, Hint::No, Src::Mem),
        ct(2, 1, 3, Hint::Yes, Src::Mem),
        ct(2, 1, 4, Hint::No, Src::Mem),
        ct(1, 255, 5, Hint::Yes, Src::Mem),
        ct(2, 256, 6, Hint::No, Src::Mem),
        ct(2, 300, 7, Hint::Yes, Src::Range(3, 4)),
        ct(1, 5000, 8, Hint::Detect, Src::Mem),
        ct(2, 5000, 9, Hint::Detect, Src::Mem),
    ];
    if t == Tier::Thorough {
        v.push(ct(2, 65536, 10, Hint::Yes, Src::Mem));
        v.push(ct(1, 70000, 11, Hint::No, Src::File));
        v.push(ct(0, 4096, 12, Hint::Detect, Src::Custom));
    }
    v
}

fn seqs(t: Tier) -> Space {
    let al = alphabet(t);
    let k = if t == Tier::Quick { 3 } else { 4 };
    let a = al.len() as u64;
    let n = seq_count(a, k);
    let al2 = al.clone();
    Space::new("sequences", n * 4, move |i, cx| {
        let c = seq(i / 4, a, k).iter().map(|x| al[*x as usize].clone()).collect();
        one(cx, COMPS[(i % 4) as usize], c, true)
    })
    .desc(move |i| format!("{:?} {}", COMPS[(i % 4) as usize], brief_contents(&seq(i / 4, a, k).iter().map(|x| al2[*x as usize].clone()).collect::<Vec<_>>())))
}

fn lengths(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=34).collect();
    v.extend(236..=262);
    v.extend(505..=520);
    v.extend([1023, 1024, 1025, 2047, 2048, 2049]);
    v.extend(4090..=4100);
    v.extend([8191, 8192, 8193, 16383, 16384, 32767, 32768]);
    v.extend(65510..=65540);
    v.extend([131071, 131072, 131073, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]);
    v.extend([(4 << 20) - 2, (4 << 20) - 1, 4 << 20, (4 << 20) + 1]);
    if t == Tier::Thorough {
        v.extend(35..236);
        v.extend(263..505);
        v.extend(65000..65510);
        v.extend([(8 << 20) + 1, (1 << 24) - 4, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    v
}

fn lens(t: Tier) -> Space {
    let ls = lengths(t);
    let radix = [ls.len() as u64, 3, 3, 4, 2];
    let n = radix.iter().product();
    let ls2 = ls.clone();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let hint = HINTS[d[1] as usize];
        let c = ct(d[2] as u8, ls2[d[0] as usize], 1000 + d[0], hint, Src::Mem);
        // alone, or second in its cluster behind one byte and before another
        let v = if d[4] == 0 { vec![c] } else { vec![ct(2, 1, 5, hint, Src::Mem), c, ct(2, 2, 6, hint, Src::Mem)] };
        (COMPS[d[3] as usize], v)
    };
    let mk2 = mk.clone();
    // the heavy codec on megabytes of data is left to the other compressions in the quick tier
    Space::new("lengths", n, move |i, cx| {
        let (c, v) = mk(i);
        if t == Tier::Quick && matches!(c, Comp::Lzma(_)) && v.iter().any(|x| x.data.len() > 200_000) { cx.note("lzma on >200 kB skipped in this tier", 1); return Ok(()); }
        one(cx, c, v, i % 7 == 0)
    })
    .desc(move |i| { let (c, v) = mk2(i); format!("{c:?} {}", brief_contents(&v)) })
    .horizon(60)
}

/// every ratio of compressed to raw size around the width boundaries of a cluster tail
fn tails(t: Tier) -> Space {
    let edge: &[usize] = &[256, 65536];
    let around = if t == Tier::Quick { 40 } else { 80 };
    let span = if t == Tier::Quick { 46 } else { 120 };
    // an incompressible part of `edge - around + j` bytes followed by a compressible part
    let radix = [edge.len() as u64, span, 3, 3];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let e = edge[d[0] as usize];
        let base = e - around + d[1] as usize;
        let mut v = bytes(2, base, 7 + d[1]);
        v.extend(vec![b'a'; [0usize, 3, 40][d[2] as usize]]);
        let comp = [Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)][d[3] as usize];
        (comp, vec![ContentSpec { data: Arc::new(v), hint: Hint::Yes, src: Src::Mem }])
    };
    Space::new("tail-widths", n, move |i, cx| { let (c, v) = mk(i); one(cx, c, v, false) })
        .desc(move |i| { let (c, v) = mk(i); format!("{c:?} {}", brief_contents(&v)) })
}

fn all_levels() -> Vec<Comp> {
    let mut v = vec![Comp::None];
    v.extend((0..=15).map(Comp::Lz4).filter(|_| true));
    v.extend((0..=9).map(Comp::Lzma));
    v.extend((-22..=22).map(Comp::Zstd));
    v
}

fn levels(t: Tier) -> Space {
    let ls = all_levels();
    let sizes: &'static [usize] = if t == Tier::Quick { &[0, 1, 300, 5000, 70_000] } else { &[0, 1, 300, 5000, 70_000, 300_000, 3 << 20] };
    let n = ls.len() as u64 * sizes.len() as u64;
    let ls2 = ls.clone();
    let mk = move |i: u64| {
        let d = mixed(i, &[ls2.len() as u64, sizes.len() as u64]);
        let s = sizes[d[1] as usize];
        (ls2[d[0] as usize], vec![ct(1, s, 3, Hint::Yes, Src::Mem), ct(2, s, 4, Hint::Yes, Src::Mem), ct(0, s, 5, Hint::Yes, Src::Mem)])
    };
    let mk2 = mk.clone();
    Space::new("levels", n, move |i, cx| { let (c, v) = mk(i); one(cx, c, v, true) })
        .desc(move |i| { let (c, v) = mk2(i); format!("{c:?} {}", brief_contents(&v)) }).horizon(60)
}

fn sources(_t: Tier) -> Space {
    let srcs = [Src::Mem, Src::Custom, Src::File, Src::Range(0, 0), Src::Range(0, 9), Src::Range(7, 0), Src::Range(7, 9), Src::Range(5000, 1), Src::Range(70_000, 70_000)];
    let ls: [usize; 15] = [0, 1, 2, 4095, 4096, 4097, 8192, 65535, 65537, 131_072, 1 << 20, (4 << 20) - 1, 4 << 20, (4 << 20) + 1, (9 << 20) + 3];
    let radix = [srcs.len() as u64, ls.len() as u64, 3, 2, 2, 2];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let comp = [Comp::None, Comp::Zstd(1)][d[3] as usize];
        let c = ct([1u8, 2][d[4] as usize], ls[d[1] as usize], 40 + d[1], HINTS[d[2] as usize], srcs[d[0] as usize]);
        let mut s = ContainerSpec::contents_only(comp, vec![c, ct(2, 10, 3, Hint::No, Src::Mem), ct(2, 11, 4, Hint::Yes, Src::File)]);
        s.dedup = d[5] == 1;
        s
    };
    Space::new("sources", n, move |i, cx| { let s = mk(i); cx.outcome(&brief(&s)); cx.sample(|| brief(&s)); round_trip(&s, cx, true) })
        .desc(move |i| brief(&mk(i))).horizon(60)
}

/// Macro operations that bring the open cluster to its limits.
fn fills(t: Tier) -> Space {
    // (number of contents, length)
    let ops: &'static [(u32, usize, Hint)] = &[
        (1, 1, Hint::No),
        (1, 1, Hint::Yes),
        (1, 0, Hint::No),
        (4094, 2, Hint::No),
        (4095, 2, Hint::No),
        (4096, 2, Hint::No),
        (4094, 2, Hint::Yes),
        (4095, 2, Hint::Yes),
        (4096, 0, Hint::Yes),
        (1, (4 << 20) - 1, Hint::No),
        (1, (4 << 20) - 1, Hint::Yes),
        (1, 4 << 20, Hint::No),
        (1, 4 << 20, Hint::Yes),
        (2, (2 << 20) + 1, Hint::Yes),
        (1, (4 << 20) + 1, Hint::Detect),
    ];
    let k = if t == Tier::Quick { 2 } else { 3 };
    let a = ops.len() as u64;
    let n = seq_count(a, k) * 2;
    let mk = move |i: u64| {
        let mut v = vec![];
        for (p, o) in seq(i / 2, a, k).iter().enumerate() {
            let (cnt, len, h) = ops[*o as usize];
            for j in 0..cnt { v.push(ct(if len > 100_000 { 1 } else { 2 }, len, (p as u64) * 10_000 + j as u64, h, Src::Mem)); }
        }
        ContainerSpec::contents_only([Comp::None, Comp::Zstd(1)][(i % 2) as usize], v)
    };
    Space::new("cluster-limits", n, move |i, cx| { let s = mk(i); cx.outcome(&format!("{i}")); cx.sample(|| brief(&s)); round_trip(&s, cx, false) })
        .desc(move |i| format!("{:?} ops {:?}", [Comp::None, Comp::Zstd(1)][(i % 2) as usize], seq(i / 2, a, k).iter().map(|o| ops[*o as usize]).collect::<Vec<_>>()))
        .horizon(60)
}

/// Many clusters, read in several orders on one opened container (cache evictions).
fn many(t: Tier) -> Space {
    // (contents, compression, hint)
    let mut cases = vec![];
    for cnt in [4095 * 45, 4095 * 300u32] {
        for comp in [Comp::None, Comp::Zstd(1)] {
            for h in [Hint::Yes, Hint::No] {
                if t == Tier::Thorough || cnt < 4095 * 100 || h == Hint::Yes { cases.push((cnt, comp, h)); }
            }
        }
    }
    if t == Tier::Thorough { cases.push((4095 * 1100, Comp::None, Hint::Yes)); }
    let n = cases.len() as u64;
    let cases2 = cases.clone();
    Space::new("many-clusters", n, move |i, cx| {
        let (cnt, comp, hint) = cases[i as usize];
        let contents: Vec<ContentSpec> = (0..cnt).map(|j| ContentSpec { data: Arc::new(j.to_le_bytes()[..3].to_vec()), hint, src: Src::Mem }).collect();
        clean(cx.dir);
        let (p, addrs, _) = crate::build::create_content_pack(comp, false, &contents, cx.dir, "c.jbkc").map_err(|e| e.to_string())?;
        let r = (|| {
            let reader = jubako::Reader::from(jubako::FileSource::open(&p).map_err(|e| e.to_string())?);
            let cp = jubako::reader::ContentPack::new(reader).map_err(|e| e.to_string())?;
            if cp.get_content_count().into_u32() != cnt { return Err(format!("{} contents reported of {cnt}", cp.get_content_count().into_u32())); }
            // in order, backwards, and by strides that change cluster at each read
            let few = if t == Tier::Quick { 1000 } else { 10_000 };
            for (step, start, reads) in [(1u64, 0u64, cnt), (cnt as u64 - 1, cnt as u64 - 1, cnt), (4095, 0, few), (4097, 1, few), (7 * 4095 + 1, 3, few)] {
                let mut at = start;
                for _ in 0..reads {
                    let a = addrs[at as usize];
                    if a != (1, at as u32) { return Err(format!("content {at} has the address {a:?}")); }
                    let r = cp.get_content(jubako::ContentIdx::from(a.1)).map_err(|e| e.to_string())?.ok_or("no content")?;
                    let b = r.get_slice(jubako::Offset::from(0u64), r.size().into_u64() as usize).map_err(|e| e.to_string())?;
                    if b[..] != contents[at as usize].data[..] { return Err(format!("content {at}: read {:?}, written {:?}", &b[..], contents[at as usize].data)); }
                    at = (at + step) % cnt as u64;
                }
                cx.transitions(reads as u64);
            }
            // two clusters, one right after the other: every pair at a distance d = 2^k + {-1, 0, 1} (all of them when nothing has to be decompressed)
            let k = cnt / 4095;
            let near = |d: u32| (0..20).any(|b| d.abs_diff(1 << b) < 2);
            let plain = comp == Comp::None && k <= 300;
            for x in 0..k {
                for y in (0..k).filter(|y| if plain { true } else { near(x.abs_diff(*y)) && (x % 16 == 0 || k < 100) }) {
                    for (c, at) in [(x, x * 4095 + y % 4095), (y, y * 4095 + x % 4095)] {
                        let r = cp.get_content(jubako::ContentIdx::from(at)).map_err(|e| e.to_string())?.ok_or("no content")?;
                        let b = r.get_slice(jubako::Offset::from(0u64), r.size().into_u64() as usize).map_err(|e| e.to_string())?;
                        if b[..] != contents[at as usize].data[..] { return Err(format!("content {at} of cluster {c} (clusters {x} then {y}): read {:?}, written {:?}", &b[..], contents[at as usize].data)); }
                    }
                    cx.transitions(2);
                }
            }
            for past in [cnt, cnt + 1, u32::MAX] {
                if !matches!(cp.get_content(jubako::ContentIdx::from(past)), Ok(None)) { return Err(format!("address {past} past the count is not 'no such content'")); }
            }
            Ok(())
        })();
        clean(cx.dir);
        cx.states(1);
        cx.traces(1);
        cx.outcome(&format!("{i}"));
        cx.sample(|| format!("{comp:?} {hint:?} {cnt} contents of 3 bytes"));
        r
    })
    .desc(move |i| format!("{:?}", cases2[i as usize]))
    .horizon(400)
    .threads(4)
}

/// Bytes the disk (or the memory it is in) has left.
pub fn room(p: &std::path::Path) -> u64 {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    let mut s: libc::statvfs = unsafe { std::mem::zeroed() };
    if unsafe { libc::statvfs(c.as_ptr(), &mut s) } != 0 { return 0 }
    let free = s.f_bavail as u64 * s.f_frsize as u64;
    // a file system in memory: what it can hold is what is left of the memory
    let memory = std::fs::read_to_string("/proc/meminfo").ok().and_then(|m| m.lines().find(|l| l.starts_with("MemAvailable"))?.split_whitespace().nth(1)?.parse::<u64>().ok());
    if p.starts_with("/dev/shm") { free.min(memory.unwrap_or(0) * 1024 / 10 * 9) } else { free }
}

/// A content that makes offsets within a cluster, then offsets in the file, need more than 32 bits.
fn giant(t: Tier) -> Space {
    use jubako::creator::{self, ContentAdder};
    // (compression, hint of the giant, its length)
    let cases: Vec<(Comp, Hint, u64)> = match t {
        Tier::Quick => vec![(Comp::Zstd(1), Hint::No, (1 << 32) + 5), (Comp::Zstd(1), Hint::Yes, 1 << 32)],
        Tier::Thorough => {
            let mut v = vec![];
            for l in [(1u64 << 32) - 4, (1 << 32) - 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 5] {
                v.extend([(Comp::None, Hint::Yes, l), (Comp::Zstd(1), Hint::No, l), (Comp::Zstd(1), Hint::Yes, l)]);
            }
            v.extend([(Comp::Lz4(1), Hint::Yes, (1 << 32) + 1), (Comp::Lzma(0), Hint::Yes, (1 << 32) + 1)]);
            v
        }
    };
    let n = cases.len() as u64;
    let cases2 = cases.clone();
    Space::new("giant", n, move |i, cx| {
        let (comp, h, len) = cases[i as usize];
        clean(cx.dir);
        if room(cx.dir) < 3 * len { cx.note("no room", 1); return Ok(()) }
        let r = (|| {
            let er = |e: &dyn std::fmt::Display| format!("creation fails: {e}");
            // a sparse file, with something to recognise here and there
            let src = cx.dir.join("giant");
            let marks: Vec<(u64, [u8; 4])> = [0, 4090, 1 << 20, (1 << 31) - 2, (1 << 32) - 10, len - 4].iter().map(|p| (*p, [(*p >> 3) as u8 ^ 0x5a, 1, 2, *p as u8])).collect();
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(&src).map_err(|e| e.to_string())?;
                f.set_len(len).map_err(|e| e.to_string())?;
                for (p, b) in &marks { f.write_all_at(b, *p).map_err(|e| e.to_string())?; }
            }
            let p = camino::Utf8PathBuf::from_path_buf(cx.dir.join("c.jbkc")).unwrap();
            let mut cc = creator::ContentPackCreator::new(&p, jubako::PackId::from(1), crate::build::vendor(), Default::default(), crate::build::compression(comp)).map_err(|e| er(&e))?;
            let small: Vec<Vec<u8>> = (0..4u64).map(|k| bytes(2, 7 + k as usize, k)).collect();
            let mut at = vec![];
            for k in 0..5usize {
                let r: Box<dyn creator::InputReader> = if k == 1 { Box::new(creator::InputFile::open(camino::Utf8Path::from_path(&src).unwrap()).map_err(|e| er(&e))?) } else { Box::new(std::io::Cursor::new(small[k - usize::from(k > 1)].clone())) };
                let hint = match k { 1 => h, 4 => if h == Hint::Yes { Hint::No } else { Hint::Yes }, _ => h };
                at.push(crate::build::addr(ContentAdder::add_content(&mut cc, r, crate::build::hint(hint)).map_err(|e| er(&e))?));
                cx.transitions(1);
            }
            drop(cc.finalize().map_err(|e| er(&e))?);
            if at != (0..5).map(|k| (1, k)).collect::<Vec<_>>() { return Err(format!("addresses {at:?}")) }
            let f = jubako::FileSource::open(&p).map_err(|e| e.to_string())?;
            let cp = jubako::reader::ContentPack::new(jubako::Reader::from(f)).map_err(|e| format!("{e:?}"))?;
            if cp.get_content_count().into_u32() != 5 { return Err(format!("{} contents", cp.get_content_count().into_u32())) }
            for k in [4u32, 0, 2, 1, 3] {
                let r = cp.get_content(jubako::ContentIdx::from(k)).map_err(|e| format!("content {k}: {e:?}"))?.ok_or(format!("no content {k}"))?;
                let size = r.size().into_u64();
                if k == 1 {
                    if size != len { return Err(format!("the giant has {size} bytes instead of {len}")) }
                    let mut s = r.stream();
                    let (mut at, mut buf) = (0u64, vec![0u8; 4 << 20]);
                    let mut seen = vec![0u8; 4 * marks.len()];
                    loop {
                        let n = std::io::Read::read(&mut s, &mut buf).map_err(|e| format!("the giant at {at}: {e}"))?;
                        if n == 0 { break }
                        for (m, (p, _)) in marks.iter().enumerate() {
                            for j in 0..4 { if (at..at + n as u64).contains(&(p + j)) { let x = &mut buf[(p + j - at) as usize]; seen[4 * m + j as usize] = *x; *x = 0; } }
                        }
                        if buf[..n].chunks(4096).any(|c| c.iter().any(|b| *b != 0)) { return Err(format!("the giant differs between {at} and {}", at + n as u64)) }
                        at += n as u64;
                    }
                    if at != len { return Err(format!("{at} bytes of the giant instead of {len}")) }
                    if seen != marks.iter().flat_map(|m| m.1).collect::<Vec<_>>() { return Err("the giant differs".into()) }
                } else {
                    let want = &small[k as usize - usize::from(k > 1)];
                    if size != want.len() as u64 { return Err(format!("content {k} has {size} bytes instead of {}", want.len())) }
                    let b = r.get_slice(jubako::Offset::from(0u64), want.len()).map_err(|e| format!("content {k}: {e:?}"))?;
                    if b[..] != want[..] { return Err(format!("content {k}: {:?} instead of {want:?}", &b[..])) }
                }
            }
            if !matches!(cp.get_content(jubako::ContentIdx::from(5u32)), Ok(None)) { return Err("address 5 past the count is not 'no such content'".into()) }
            Ok(())
        })();
        clean(cx.dir);
        cx.states(1);
        cx.traces(1);
        cx.outcome(&format!("{i}"));
        r
    })
    .desc(move |i| format!("{:?}", cases2[i as usize]))
    .horizon(400)
    .threads(1)
}

fn tweak(mut c: ContentSpec) -> ContentSpec {
    *Arc::make_mut(&mut c.data).last_mut().unwrap() ^= 1;
    c
}

fn dedup(t: Tier) -> Space {
    let al: Vec<ContentSpec> = vec![
        ct(2, 0, 1, Hint::Yes, Src::Mem),
        ct(2, 9, 2, Hint::No, Src::Mem),
        ct(2, 9, 2, Hint::Yes, Src::File),
        ct(1, 4 << 20, 3, Hint::No, Src::Mem),
        ct(1, 4 << 20, 3, Hint::Yes, Src::Range(2, 3)),
        ct(2, 10, 2, Hint::Detect, Src::Custom),
        // the same length and all but the last byte
        ct(2, 70_000, 4, Hint::No, Src::Mem),
        tweak(ct(2, 70_000, 4, Hint::Yes, Src::File)),
        tweak(ct(1, 4 << 20, 3, Hint::No, Src::Mem)),
    ];
    let k = if t == Tier::Quick { 3 } else { 4 };
    let a = al.len() as u64;
    let n = seq_count(a, k) * 2;
    let al2 = al.clone();
    let mk = move |i: u64| {
        let mut s = ContainerSpec::contents_only([Comp::None, Comp::Zstd(1)][(i % 2) as usize], seq(i / 2, a, k).iter().map(|x| al2[*x as usize].clone()).collect());
        s.dedup = true;
        s
    };
    let mk2 = mk.clone();
    Space::new("dedup-sequences", n, move |i, cx| { let s = mk(i); cx.outcome(&brief(&s)); cx.sample(|| brief(&s)); round_trip(&s, cx, false) })
        .desc(move |i| brief(&mk2(i)))
}

/// several packs of one container, in every packaging
fn packs(t: Tier) -> Space {
    let al = alphabet(t);
    let radix = [4u64, 4, 3, 3, 3];
    let n = radix.iter().product();
    let mk = move |i: u64| {
        let d = mixed(i, &radix);
        let pick = |k: usize, n: usize| (0..n).map(|j| al[(j * 2 + k) % al.len()].clone()).collect::<Vec<_>>();
        let mut s = ContainerSpec::contents_only(COMPS[d[0] as usize], pick(0, 3));
        s.mode = [Mode::One, Mode::Two, Mode::No][d[2] as usize];
        for e in 0..d[3] { s.extra.push((COMPS[d[1] as usize], pick(1 + e as usize, 2 * d[4] as usize))); }
        s
    };
    let mk2 = mk.clone();
    Space::new("several-packs", n, move |i, cx| { let s = mk(i); cx.outcome(&brief(&s)); cx.sample(|| brief(&s)); round_trip(&s, cx, true) })
        .desc(move |i| brief(&mk2(i)))
}

/// The enumerations that go through `round_trip`, whatever reads back.
/// numbers of contents around what sixteen bits hold
pub fn numbers(t: Tier) -> Space {
    let counts: &'static [u32] = if t == Tier::Quick { &[65_535, 65_536, 65_537] } else { &[65_535, 65_536, 65_537, 131_072, 131_073, 500_000] };
    let mk = move |i: u64| {
        let d = mixed(i, &[counts.len() as u64, 2]);
        let h = [Hint::No, Hint::Yes][d[1] as usize];
        ContainerSpec::contents_only(Comp::Zstd(1), (0..counts[d[0] as usize]).map(|j| ct(2, (j % 4) as usize, j as u64, h, Src::Mem)).collect())
    };
    Space::new("numbers", counts.len() as u64 * 2, move |i, cx| { cx.outcome(&format!("{i}")); round_trip(&mk(i), cx, false) })
        .desc(move |i| format!("{:?}", mixed(i, &[counts.len() as u64, 2])))
        .horizon(120)
}

pub fn shared(t: Tier) -> Vec<Space> {
    vec![seqs(t), lens(t), tails(t), levels(t), fills(t), dedup(t), packs(t), numbers(t)]
}

fn spaces(t: Tier, _fix: &Path) -> Vec<Space> {
    set_oracle(Oracle::Reader);
    vec![seqs(t), lens(t), tails(t), levels(t), sources(t), fills(t), dedup(t), packs(t), many(t), giant(t)]
}
