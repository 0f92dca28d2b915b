//! Independent decoder of the Jubako on-disk format.  Shares no code with the library.
//!
//! `decode` never panics on well formed files; on anything else it returns an error that names the
//! broken rule.  Every structural rule of the format is checked (mirror, CRC, zero padding, ordering,
//! sizes), not only those needed to find the values.

use crate::spec::*;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

macro_rules! bad { ($($t:tt)*) => { return Err(format!($($t)*)) } }
macro_rules! need { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }

/// CRC-32C polynomial, msb first, init all ones, no final xor.
pub fn crc(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for &x in b {
        c ^= (x as u32) << 24;
        c = CRC_T[(c >> 24) as usize] ^ (c << 8);
    }
    c
}
const CRC_T: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = (i as u32) << 24;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC_6F41 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
};

/// little endian cursor
pub struct Cur<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        need!(n <= self.b.len() - self.p, "block too short: want {n} at {} of {}", self.p, self.b.len());
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u(&mut self, n: usize) -> R<u64> {
        let s = self.take(n)?;
        let mut v = 0u64;
        for (i, x) in s.iter().enumerate() { v |= (*x as u64) << (8 * i); }
        Ok(v)
    }
    fn i(&mut self, n: usize) -> R<i64> {
        let v = self.u(n)?;
        let sh = 64 - 8 * n as u32;
        Ok(((v << sh) as i64) >> sh)
    }
    fn zero(&mut self, n: usize) -> R<()> {
        need!(self.take(n)?.iter().all(|x| *x == 0), "padding is not zero at {}", self.p - n);
        Ok(())
    }
    fn pstr(&mut self) -> R<String> {
        let n = self.u(1)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "string is not UTF-8".into())
    }
    fn end(&self) -> R<()> {
        need!(self.p == self.b.len(), "{} unread bytes in a block", self.b.len() - self.p);
        Ok(())
    }
    fn uuid(&mut self) -> R<[u8; 16]> {
        let mut u = [0; 16];
        u.copy_from_slice(self.take(16)?);
        Ok(u)
    }
}

fn slice(b: &[u8], at: u64, n: u64) -> R<&[u8]> {
    let e = at.checked_add(n).ok_or("offset overflow")?;
    need!(e <= b.len() as u64, "range {at}+{n} outside of {} bytes", b.len());
    Ok(&b[at as usize..e as usize])
}

thread_local! { static BLOCKS: std::cell::RefCell<Option<Vec<(usize, usize)>>> = const { std::cell::RefCell::new(None) }; }

/// (offset, size without its CRC) of every block with a CRC in the file.
pub fn blocks(b: &[u8]) -> R<Vec<(usize, usize)>> {
    BLOCKS.with(|r| *r.borrow_mut() = Some(vec![]));
    let d = decode(b);
    let v = BLOCKS.with(|r| r.borrow_mut().take()).unwrap_or_default();
    d?;
    let base = b.as_ptr() as usize;
    let mut v: Vec<(usize, usize)> = v.into_iter().filter(|x| x.0 >= base && x.0 + x.1 <= base + b.len()).map(|x| (x.0 - base, x.1)).collect();
    v.sort();
    v.dedup();
    Ok(v)
}

/// block of `n` bytes followed by its CRC
fn block<'a>(b: &'a [u8], at: u64, n: u64, what: &str) -> R<Cur<'a>> {
    let s = slice(b, at, n + 4).map_err(|e| format!("{what}: {e}"))?;
    let (d, c) = s.split_at(n as usize);
    BLOCKS.with(|r| if let Some(r) = r.borrow_mut().as_mut() { r.push((d.as_ptr() as usize, n as usize)) });
    need!(crc(d).to_be_bytes() == c, "{what}: bad CRC at {at}+{n}");
    Ok(Cur { b: d, p: 0 })
}

pub fn hex(u: &[u8; 16]) -> String {
    uuid::Uuid::from_bytes(*u).to_string()
}

#[derive(Clone, Debug)]
pub struct Head {
    pub kind: u8,
    pub vendor: [u8; 4],
    pub uuid: [u8; 16],
    pub size: u64,
    pub check_pos: u64,
}

fn head(b: &[u8]) -> R<Head> {
    let mut c = block(b, 0, 60, "pack header")?;
    need!(c.take(3)? == b"jbk", "no magic");
    let kind = c.u(1)? as u8;
    need!(b"mdcC".contains(&kind), "unknown pack kind {kind}");
    let mut vendor = [0; 4];
    vendor.copy_from_slice(c.take(4)?);
    need!(c.take(2)? == [0, 2], "version");
    let uuid = c.uuid()?;
    need!(c.u(1)? == 0, "flags");
    c.zero(5)?;
    let size = c.u(8)?;
    let check_pos = c.u(8)?;
    c.zero(12)?;
    c.end()?;
    Ok(Head { kind, vendor, uuid, size, check_pos })
}

/// A pack somewhere in the file.
#[derive(Clone, Debug)]
pub struct PackAt {
    pub start: u64,
    pub head: Head,
    /// the digest in its check block
    pub hash: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct InfoAt {
    pub uuid: [u8; 16],
    pub size: u64,
    pub check: (u64, u64),
    pub id: u16,
    pub kind: u8,
    pub group: u8,
    pub free_id: u16,
    pub location: String,
    /// position of the block inside the manifest pack
    pub at: u64,
    pub free: Vec<u8>,
    pub hash: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Manifest {
    pub free: Vec<u8>,
    pub infos: Vec<InfoAt>,
}

#[derive(Clone, Debug)]
pub struct ContentAt {
    pub cluster: u32,
    pub blob: u16,
    pub obs: Obs,
    /// stored bytes are the content's own bytes in the file, at this offset of the pack
    pub verbatim_at: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct ClusterAt {
    pub comp: u8,
    pub blobs: u16,
    pub stored: u64,
    pub size: u64,
    pub tail: (u64, u64),
    pub data_at: u64,
}

#[derive(Clone, Debug)]
pub struct Content {
    pub free: Vec<u8>,
    pub contents: Vec<ContentAt>,
    pub clusters: Vec<ClusterAt>,
}

#[derive(Clone, Debug)]
pub struct Directory {
    pub free: Vec<u8>,
    pub indexes: Vec<Index>,
    pub stores: Vec<EStore>,
}

#[derive(Clone, Debug)]
pub struct Index { pub name: String, pub store: u32, pub count: u32, pub offset: u32, pub free: Vec<u8>, pub key: u8 }

#[derive(Clone, Debug)]
pub struct EStore {
    pub common: Vec<String>,
    pub variants: Vec<(String, Vec<String>)>,
    /// (variant, property -> value)
    pub entries: Vec<(Option<u8>, BTreeMap<String, Obs>)>,
}

/// Reads the header, the mirrored tail and the check block of the pack `b` (exactly the pack's bytes).
pub fn frame(b: &[u8]) -> R<Head> {
    let h = head(b)?;
    need!(h.size == b.len() as u64, "pack size {} but {} bytes are there", h.size, b.len());
    need!(b.len() >= 128, "pack too small");
    let mut tail = b[b.len() - 64..].to_vec();
    tail.reverse();
    need!(tail == b[..64], "tail is not the mirror of the header");
    Ok(h)
}

pub fn checked(b: &[u8], h: &Head) -> R<Vec<u8>> {
    need!(h.check_pos + 64 <= h.size, "check info position");
    let n = h.size - 64 - h.check_pos;
    need!(n == 37, "check block has {n} bytes");
    let mut c = block(b, h.check_pos, 33, "check info")?;
    need!(c.u(1)? == 1, "check kind");
    let want = c.take(32)?.to_vec();
    let mut data = slice(b, 0, h.check_pos)?.to_vec();
    if h.kind == b'm' {
        let n = u16::from_le_bytes([b[64], b[65]]) as u64;
        need!(n * 256 <= h.check_pos, "pack infos");
        let first = h.check_pos - n * 256;
        for k in 0..n {
            let s = (first + k * 256) as usize;
            data[s + 38..s + 256].fill(0);
        }
    }
    need!(blake3::hash(&data).as_bytes()[..] == want[..], "blake3 of the {} pack does not match", h.kind as char);
    Ok(want)
}

fn digest(p: &[u8], h: &Head) -> Vec<u8> {
    slice(p, h.check_pos + 1, 32).map(|s| s.to_vec()).unwrap_or_default()
}

/// Every pack of the file `b`, the container (if any) first.
pub fn packs(b: &[u8]) -> R<Vec<PackAt>> {
    packs_at(b, 0)
}

pub fn packs_at(b: &[u8], start: u64) -> R<Vec<PackAt>> {
    let p = &b[start as usize..];
    let h = head(p)?;
    need!(h.size <= p.len() as u64, "pack size {} in {} bytes", h.size, p.len());
    let p = &p[..h.size as usize];
    if h.kind != b'C' {
        frame(p)?;
        return Ok(vec![PackAt { start, hash: digest(p, &h), head: h }]);
    }
    frame(p)?;
    let mut out = vec![PackAt { start, head: h.clone(), hash: vec![] }];
    let mut c = block(p, 64, 60, "container header")?;
    let loc = c.u(8)?;
    let n = c.u(2)?;
    c.zero(26)?;
    c.take(24)?;
    c.end()?;
    need!(loc + n * 36 == h.check_pos, "pack locators end at {} and the check info is at {}", loc + n * 36, h.check_pos);
    need!(h.check_pos + 5 + 64 == h.size, "container size");
    let mut k = block(p, h.check_pos, 1, "container check info")?;
    need!(k.u(1)? == 0, "container check kind");
    let mut at = 128;
    for i in 0..n {
        let mut c = block(p, loc + i * 36, 32, "pack locator")?;
        let uuid = c.uuid()?;
        let size = c.u(8)?;
        let pos = c.u(8)?;
        c.end()?;
        need!(pos == at, "pack {i} at {pos}, previous one ends at {at}");
        at = pos + size;
        let q = slice(p, pos, size)?;
        let qh = frame(q).map_err(|e| format!("pack {i}: {e}"))?;
        need!(qh.uuid == uuid, "locator {i} names another pack");
        need!(qh.kind != b'C', "nested container");
        out.push(PackAt { start: start + pos, hash: digest(q, &qh), head: qh });
    }
    need!(at == loc, "hole between packs and locators");
    Ok(out)
}

fn sized(c: &mut Cur) -> R<(u64, u64)> {
    let v = c.u(8)?;
    Ok((v >> 16, v & 0xFFFF))
}

fn value_store(p: &[u8], so: (u64, u64)) -> R<VStore> {
    let mut c = block(p, so.0, so.1, "value store tail")?;
    let kind = c.u(1)?;
    let vs = match kind {
        0 => {
            let n = c.u(8)?;
            VStore { data: vec![], offs: None, n }
        }
        1 => {
            let count = c.u(8)?;
            let w = c.u(1)? as usize;
            need!((1..=8).contains(&w), "offset size {w}");
            let n = c.u(w)?;
            let mut offs = vec![];
            if count > 0 { offs.push(0) }
            for _ in 1..count { offs.push(c.u(w)?); }
            need!(offs.windows(2).all(|x| x[0] <= x[1]), "value offsets decrease");
            offs.push(n);
            need!(count == 0 || offs[count as usize - 1] <= n, "value offset beyond data");
            VStore { data: vec![], offs: Some(offs), n }
        }
        k => bad!("value store kind {k}"),
    };
    c.end()?;
    need!(so.0 >= vs.n + 4, "value store data position");
    let d = block(p, so.0 - vs.n - 4, vs.n, "value store data")?;
    Ok(VStore { data: d.b.to_vec(), ..vs })
}

struct VStore { data: Vec<u8>, offs: Option<Vec<u64>>, n: u64 }
impl VStore {
    fn get(&self, key: u64, size: Option<u64>) -> R<&[u8]> {
        match &self.offs {
            None => {
                let n = size.ok_or("plain store without a length")?;
                slice(&self.data, key, n)
            }
            Some(o) => {
                need!((key as usize) < o.len() - 1, "value index {key} of {}", o.len() - 1);
                let s = &self.data[o[key as usize] as usize..o[key as usize + 1] as usize];
                match size {
                    None => Ok(s),
                    Some(n) => { need!(n <= s.len() as u64, "value shorter than {n}"); Ok(&s[..n as usize]) }
                }
            }
        }
    }
}

pub fn manifest(p: &[u8]) -> R<Manifest> {
    let h = frame(p)?;
    need!(h.kind == b'm', "not a manifest");
    checked(p, &h)?;
    let mut c = block(p, 64, 60, "manifest header")?;
    let n = c.u(2)?;
    let vs = sized(&mut c)?;
    c.zero(26)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let store = if vs == (0, 0) { None } else { Some(value_store(p, vs)?) };
    let first = h.check_pos.checked_sub(n * 256).ok_or("pack infos")?;
    need!(vs == (0, 0) || vs.0 + vs.1 + 4 == first, "pack infos do not follow the value store");
    let mut infos = vec![];
    let mut at_check = 128;
    for k in 0..n {
        let at = first + k * 256;
        let mut c = block(p, at, 252, "pack info")?;
        let uuid = c.uuid()?;
        let size = c.u(8)?;
        let check = sized(&mut c)?;
        let id = c.u(2)? as u16;
        let kind = c.u(1)? as u8;
        let group = c.u(1)? as u8;
        let free_id = c.u(2)? as u16;
        let location = c.pstr()?;
        need!(location.len() <= 213, "location");
        c.zero(213 - location.len())?;
        c.end()?;
        need!(b"dc".contains(&kind), "pack info kind {kind}");
        need!(check.0 == at_check, "check info of pack {k} at {}", check.0);
        at_check = check.0 + check.1;
        need!(check.1 == 37, "check info size {}", check.1);
        let mut cc = block(p, check.0, 33, "check info of a pack")?;
        need!(cc.u(1)? == 1, "check kind of a pack");
        let hash = cc.take(32)?.to_vec();
        let free = match &store { None => vec![], Some(s) => s.get(free_id as u64, None)?.to_vec() };
        infos.push(InfoAt { uuid, size, check, id, kind, group, free_id, location, at, free, hash });
    }
    Ok(Manifest { free, infos })
}

fn expand(comp: u8, data: &[u8], size: u64) -> R<Vec<u8>> {
    use std::io::Read;
    let mut out = Vec::new();
    let e = |e: std::io::Error| format!("decompression: {e}");
    match comp {
        0 => out = data.to_vec(),
        1 => { lz4::Decoder::new(data).map_err(e)?.take(size + 1).read_to_end(&mut out).map_err(e)?; }
        2 => {
            let s = xz2::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| format!("{e}"))?;
            xz2::read::XzDecoder::new_stream(data, s).take(size + 1).read_to_end(&mut out).map_err(e)?;
        }
        3 => { zstd::Decoder::new(data).map_err(e)?.take(size + 1).read_to_end(&mut out).map_err(e)?; }
        k => bad!("compression {k}"),
    }
    need!(out.len() as u64 == size, "cluster holds {} bytes, tail says {size}", out.len());
    Ok(out)
}

pub fn content(p: &[u8], with_data: bool) -> R<Content> {
    let h = frame(p)?;
    need!(h.kind == b'c', "not a content pack");
    if with_data { checked(p, &h)?; }
    let mut c = block(p, 64, 60, "content header")?;
    let cpos = c.u(8)?;
    let kpos = c.u(8)?;
    let n = c.u(4)?;
    let k = c.u(4)?;
    c.zero(12)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let mut kt = block(p, kpos, k * 8, "cluster table")?;
    let mut clusters = vec![];
    let mut datas: Vec<(Vec<u8>, Vec<u64>)> = vec![];
    let mut used: Vec<(u64, u64)> = vec![(0, 128)];
    for i in 0..k {
        let so = sized(&mut kt)?;
        let mut t = block(p, so.0, so.1, &format!("tail of cluster {i}"))?;
        let comp = t.u(1)? as u8;
        let w = t.u(1)? as usize;
        let blobs = t.u(2)?;
        need!((1..=8).contains(&w), "offset size {w}");
        need!(blobs > 0, "cluster {i} is empty");
        need!(blobs <= 4096, "cluster {i} has {blobs} blobs");
        let stored = t.u(w)?;
        let size = t.u(w)?;
        let mut offs = vec![0u64];
        for _ in 1..blobs { offs.push(t.u(w)?); }
        offs.push(size);
        t.end()?;
        need!(offs.windows(2).all(|x| x[0] <= x[1]), "blob offsets of cluster {i} decrease");
        need!(so.0 >= stored + 128, "cluster {i} data position");
        let at = so.0 - stored;
        if comp == 0 { need!(stored == size, "raw cluster {i}: stored {stored} of {size}"); }
        used.push((at, so.0 + so.1 + 4));
        if with_data {
            datas.push((expand(comp, slice(p, at, stored)?, size).map_err(|e| format!("cluster {i}: {e}"))?, offs));
        } else {
            datas.push((vec![], offs));
        }
        clusters.push(ClusterAt { comp, blobs: blobs as u16, stored, size, tail: so, data_at: at });
    }
    kt.end()?;
    used.push((kpos, kpos + k * 8 + 4));
    used.push((cpos, cpos + n * 4 + 4));
    used.push((h.check_pos, h.size));
    used.sort();
    for w in used.windows(2) {
        need!(w[0].1 == w[1].0, "bytes {}..{} of the content pack belong to nothing, or twice", w[0].1, w[1].0);
    }
    let mut ct = block(p, cpos, n * 4, "content table")?;
    let mut contents = vec![];
    let mut seen: Vec<Vec<bool>> = clusters.iter().map(|c| vec![false; c.blobs as usize]).collect();
    for i in 0..n {
        let v = ct.u(4)? as u32;
        let (cl, bl) = (v >> 12, v & 0xFFF);
        need!((cl as u64) < k, "content {i} in cluster {cl} of {k}");
        need!(bl < clusters[cl as usize].blobs as u32, "content {i} is blob {bl} of {}", clusters[cl as usize].blobs);
        need!(!seen[cl as usize][bl as usize], "blob {bl} of cluster {cl} belongs to two contents");
        seen[cl as usize][bl as usize] = true;
        let (d, o) = &datas[cl as usize];
        let (a, e) = (o[bl as usize], o[bl as usize + 1]);
        contents.push(ContentAt {
            cluster: cl,
            blob: bl as u16,
            obs: if with_data { Obs::data(&d[a as usize..e as usize]) } else { Obs::U(e - a) },
            verbatim_at: if clusters[cl as usize].comp == 0 { Some(clusters[cl as usize].data_at + a) } else { None },
        });
    }
    ct.end()?;
    for (i, s) in seen.iter().enumerate() {
        need!(s.iter().all(|x| *x), "cluster {i} has a blob that no content uses");
    }
    Ok(Content { free, contents, clusters })
}

#[derive(Clone, Debug)]
enum Kind {
    Pad,
    Addr { pw: usize, cw: usize, pack: Option<u16> },
    U(usize, Option<u64>),
    I(usize, Option<i64>),
    Arr { lw: usize, fixed: usize, key: Option<(usize, usize)>, def: Option<(u64, Vec<u8>, Option<u64>)> },
    Variant,
}
#[derive(Clone, Debug)]
struct Prop { name: String, kind: Kind, size: usize }

fn prop(c: &mut Cur) -> R<Prop> {
    let b = c.u(1)? as usize;
    let d = b & 15;
    let (kind, size) = match b >> 4 {
        0 => return Ok(Prop { name: String::new(), kind: Kind::Pad, size: d + 1 }),
        1 => {
            let pw = ((d >> 2) & 1) + 1;
            let cw = (d & 3) + 1;
            let pack = if d & 8 != 0 { Some(c.u(pw)? as u16) } else { None };
            (Kind::Addr { pw, cw, pack }, cw + if pack.is_some() { 0 } else { pw })
        }
        2 => {
            let w = (d & 7) + 1;
            let def = if d & 8 != 0 { Some(c.u(w)?) } else { None };
            (Kind::U(w, def), if def.is_some() { 0 } else { w })
        }
        3 => {
            let w = (d & 7) + 1;
            let def = if d & 8 != 0 { Some(c.i(w)?) } else { None };
            (Kind::I(w, def), if def.is_some() { 0 } else { w })
        }
        5 => {
            let lw = d & 3;
            let x = c.u(1)? as usize;
            let fixed = x & 31;
            let kw = x >> 5;
            let key = if kw != 0 { Some((kw, c.u(1)? as usize)) } else { None };
            let def = if d & 8 != 0 {
                need!(lw != 0, "default array without a length");
                let n = c.u(lw)?;
                let f = c.take(fixed)?.to_vec();
                let k = if kw != 0 { Some(c.u(kw)?) } else { None };
                Some((n, f, k))
            } else { None };
            let size = if def.is_some() { 0 } else { lw + fixed + kw };
            (Kind::Arr { lw, fixed, key, def }, size)
        }
        8 => (Kind::Variant, 1),
        t => bad!("property type {t}"),
    };
    let name = c.pstr()?;
    Ok(Prop { name, kind, size })
}

fn prop_value(p: &Prop, c: &mut Cur, vs: &[VStore]) -> R<Obs> {
    Ok(match &p.kind {
        Kind::Pad | Kind::Variant => unreachable!(),
        Kind::Addr { pw, cw, pack } => {
            let pk = match pack { Some(p) => *p, None => c.u(*pw)? as u16 };
            Obs::C(pk, c.u(*cw)? as u32)
        }
        Kind::U(_, Some(d)) => Obs::U(*d),
        Kind::U(w, None) => Obs::U(c.u(*w)?),
        Kind::I(_, Some(d)) => Obs::S(*d),
        Kind::I(w, None) => Obs::S(c.i(*w)?),
        Kind::Arr { lw, fixed, key, def } => {
            let (n, f, k) = match def {
                Some((n, f, k)) => (Some(*n), f.clone(), *k),
                None => {
                    let n = if *lw == 0 { None } else { Some(c.u(*lw)?) };
                    let f = c.take(*fixed)?.to_vec();
                    let k = match key { Some((kw, _)) => Some(c.u(*kw)?), None => None };
                    (n, f, k)
                }
            };
            let mut out = f;
            match n {
                Some(n) if n as usize <= out.len() => {
                    need!(out[n as usize..].iter().all(|x| *x == 0), "inline array padding is not zero");
                    out.truncate(n as usize);
                    if n as usize == *fixed && key.is_some() {
                        // nothing deported: the key must still designate an empty value
                    }
                }
                _ => {
                    let rest = n.map(|n| n - out.len() as u64);
                    match (key, k) {
                        (Some((_, s)), Some(k)) => {
                            let st = vs.get(*s).ok_or("value store index")?;
                            out.extend_from_slice(st.get(k, rest)?);
                        }
                        _ => need!(rest.unwrap_or(0) == 0, "array of {n:?} bytes without a store"),
                    }
                }
            }
            Obs::A(out)
        }
    })
}

fn entry_store(p: &[u8], so: (u64, u64), vs: &[VStore]) -> R<(EStore, (u64, u64))> {
    let mut c = block(p, so.0, so.1, "entry store tail")?;
    need!(c.u(1)? == 0, "entry store kind");
    let count = c.u(4)?;
    let flag = c.u(1)?;
    need!(flag == 0, "entry store flag {flag}");
    let size = c.u(2)? as usize;
    let nvar = c.u(1)? as usize;
    let nprop = c.u(1)? as usize;
    let mut props = vec![];
    for _ in 0..nprop { props.push(prop(&mut c)?); }
    c.end()?;
    let mut it = props.into_iter().peekable();
    let mut common = vec![];
    let mut csize = 0;
    while let Some(p) = it.next_if(|p| !matches!(p.kind, Kind::Variant)) {
        csize += p.size;
        common.push(p);
    }
    let mut variants: Vec<(String, Vec<Prop>)> = vec![];
    for p in it {
        if matches!(p.kind, Kind::Variant) { variants.push((p.name, vec![])); }
        else { variants.last_mut().unwrap().1.push(p); }
    }
    need!(variants.len() == nvar, "{nvar} variants declared, {} defined", variants.len());
    if nvar == 0 {
        need!(csize == size, "entry size {size}, properties take {csize}");
    } else {
        for (n, v) in &variants {
            let s: usize = v.iter().map(|p| p.size).sum();
            need!(csize + 1 + s == size, "variant {n}: {} bytes of {size}", csize + 1 + s);
        }
    }
    let total = count * size as u64;
    need!(so.0 >= total + 4, "entry data position");
    let start = so.0 - total - 4;
    let mut d = block(p, start, total, "entry data")?;
    let mut entries = vec![];
    for i in 0..count {
        let mut m = BTreeMap::new();
        let from = d.p;
        let mut put = |ps: &[Prop], d: &mut Cur, m: &mut BTreeMap<String, Obs>| -> R<()> {
            for q in ps {
                if let Kind::Pad = q.kind { d.zero(q.size)?; continue; }
                let v = prop_value(q, d, vs).map_err(|e| format!("entry {i} {}: {e}", q.name))?;
                need!(m.insert(q.name.clone(), v).is_none(), "property {} twice", q.name);
            }
            Ok(())
        };
        put(&common, &mut d, &mut m)?;
        let mut var = None;
        if nvar != 0 {
            let v = d.u(1)? as usize;
            need!(v < nvar, "variant {v} of {nvar}");
            var = Some(v as u8);
            put(&variants[v].1, &mut d, &mut m)?;
        }
        need!(d.p == from + size, "entry {i} is {} bytes of {size}", d.p - from);
        entries.push((var, m));
    }
    d.end()?;
    let names = |v: &[Prop]| {
        let mut n: Vec<String> = v.iter().filter(|p| !matches!(p.kind, Kind::Pad)).map(|p| p.name.clone()).collect();
        n.sort();
        n
    };
    Ok((EStore { common: names(&common), variants: variants.iter().map(|(n, v)| (n.clone(), names(v))).collect(), entries }, (start, so.0 + so.1 + 4)))
}

pub fn directory(p: &[u8]) -> R<Directory> {
    let h = frame(p)?;
    need!(h.kind == b'd', "not a directory pack");
    checked(p, &h)?;
    let mut c = block(p, 64, 60, "directory header")?;
    let (ipos, epos, vpos) = (c.u(8)?, c.u(8)?, c.u(8)?);
    let (ni, ne, nv) = (c.u(4)?, c.u(4)?, c.u(1)?);
    c.zero(3)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let mut used: Vec<(u64, u64)> = vec![(0, 128)];
    let mut t = block(p, vpos, nv * 8, "value store table")?;
    used.push((vpos, vpos + nv * 8 + 4));
    let mut vs = vec![];
    for i in 0..nv {
        let so = sized(&mut t)?;
        let v = value_store(p, so).map_err(|e| format!("value store {i}: {e}"))?;
        used.push((so.0 - v.n - 4, so.0 + so.1 + 4));
        vs.push(v);
    }
    t.end()?;
    let mut t = block(p, epos, ne * 8, "entry store table")?;
    used.push((epos, epos + ne * 8 + 4));
    let mut stores = vec![];
    for i in 0..ne {
        let so = sized(&mut t)?;
        let (s, u) = entry_store(p, so, &vs).map_err(|e| format!("entry store {i}: {e}"))?;
        used.push(u);
        stores.push(s);
    }
    t.end()?;
    let mut t = block(p, ipos, ni * 8, "index table")?;
    used.push((ipos, ipos + ni * 8 + 4));
    let mut indexes = vec![];
    for _ in 0..ni {
        let so = sized(&mut t)?;
        used.push((so.0, so.0 + so.1 + 4));
        let mut c = block(p, so.0, so.1, "index")?;
        let (store, count, offset) = (c.u(4)? as u32, c.u(4)? as u32, c.u(4)? as u32);
        let free = c.take(4)?.to_vec();
        let key = c.u(1)? as u8;
        let name = c.pstr()?;
        c.end()?;
        need!((store as usize) < stores.len(), "index of store {store}");
        indexes.push(Index { name, store, count, offset, free, key });
    }
    t.end()?;
    used.push((h.check_pos, h.size));
    used.sort();
    for w in used.windows(2) {
        need!(w[0].1 == w[1].0, "bytes {}..{} of the directory pack belong to nothing, or twice", w[0].1, w[1].0);
    }
    Ok(Directory { free, indexes, stores })
}

pub struct Decoded {
    pub packs: Vec<PackAt>,
    pub manifest: Option<(PackAt, Manifest)>,
    pub directories: Vec<(PackAt, Directory)>,
    pub contents: Vec<(PackAt, Content)>,
}

/// Decodes one file completely.
pub fn decode(b: &[u8]) -> R<Decoded> {
    let h = head(b)?;
    need!(h.size == b.len() as u64, "{} bytes in the file, header says {}", b.len(), h.size);
    let ps = packs(b)?;
    let mut d = Decoded { packs: ps.clone(), manifest: None, directories: vec![], contents: vec![] };
    for p in ps {
        let s = slice(b, p.start, p.head.size)?;
        match p.head.kind {
            b'm' => {
                need!(d.manifest.is_none(), "two manifests");
                d.manifest = Some((p.clone(), manifest(s)?));
            }
            b'd' => { let x = directory(s)?; d.directories.push((p, x)); }
            b'c' => { let x = content(s, true)?; d.contents.push((p, x)); }
            _ => {}
        }
    }
    Ok(d)
}

/// The observations of `dump::observe` for a container made of `files` (entry point first), as far as
/// structure and values go.
pub fn to_dump(files: &[Vec<u8>], indexes: &[String]) -> R<Dump> {
    let mut out = Dump::new();
    let mut ds = vec![];
    for (i, f) in files.iter().enumerate() {
        ds.push(decode(f).map_err(|e| format!("file {i}: {e}"))?);
    }
    let (mp, m) = ds.iter().find_map(|d| d.manifest.as_ref()).ok_or("no manifest")?;
    out.insert("uuid".into(), Obs::Str(hex(&mp.head.uuid)));
    out.insert("pack_count".into(), Obs::U(m.infos.len() as u64));
    let mut dirs = 0;
    for inf in &m.infos {
        let mut found = false;
        for d in &ds {
            let all = d.directories.iter().map(|x| &x.0).chain(d.contents.iter().map(|x| &x.0));
            for p in all {
                if p.head.uuid == inf.uuid {
                    found = true;
                    need!(p.head.kind == inf.kind, "kind of {}", hex(&inf.uuid));
                    need!(p.hash == inf.hash, "check info of {} in the manifest is not the one of the pack", hex(&inf.uuid));
                    need!(p.head.size == inf.size, "size of {}: {} in the manifest, {} in the pack", hex(&inf.uuid), inf.size, p.head.size);
                }
            }
        }
        need!(found, "pack {} is in no file", hex(&inf.uuid));
        if inf.kind == b'd' {
            dirs += 1;
            need!(inf.id == 0, "directory pack has id {}", inf.id);
            let (dp, dir) = ds.iter().flat_map(|d| d.directories.iter()).find(|x| x.0.head.uuid == inf.uuid).unwrap();
            out.insert("dir/uuid".into(), Obs::Str(hex(&dp.head.uuid)));
            out.insert("dir/free".into(), Obs::A(dir.free.clone()));
            dump_dir(dir, indexes, &mut out)?;
        } else {
            let (cp, c) = ds.iter().flat_map(|d| d.contents.iter()).find(|x| x.0.head.uuid == inf.uuid).unwrap();
            let pre = format!("p{}", inf.id);
            out.insert(format!("{pre}/count"), Obs::U(c.contents.len() as u64));
            out.insert(format!("{pre}/free"), Obs::A(c.free.clone()));
            out.insert(format!("{pre}/uuid"), Obs::Str(hex(&cp.head.uuid)));
            for (i, x) in c.contents.iter().enumerate() {
                if let Obs::Data { len, .. } = &x.obs { out.insert(format!("{pre}/c{i}/size"), Obs::U(*len)); }
                out.insert(format!("{pre}/c{i}"), x.obs.clone());
            }
        }
    }
    need!(dirs == 1, "{dirs} directory packs in the manifest");
    Ok(out)
}

pub fn dump_dir(dir: &Directory, indexes: &[String], out: &mut Dump) -> R<()> {
    for name in indexes {
        let ix = dir.indexes.iter().find(|i| i.name == *name);
        let pre = format!("ix/{name}");
        let Some(ix) = ix else { out.insert(pre, Obs::None); continue };
        let s = &dir.stores[ix.store as usize];
        out.insert(format!("{pre}/count"), Obs::U(ix.count as u64));
        out.insert(format!("{pre}/size"), Obs::U(ix.count as u64));
        out.insert(format!("{pre}/offset"), Obs::U(ix.offset as u64));
        if !s.variants.is_empty() {
            out.insert(format!("{pre}/variants"), Obs::Str(s.variants.iter().map(|(n, p)| format!("{n}:{}", p.join(","))).collect::<Vec<_>>().join(";")));
        }
        out.insert(format!("{pre}/common"), Obs::Str(s.common.join(",")));
        for i in 0..ix.count {
            let k = format!("{pre}/e{i}");
            match s.entries.get((ix.offset as u64 + i as u64) as usize) {
                None => { out.insert(k, Obs::None); }
                Some((v, m)) => {
                    if let Some(v) = v {
                        out.insert(format!("{k}/variant"), Obs::U(*v as u64));
                        out.insert(format!("{k}/variant_name"), Obs::Str(s.variants[*v as usize].0.clone()));
                    }
                    for (n, x) in m { out.insert(format!("{k}/{n}"), x.clone()); }
                }
            }
        }
    }
    for (k, ix) in dir.indexes.iter().enumerate() {
        out.insert(format!("ixn/{k}"), Obs::Str(format!("{}+{}", ix.offset, ix.count)));
    }
    Ok(())
}
