//! An encoder of content packs written from the format alone, so that clusters of any size and number can
//! be read without going through the creator.

use crate::indep::crc;
use std::io::Write;

#[derive(Clone, Debug)]
pub struct Cluster { pub comp: u8, pub blobs: Vec<Vec<u8>> }

fn squeeze(comp: u8, data: &[u8]) -> Vec<u8> {
    match comp {
        0 => data.to_vec(),
        1 => {
            let mut e = lz4::EncoderBuilder::new().level(1).block_size(lz4::BlockSize::Max64KB).build(vec![]).unwrap();
            e.write_all(data).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        2 => {
            let s = xz2::stream::Stream::new_lzma_encoder(&xz2::stream::LzmaOptions::new_preset(0).unwrap()).unwrap();
            let mut e = xz2::write::XzEncoder::new_stream(vec![], s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        _ => zstd::encode_all(data, 1).unwrap(),
    }
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(b);
    out.extend_from_slice(&crc(b).to_be_bytes());
}

/// A content pack: the contents are the blobs of the clusters in order.
pub fn content_pack(clusters: &[Cluster], uuid: [u8; 16]) -> Vec<u8> {
    let mut p = vec![0u8; 128];
    let mut ptrs = vec![];
    let mut infos = vec![];
    for (i, c) in clusters.iter().enumerate() {
        let data = c.blobs.concat();
        let raw = squeeze(c.comp, &data);
        p.extend_from_slice(&raw);
        let at = p.len() as u64;
        let mut t = vec![c.comp, 4];
        t.extend((c.blobs.len() as u16).to_le_bytes());
        t.extend((raw.len() as u32).to_le_bytes());
        t.extend((data.len() as u32).to_le_bytes());
        let mut o = 0u32;
        for (j, b) in c.blobs.iter().enumerate() {
            if j > 0 { t.extend(o.to_le_bytes()); }
            o += b.len() as u32;
            infos.extend((((i as u32) << 12) | j as u32).to_le_bytes());
        }
        ptrs.extend((at << 16 | t.len() as u64).to_le_bytes());
        put(&mut p, &t);
    }
    let kpos = p.len() as u64;
    put(&mut p, &ptrs);
    let cpos = p.len() as u64;
    put(&mut p, &infos);
    let check = p.len() as u64;
    let size = check + 37 + 64;
    let mut h = b"jbkc\0\0\0\x01\0\x02".to_vec();
    h.extend(uuid);
    h.extend([0; 6]);
    h.extend(size.to_le_bytes());
    h.extend(check.to_le_bytes());
    h.extend([0; 12]);
    let mut head = vec![];
    put(&mut head, &h);
    let mut h = cpos.to_le_bytes().to_vec();
    h.extend(kpos.to_le_bytes());
    h.extend((infos.len() as u32 / 4).to_le_bytes());
    h.extend((clusters.len() as u32).to_le_bytes());
    h.extend([0; 36]);
    put(&mut head, &h);
    p[..128].copy_from_slice(&head);
    let mut c = vec![1];
    c.extend(blake3::hash(&p).as_bytes());
    put(&mut p, &c);
    let mut f = p[..64].to_vec();
    f.reverse();
    p.extend(f);
    p
}

/// Bytes in which no two positions look alike, yet which compress a little.
pub fn text(len: usize, salt: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 24);
    let mut k = 0u64;
    while v.len() < len {
        let mut x = salt.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ k.wrapping_mul(0xD1B5_4A32_D192_ED03);
        x = (x ^ (x >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^= x >> 29;
        v.extend_from_slice(format!("{k:x}-{x:012x}/").as_bytes());
        k += 1;
    }
    v.truncate(len);
    v
}
