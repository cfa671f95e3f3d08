//! An independent LZ4 frame encoder and decoder, after the format specification.

use crate::rng::Rng;

pub fn xxh32(d: &[u8], seed: u32) -> u32 {
    const P1: u32 = 2654435761;
    const P2: u32 = 2246822519;
    const P3: u32 = 3266489917;
    const P4: u32 = 668265263;
    const P5: u32 = 374761393;
    let rd = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let mut i = 0;
    let mut h;
    if d.len() >= 16 {
        let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
        while i + 16 <= d.len() {
            for (k, x) in v.iter_mut().enumerate() {
                *x = x.wrapping_add(rd(i + 4 * k).wrapping_mul(P2)).rotate_left(13).wrapping_mul(P1);
            }
            i += 16;
        }
        h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
    } else {
        h = seed.wrapping_add(P5);
    }
    h = h.wrapping_add(d.len() as u32);
    while i + 4 <= d.len() {
        h = h.wrapping_add(rd(i).wrapping_mul(P3)).rotate_left(17).wrapping_mul(P4);
        i += 4;
    }
    while i < d.len() {
        h = h.wrapping_add((d[i] as u32).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        i += 1;
    }
    h = (h ^ (h >> 15)).wrapping_mul(P2);
    h = (h ^ (h >> 13)).wrapping_mul(P3);
    h ^ (h >> 16)
}

/// Decode a whole input as exactly one frame.
pub fn decode(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut at = 0usize;
    let take = |at: &mut usize, n: usize| -> Result<&[u8], String> {
        if *at + n > d.len() {
            return Err(format!("truncated at {}", *at));
        }
        let s = &d[*at..*at + n];
        *at += n;
        Ok(s)
    };
    let u32_of = |s: &[u8]| u32::from_le_bytes(s.try_into().unwrap());
    if u32_of(take(&mut at, 4)?) != 0x184D2204 {
        return Err("bad magic number".into());
    }
    let desc_start = at;
    let flg = take(&mut at, 1)?[0];
    let bd = take(&mut at, 1)?[0];
    if flg >> 6 != 1 {
        return Err("bad version".into());
    }
    if flg & 2 != 0 || bd & 0x8f != 0 {
        return Err("reserved bits set".into());
    }
    let independent = flg & 0x20 != 0;
    let block_sum = flg & 0x10 != 0;
    let has_size = flg & 8 != 0;
    let content_sum = flg & 4 != 0;
    let max = match bd >> 4 {
        4 => 64 << 10,
        5 => 256 << 10,
        6 => 1 << 20,
        7 => 4 << 20,
        _ => return Err("bad block size".into()),
    };
    let mut size = None;
    if has_size {
        size = Some(u64::from_le_bytes(take(&mut at, 8)?.try_into().unwrap()));
    }
    if flg & 1 != 0 {
        take(&mut at, 4)?;
    }
    let want = (xxh32(&d[desc_start..at], 0) >> 8) as u8;
    if take(&mut at, 1)?[0] != want {
        return Err("bad header checksum".into());
    }
    let mut out: Vec<u8> = vec![];
    loop {
        let bs = u32_of(take(&mut at, 4)?);
        if bs == 0 {
            break;
        }
        let n = (bs & 0x7fff_ffff) as usize;
        if n > max {
            return Err("block larger than the declared maximum".into());
        }
        let raw = take(&mut at, n)?;
        let before = out.len();
        if bs >> 31 == 1 {
            out.extend_from_slice(raw);
        } else {
            let base = if independent { out.len() } else { 0 };
            decode_block(raw, &mut out, base)?;
        }
        if out.len() - before > max {
            return Err("decoded block too large".into());
        }
        if block_sum && u32_of(take(&mut at, 4)?) != xxh32(raw, 0) {
            return Err("bad block checksum".into());
        }
    }
    if content_sum && u32_of(take(&mut at, 4)?) != xxh32(&out, 0) {
        return Err("bad content checksum".into());
    }
    if let Some(s) = size {
        if s != out.len() as u64 {
            return Err("bad content size".into());
        }
    }
    if at != d.len() {
        return Err(format!("{} bytes after the frame", d.len() - at));
    }
    Ok(out)
}

/// What lz-fear 0.1.1 decodes from a valid frame without content checksum: in frames
/// with linked blocks, stored blocks do not enter the window of later blocks. `None`
/// if a match reaches before the window that is left.
pub fn decode_without_stored(d: &[u8]) -> Option<Vec<u8>> {
    let flg = d[4];
    let independent = flg & 0x20 != 0;
    let mut at = 6 + if flg & 8 != 0 { 8 } else { 0 } + 1;
    let mut out = vec![];
    let mut window: Vec<u8> = vec![];
    loop {
        let bs = u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
        at += 4;
        if bs == 0 {
            return Some(out);
        }
        let n = (bs & 0x7fff_ffff) as usize;
        let raw = &d[at..at + n];
        at += n + if flg & 0x10 != 0 { 4 } else { 0 };
        if bs >> 31 == 1 {
            out.extend_from_slice(raw);
            continue;
        }
        if independent {
            window.clear();
        }
        let w = window.len();
        let mut b = window.clone();
        decode_block(raw, &mut b, 0).ok()?;
        out.extend_from_slice(&b[w..]);
        window = b.split_off(b.len().saturating_sub(65536));
    }
}

fn decode_block(b: &[u8], out: &mut Vec<u8>, base: usize) -> Result<(), String> {
    let mut i = 0;
    let get = |i: &mut usize| -> Result<u8, String> {
        let x = *b.get(*i).ok_or("truncated block")?;
        *i += 1;
        Ok(x)
    };
    loop {
        let token = get(&mut i)?;
        let mut lit = (token >> 4) as usize;
        if lit == 15 {
            loop {
                let x = get(&mut i)?;
                lit += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        if i + lit > b.len() {
            return Err("literals beyond the block".into());
        }
        out.extend_from_slice(&b[i..i + lit]);
        i += lit;
        if i == b.len() {
            return Ok(());
        }
        let off = get(&mut i)? as usize | (get(&mut i)? as usize) << 8;
        let mut len = (token & 15) as usize;
        if len == 15 {
            loop {
                let x = get(&mut i)?;
                len += x as usize;
                if x != 255 {
                    break;
                }
            }
        }
        len += 4;
        if off == 0 || off > out.len() - base {
            return Err("bad match offset".into());
        }
        for _ in 0..len {
            out.push(out[out.len() - off]);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Settings {
    pub block_code: u8,
    pub independent: bool,
    pub block_sum: bool,
    pub content_sum: bool,
    pub content_size: bool,
    /// Probability (of 8) to store a block uncompressed.
    pub stored: u64,
    /// Split blocks below their maximum size.
    pub split: bool,
}

impl Settings {
    pub fn random(r: &mut Rng) -> Settings {
        Settings {
            block_code: r.range(4, 7) as u8,
            independent: r.bool(),
            block_sum: r.bool(),
            content_sum: r.bool(),
            content_size: r.bool(),
            stored: *r.pick(&[0, 0, 2, 8]),
            split: r.chance(1, 3),
        }
    }
}

pub fn encode(data: &[u8], s: &Settings, r: &mut Rng) -> Vec<u8> {
    let mut o = 0x184D2204u32.to_le_bytes().to_vec();
    let start = o.len();
    o.push(
        0x40 | (s.independent as u8) << 5 | (s.block_sum as u8) << 4 | (s.content_size as u8) << 3 | (s.content_sum as u8) << 2,
    );
    o.push(s.block_code << 4);
    if s.content_size {
        o.extend_from_slice(&(data.len() as u64).to_le_bytes());
    }
    let hc = (xxh32(&o[start..], 0) >> 8) as u8;
    o.push(hc);
    let max = 1usize << (2 * s.block_code as usize + 8);
    let mut at = 0;
    while at < data.len() {
        let mut n = max.min(data.len() - at);
        if s.split && n > 1 {
            n = r.range(1, n as u64) as usize;
        }
        let from = if s.independent { at } else { at.saturating_sub(65535) };
        let comp = encode_block(&data[from..at + n], at - from);
        let stored = comp.len() >= n || r.chance(s.stored, 8);
        let (bytes, flag) = if stored { (data[at..at + n].to_vec(), 1u32 << 31) } else { (comp, 0) };
        o.extend_from_slice(&(bytes.len() as u32 | flag).to_le_bytes());
        o.extend_from_slice(&bytes);
        if s.block_sum {
            o.extend_from_slice(&xxh32(&bytes, 0).to_le_bytes());
        }
        at += n;
    }
    o.extend_from_slice(&[0; 4]);
    if s.content_sum {
        o.extend_from_slice(&xxh32(data, 0).to_le_bytes());
    }
    o
}

/// Greedy block compression of `d[start..]` with `d[..start]` as prefix.
fn encode_block(d: &[u8], start: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut table: std::collections::HashMap<[u8; 4], usize> = Default::default();
    let key = |i: usize| -> [u8; 4] { d[i..i + 4].try_into().unwrap() };
    for i in 0..start.min(d.len().saturating_sub(4)) {
        table.insert(key(i), i);
    }
    let n = d.len();
    let mut lit_start = start;
    let mut i = start;
    let seq = |o: &mut Vec<u8>, lits: &[u8], m: Option<(usize, usize)>| {
        let l = lits.len();
        let ml = m.map_or(0, |(_, len)| len - 4);
        o.push((l.min(15) as u8) << 4 | ml.min(15) as u8);
        let ext = |o: &mut Vec<u8>, mut x: usize| {
            while x >= 255 {
                o.push(255);
                x -= 255;
            }
            o.push(x as u8);
        };
        if l >= 15 {
            ext(o, l - 15);
        }
        o.extend_from_slice(lits);
        if let Some((off, _)) = m {
            o.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 {
                ext(o, ml - 15);
            }
        }
    };
    // The last match starts at least 12 bytes before the end and the last 5 bytes
    // are literals.
    while i + 12 < n {
        let k = key(i);
        let cand = table.insert(k, i);
        if let Some(c) = cand {
            if i - c <= 65535 {
                let mut len = 4;
                while i + len < n - 5 && d[c + len] == d[i + len] {
                    len += 1;
                }
                seq(&mut o, &d[lit_start..i], Some((i - c, len)));
                for j in (i + 1)..(i + len).min(n - 4) {
                    table.insert(key(j), j);
                }
                i += len;
                lit_start = i;
                continue;
            }
        }
        i += 1;
    }
    seq(&mut o, &d[lit_start..], None);
    o
}
