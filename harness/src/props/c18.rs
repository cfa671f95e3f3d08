//! C18: corrupt chunk data gives an error or a full chunk, safely.

use serde_json::{json, Value};
use zarr::prelude::*;

use crate::arena::{self, Arena, Store};
use crate::lz4ref;
use crate::on_arena;
use crate::props::c02::{encoded_elements, reference_encode, Python};
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::world::{self, Act, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let mut py = cx.py.take();
    let suffix = *r.pick(&arena::SUFFIXES);
    if cx.index < 8 && !cfg!(miri) {
        let turn = cx.index as usize;
        on_arena!(cx, r, 5, 1, suffix, a => bomb(&a, turn, r, rep));
    } else if r.chance(1, 25) {
        on_arena!(cx, r, 5, 1, suffix, a => huge(&a, r, rep));
    } else {
        on_arena!(cx, r, 5, 1, suffix, a => one(cx, &mut py, &a, suffix, r, rep));
    }
    cx.py = py;
}

/// Streams that decode to very much more than the chunk needs.
fn bomb<H: Store>(a: &Arena<H>, turn: usize, r: &mut Rng, rep: &mut Report) {
    const BYTES: usize = 96 << 20;
    let names: Vec<&str> = codec_names().into_iter().filter(|n| *n != "raw").collect();
    let name = names[turn % names.len()];
    let n = r.range(1, 4000);
    let kind = Kind::U1;
    let mut m = Meta::new(&[n], &[n as u32], kind);
    m.codec = gen_codec(r, name, false);
    if name == "xz" {
        m.codec = Some(json!({"codec": "xz", "configuration": {"preset": 0}}));
    }
    rep.case["array"] = m.describe();
    rep.distinct(m.describe().to_string());
    let h = &a.handles[0];
    let z = crate::gen::create_array(h, "small", &m);
    {
        let mut large = Meta::new(&[BYTES as u64], &[BYTES as u32], kind);
        large.codec = m.codec.clone();
        let zl = crate::gen::create_array(h, "large", &large);
        let d = vec![r.below(3) as u8; BYTES];
        let o = write_chunk(h, "large", &zl, kind, &[0], &d);
        if !o.is_ok() {
            return rep.violation(format!("writing a large chunk: {:?}", o));
        }
        let bytes = a.files()["data/root/large/c0"].clone();
        a.backing.put("data/root/small/c0", &bytes);
    }
    for what in ["chunk", "region"] {
        let (o, most) = crate::most_allocated(|| match what {
            "chunk" => read_chunk(h, "small", &z, kind, &[0]),
            _ => read_region(h, "small", &z, kind, &[0], &[n]).map(|v| Some(v.1)),
        });
        rep.evaluations += 1;
        if let Out::Ok(v) = &o {
            if v.as_ref().map(|v| v.len()) != Some(n as usize) {
                return rep.violation(format!("reading a {} of {} elements from a longer stream gives {}", what, n, o.class()));
            }
        }
        if let Out::Panic(m) = &o {
            return rep.violation(format!("reading a {} from a longer stream panics: {}", what, m));
        }
        if most > BYTES / 2 {
            return rep.violation(format!("reading a {} of {} bytes from a stream that decodes to {} allocates {} bytes", what, n, BYTES, most));
        }
    }
    rep.count("bombs");
}

/// Chunks of more elements than any chunk can hold: nothing that is stored is as many.
fn huge<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report) {
    let (chunk, low): (Vec<u32>, usize) = match r.below(7) {
        // Sizes that are a few elements modulo 2^32.
        0 => (vec![1 << 16, 1 << 16], 0),
        1 => (vec![641, 6_700_417], 1),
        2 => (vec![2, (1 << 31) + r.range(1, 40) as u32], 0),
        3 => (vec![65_537, 1, 65_535 + 2], 131_073),
        // And modulo 2^64.
        4 => (vec![1 << 31, 1 << 31, 4], 0),
        5 => (vec![u32::MAX, u32::MAX, u32::MAX], 0),
        _ => (vec![1 << 22, 1 << 20, 1 << 22], 0),
    };
    let low = if chunk[0] == 2 { (chunk[1] as u64 * 2 - (1 << 32)) as usize } else { low };
    let kind = *r.pick(&KINDS);
    let shape: Vec<u64> = chunk.iter().map(|&c| r.range(1, 2 * c as u64)).collect();
    let mut m = Meta::new(&shape, &chunk, kind);
    m.c_order = r.bool();
    m.big = r.bool();
    if r.bool() {
        let name = *r.pick(&codec_names());
        m.codec = gen_codec(r, name, false);
    }
    rep.case["array"] = m.describe();
    rep.count("huge_chunks");
    rep.distinct(m.describe().to_string());
    let h = &a.handles[0];
    let z = match lib(|| {
        let z: ArrayMetadata = serde_json::from_str(&m.json().to_string())?;
        h.create_array("huge", &z).map(|_| z)
    }) {
        Out::Ok(z) => z,
        Out::Err(..) => return,
        o => return rep.violation(format!("creating the array: {:?}", o.map(drop))),
    };
    let pos: Vec<u64> = m.grid().iter().map(|&g| r.below(g)).collect();
    let of = |r: &mut Rng, n: usize| gen_data(r, kind, n);
    // The stream of another array, with as many elements as are left when the number overflows.
    let n = *r.pick(&[low, low, 0, 1, low + 1]);
    let data = of(r, n);
    let mut small = Meta::new(&[n.max(1) as u64], &[n.max(1) as u32], kind);
    small.codec = m.codec.clone();
    small.big = m.big;
    let bytes = if n == 0 {
        r.bytes(0)
    } else {
        let zs = crate::gen::create_array(h, "small", &small);
        match write_chunk(h, "small", &zs, kind, &[0], &data) {
            Out::Ok(_) => a.files()["data/root/small/c0"].clone(),
            o => return rep.violation(format!("writing a chunk: {:?}", o)),
        }
    };
    // Writing chunks of fewer elements.
    let before = a.files();
    rep.evaluations += 1;
    for k in 0..2 {
        let n = if k == 0 { low } else { r.usize(3) };
        let d = of(r, n);
        let o = write_chunk(h, "huge", &z, kind, &pos, &d);
        if !o.is_err() || a.files() != before {
            return rep.violation(format!("writing a chunk of {} elements, not {:?}, gives {:?}", n, chunk, o));
        }
    }
    let key = crate::props::c03::chunk_key("huge", &pos, &m.sep);
    a.backing.put(&key, &bytes);
    let o = read_chunk(h, "huge", &z, kind, &pos);
    if !o.is_err() {
        return rep.violation(format!("a chunk with {} elements, not {:?}, gives {}", n, chunk, o.class()));
    }
    let b = of(r, 3);
    let (o, _, _) = read_chunk_into(h, "huge", &z, kind, &pos, &b, &pos);
    if !o.is_err() {
        return rep.violation(format!("a chunk with {} elements, not {:?}, read into a buffer gives {}", n, chunk, o.class()));
    }
    // Regions in that chunk.
    let off: Vec<u64> = pos.iter().zip(&chunk).zip(&m.shape).map(|((p, &c), s)| (p * c as u64 + r.below(4.min(c as u64))).min(s - 1)).collect();
    let ext: Vec<u64> = off.iter().zip(&m.shape).map(|(o, s)| r.range(1, 3).min(s - o)).collect();
    let o = read_region(h, "huge", &z, kind, &off, &ext);
    if !o.is_err() {
        return rep.violation(format!("region {:?} {:?} of a chunk with {} elements, not {:?}, gives {}", off, ext, n, chunk, o.class()));
    }
    rep.count("huge_refused");
    // Parts of it can be refused, but nothing else can come of writing them.
    if low < 1000 {
        let before = a.files();
        let d = of(r, ext.iter().product::<u64>() as usize);
        let o = write_region(h, "huge", &z, kind, &off, &ext, &d, Layout::C);
        if !o.is_err() || a.files() != before {
            return rep.violation(format!("writing region {:?} {:?} of a chunk with {} elements, not {:?}, gives {}", off, ext, n, chunk, o.class()));
        }
    }
}

/// What reading must give.
#[derive(PartialEq, Debug)]
enum Must {
    /// An error or any full chunk.
    Either,
    Fail,
    /// An error or these elements.
    FailOr(Vec<u8>),
}

fn codec_of(m: &Meta) -> String {
    match &m.codec {
        None => "raw".to_string(),
        Some(c) if c["codec"] == json!(GZIP_URL) => "gzip".into(),
        Some(c) => c["codec"].as_str().unwrap().to_string(),
    }
}

/// A stream of the array's codec that holds these bytes.
fn stream<H: Store>(a: &Arena<H>, m: &Meta, py: &mut Option<Python>, r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let codec = codec_of(m);
    if codec == "raw" {
        return data.to_vec();
    }
    let library = !data.is_empty() && r.bool();
    if !library && (codec == "lz4" || !cfg!(miri)) {
        if cfg!(miri) {
            return lz4ref::encode(data, &lz4ref::Settings::random(r), r);
        }
        return reference_encode(py.get_or_insert_with(Python::start), r, &codec, data).0;
    }
    if data.is_empty() {
        return vec![];
    }
    let mut short = Meta::new(&[data.len() as u64], &[data.len() as u32], Kind::U1);
    short.codec = m.codec.clone();
    let key = "data/root/zz-helper/c0";
    match write_chunk(&a.handles[0], "zz-helper", &short.zarr(), Kind::U1, &[0], data) {
        Out::Ok(_) => (),
        o => panic!("writing a chunk: {:?}", o),
    }
    let v = a.files().get(key).cloned().expect("HARNESS: helper chunk");
    assert!(crate::gen::must("erase", lib(|| a.handles[0].erase(key))));
    v
}

const OTHER: [&str; 5] = ["raw", "gzip", "bzip2", "xz", "lz4"];

/// A corrupt stream with what is known about reading it.
fn corrupt<H: Store>(a: &Arena<H>, m: &Meta, stored: &[u8], good: &[u8], py: &mut Option<Python>, r: &mut Rng) -> (&'static str, Vec<u8>, Must) {
    let codec = codec_of(m);
    let plain = encoded_elements(m, good);
    match r.below(12) {
        0 | 1 => {
            let n = match r.below(4) {
                0 => 0,
                1 => stored.len() - 1 - r.usize(stored.len().min(12)),
                2 => r.usize(stored.len().min(40)),
                _ => r.usize(stored.len()),
            };
            let must = if codec == "raw" { Must::Fail } else { Must::FailOr(good.to_vec()) };
            ("truncated", stored[..n].to_vec(), must)
        }
        2 | 3 => {
            // Also empty streams, partial elements, and one byte short.
            let n = match r.below(4) {
                0 => 0,
                1 => plain.len() - 1,
                _ => r.usize(plain.len()),
            };
            ("short", stream(a, m, py, r, &plain[..n]), Must::Fail)
        }
        4 => {
            let mut d = plain.clone();
            let most = if r.bool() { 3 * plain.len() + 20 } else { 9 };
            let n = 1 + r.usize(most);
            d.extend(r.bytes(n));
            ("long", stream(a, m, py, r, &d), Must::FailOr(good.to_vec()))
        }
        5 => {
            let mut d = stored.to_vec();
            match r.below(3) {
                0 => {
                    let n = 1 + r.usize(40);
                    d.extend(r.bytes(n))
                }
                1 => d.extend_from_slice(stored),
                _ => d.extend(vec![0; 1 + r.usize(300)]),
            }
            ("appended", d, Must::FailOr(good.to_vec()))
        }
        6 => {
            let other = *r.pick(&OTHER);
            if other == codec || (cfg!(miri) && other != "lz4" && other != "raw") {
                let n = r.usize(200);
                return ("random", r.bytes(n), if codec == "raw" && n < plain.len() { Must::Fail } else { Must::Either });
            }
            let d = match other {
                "raw" => plain,
                "lz4" => lz4ref::encode(&plain, &lz4ref::Settings::random(r), r),
                c => reference_encode(py.get_or_insert_with(Python::start), r, c, &plain).0,
            };
            let must = if codec == "raw" && d.len() < good.len() { Must::Fail } else { Must::Either };
            ("other_codec", d, must)
        }
        7 => {
            // Plausible starts followed by garbage.
            let n = r.usize(120);
            let mut d = match r.below(5) {
                0 => vec![31, 139, 8, r.below(32) as u8, 0, 0, 0, 0, 0, 255],
                1 => vec![b'B', b'Z', b'h', b'1' + r.below(9) as u8, 0x31, 0x41, 0x59, 0x26, 0x53, 0x59],
                2 => vec![0xfd, b'7', b'z', b'X', b'Z', 0, 0, 4, 0xe6, 0xd6, 0xb4, 0x46],
                3 => lz4_header(r),
                _ => stored[..r.usize(stored.len().min(24))].to_vec(),
            };
            d.extend(r.bytes(n));
            let must = if codec == "raw" && d.len() < good.len() { Must::Fail } else { Must::Either };
            ("garbage", d, must)
        }
        _ => {
            let mut d = stored.to_vec();
            for _ in 0..r.range(1, 4) {
                mutate(&mut d, r);
            }
            if codec == "lz4" && d.len() > 7 && r.chance(2, 3) {
                let at = if d[4] & 8 != 0 { 14 } else { 6 };
                if d.len() > at {
                    d[at] = (lz4ref::xxh32(&d[4..at], 0) >> 8) as u8;
                }
            }
            let must = if codec == "raw" && d.len() < good.len() { Must::Fail } else { Must::Either };
            ("mutated", d, must)
        }
    }
}

fn lz4_header(r: &mut Rng) -> Vec<u8> {
    let mut d = 0x184D2204u32.to_le_bytes().to_vec();
    d.push(if r.bool() { 0x40 | r.below(64) as u8 } else { r.below(256) as u8 });
    d.push(if r.bool() { (r.range(4, 7) << 4) as u8 } else { r.below(256) as u8 });
    if d[4] & 8 != 0 {
        let n = *r.pick(&[0, 1, 1000, u64::MAX, 1 << 40]);
        d.extend_from_slice(&n.to_le_bytes());
    }
    if d[4] & 1 != 0 {
        d.extend(r.bytes(4));
    }
    let hc = (lz4ref::xxh32(&d[4..], 0) >> 8) as u8;
    d.push(hc);
    let n = if r.bool() { r.below(60) as u32 } else { r.u64() as u32 };
    d.extend_from_slice(&n.to_le_bytes());
    d
}

fn mutate(d: &mut Vec<u8>, r: &mut Rng) {
    if d.is_empty() {
        *d = r.bytes(5);
        return;
    }
    let near = |r: &mut Rng, n: usize| if r.bool() { r.usize(n.min(24)) } else { r.usize(n) };
    let at = near(r, d.len());
    match r.below(8) {
        0 | 1 => d[at] ^= 1 << r.below(8),
        2 => d[at] = r.below(256) as u8,
        3 => d[at] = *r.pick(&[0, 0xff, 0x7f, 0x80, 1]),
        4 => {
            let v = *r.pick(&[u32::MAX, i32::MAX as u32, 1 << 31, 0, 1, 0x10000, 1 << 30]);
            for (i, b) in v.to_le_bytes().iter().enumerate() {
                if at + i < d.len() {
                    d[at + i] = *b;
                }
            }
        }
        5 => {
            let n = 1 + r.usize((d.len() - at).min(30));
            d.drain(at..at + n);
        }
        6 => {
            let n = 1 + r.usize(30);
            let b = r.bytes(n);
            d.splice(at..at, b);
        }
        _ => {
            // A part of it somewhere else.
            let n = 1 + r.usize((d.len() - at).min(60));
            let b = d[at..at + n].to_vec();
            let to = r.usize(d.len());
            d.splice(to..to, b);
        }
    }
}

/// Read a chunk and then another one through the same buffer.
#[allow(clippy::type_complexity)]
fn reuse<H: Store>(h: &H, path: &str, z: &ArrayMetadata, kind: Kind, first: &[u64], second: &[u64]) -> (Out<Option<()>>, Vec<u8>, Out<Option<()>>, Vec<u8>) {
    with_kind!(kind, T => {
        let mut c = VecDataChunk::<T>::new(gc(first), vec![]);
        let a = lib(|| h.read_chunk_into::<T, VecDataChunk<T>>(path, z, gc(first), &mut c));
        let da = to_bytes(c.get_data());
        let b = lib(|| h.read_chunk_into::<T, VecDataChunk<T>>(path, z, gc(second), &mut c));
        (a, da, b, to_bytes(c.get_data()))
    })
}

fn one<H: Store>(cx: &mut Cx, py: &mut Option<Python>, a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let big = *r.pick(&[60, 300, 300, 5000, 5000, if cx.thorough { 200_000 } else { 40_000 }]);
    let o = world::Opts { max_chunk_bytes: if cfg!(miri) { 120 } else { big }, arrays: 2, groups: 0, extra: false, ..Default::default() };
    let w = World::create(a, suffix, &o, r);
    let h = &a.handles[0];
    let mut trace = vec![];
    for _ in 0..if cfg!(miri) { 3 } else { 12 } {
        let with: Vec<String> = w.nodes.iter().filter(|(_, n)| !n.chunks.is_empty()).map(|(p, _)| p.clone()).collect();
        if with.is_empty() {
            return;
        }
        let path = r.pick(&with).clone();
        let m = w.meta(&path).clone();
        let z = w.nodes[&path].array.as_ref().unwrap().1.clone();
        let all: Vec<Vec<u64>> = w.nodes[&path].chunks.keys().cloned().collect();
        let pos = r.pick(&all).clone();
        let good = w.nodes[&path].chunks[&pos].clone();
        let key = w.chunk_key(&path, &pos);
        let valid = a.files()[&key].clone();
        // Corruption of a foreign stream reaches other features of the formats.
        let base = if r.chance(1, 3) { stream(a, &m, py, r, &encoded_elements(&m, &good)) } else { valid.clone() };
        let linked = codec_of(&m) == "lz4" && base.get(4).map_or(false, |f| f & 0x20 == 0) && features_pure();
        let (what, bytes, mut must) = corrupt(a, &m, &base, &good, py, r);
        if linked || (features_pure() && codec_of(&m) == "lz4" && matches!(what, "long" | "appended") && bytes.get(4).map_or(false, |f| f & 0x20 == 0)) {
            // Known finding C02-LZFEAR-WINDOW: the data of such frames may be wrong.
            if must != Must::Fail {
                must = Must::Either;
            }
        }
        let show = json!([path, pos, codec_of(&m), format!("{:?}", m.kind), m.chunk, what, bytes.len(), if bytes.len() <= 200 { json!(bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>()) } else { Value::Null }]);
        rep.case["corrupt"] = show.clone();
        rep.case["store"] = json!(a.backing.name());
        rep.case["suffix"] = json!(suffix);
        trace.push(show);
        rep.evaluations += 1;
        rep.count(what);
        rep.count(&format!("{}_streams", codec_of(&m)));
        rep.seen("corrupt_streams", crate::rng::hash_bytes(&bytes));
        a.backing.put(&key, &bytes);
        if let Err(e) = check(py, h, &w, &path, &m, &z, &pos, &good, &bytes, must, r, rep) {
            return rep.violation(format!("{} {} stream ({} bytes, {:?} {:?} elements): {}", what, codec_of(&m), bytes.len(), m.chunk, m.kind, e));
        }
        // Nothing else is affected, and the chunk is fine once its data is.
        let skip = |k: &str| k == key;
        if let Err(e) = w.verify(h, &skip) {
            return rep.violation(format!("with a {} chunk at {:?} {}", what, pos, e));
        }
        a.backing.put(&key, &valid);
        if let Err(e) = w.verify(h, &|_| false) {
            return rep.violation(format!("after the {} chunk at {:?} was put right, {}", what, pos, e));
        }
    }
    rep.distinct(format!("{}{:?}", a.backing.name(), trace));
    rep.sample(json!({"store": a.backing.name(), "streams": trace}));
}

fn features_pure() -> bool {
    crate::props::features() != "native"
}

#[allow(clippy::too_many_arguments)]
fn check<H: Store>(py: &mut Option<Python>, h: &H, w: &World, path: &str, m: &Meta, z: &ArrayMetadata, pos: &[u64], good: &[u8], bytes: &[u8], must: Must, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let got = read_chunk(h, path, z, m.kind, pos);
    match &got {
        Out::Panic(e) => return Err(format!("reading panics: {}", e)),
        Out::Ok(None) => return Err("read as absent".into()),
        Out::Ok(Some(d)) => {
            rep.count("full_chunks");
            if d.len() != m.chunk_bytes() {
                return Err(format!("read as {} bytes of elements, the chunk has {}", d.len(), m.chunk_bytes()));
            }
            match &must {
                Must::Fail => return Err("it has too few elements, but was read".into()),
                Must::FailOr(x) if !w.same_chunk(path, pos, x, d) => return Err("read as other elements than it holds".into()),
                _ => (),
            }
            if let Some(p) = decoded_prefix(py, m, bytes, r) {
                if p.len() >= d.len() {
                    rep.count("compared_with_reference");
                    if m.kind != Kind::Bool && encoded_elements(m, d) != p[..d.len()] {
                        return Err("read as other elements than it decodes to".into());
                    }
                }
            }
        }
        Out::Err(..) => rep.count("errors"),
    }
    // Whether what follows the needed bytes in a corrupt stream is noticed may depend on
    // how the bytes arrive, so that some reads fail and others do not, but those
    // that succeed must agree.
    let mut known: Option<Vec<u8>> = match (&got, &must) {
        (Out::Ok(Some(d)), _) => Some(d.clone()),
        (_, Must::FailOr(d)) => Some(d.clone()),
        _ => None,
    };
    let mut agree = |o: &Out<Option<()>>, d: &[u8], how: &str| match o {
        Out::Err(..) => Ok(()),
        Out::Ok(Some(())) if must != Must::Fail && d.len() == m.chunk_bytes() => {
            let k = known.get_or_insert_with(|| d.to_vec());
            if w.same_chunk(path, pos, k, d) {
                Ok(())
            } else {
                Err(format!("{} gives other elements than reading it before", how))
            }
        }
        o => Err(format!("read_chunk gives {:?}, {} gives {:?} and {} bytes", got, how, o, d.len())),
    };
    let again = read_chunk(h, path, z, m.kind, pos);
    let d = again.as_ref().ok().and_then(|d| d.clone()).unwrap_or_default();
    agree(&again.map(|o| o.map(drop)), &d, "read_chunk again")?;
    // Through buffers that hold something.
    let n = *r.pick(&[0, m.chunk_elems(), 1, m.chunk_elems() + 3]);
    let before = gen_data(r, m.kind, n);
    let (o, d, _) = read_chunk_into(h, path, z, m.kind, pos, &before, pos);
    agree(&o, &d, "read_chunk_into")?;
    let others: Vec<&Vec<u64>> = w.nodes[path].chunks.keys().filter(|p| p[..] != *pos).collect();
    let absent = m.positions().into_iter().find(|p| !w.nodes[path].chunks.contains_key(p));
    if !others.is_empty() {
        let second = (*r.pick(&others)).clone();
        let (o1, d1, o2, d2) = reuse(h, path, z, m.kind, pos, &second);
        agree(&o1, &d1, "read_chunk_into an empty buffer")?;
        if !matches!(o2, Out::Ok(Some(()))) || !w.same_chunk(path, &second, &w.nodes[path].chunks[&second], &d2) {
            return Err(format!("chunk {:?} read through the same buffer gives {:?}", second, o2));
        }
        rep.count("reused_buffers");
    }
    if let Some(p) = absent {
        let (_, _, o2, _) = reuse(h, path, z, m.kind, pos, &p);
        if !matches!(o2, Out::Ok(None)) {
            return Err(format!("absent chunk {:?} read through the same buffer gives {:?}", p, o2));
        }
    }
    // In region reads.
    let mut with = w.clone();
    if let Some(d) = &known {
        with.nodes.get_mut(path).unwrap().chunks.insert(pos.to_vec(), d.clone());
    }
    let lo: Vec<u64> = pos.iter().zip(&m.chunk).map(|(p, &c)| p * c as u64).collect();
    let hi: Vec<u64> = (0..m.rank()).map(|d| (lo[d] + m.chunk[d] as u64).min(m.shape[d])).collect();
    for k in 0..3 {
        let (offset, shape): (Vec<u64>, Vec<u64>) = match k {
            0 => (lo.clone(), lo.iter().zip(&hi).map(|(l, h)| h - l).collect()),
            1 if m.shape.iter().product::<u64>() < 30_000 => (vec![0; m.rank()], m.shape.clone()),
            _ => {
                // Some box that meets the chunk.
                let at: Vec<u64> = (0..m.rank()).map(|d| r.range(lo[d], hi[d] - 1)).collect();
                let off: Vec<u64> = (0..m.rank()).map(|d| r.range(at[d].saturating_sub(3), at[d])).collect();
                let sh = (0..m.rank()).map(|d| r.range(at[d] + 1, (at[d] + 4).min(m.shape[d].max(at[d] + 1))) - off[d]).collect();
                (off, sh)
            }
        };
        let act = Act::ReadRegion { path: path.to_string(), offset, shape };
        rep.count("region_reads");
        match world::perform(h, w, &act) {
            Out::Err(..) => rep.count("region_errors"),
            Out::Ok(_) if must == Must::Fail => return Err(format!("{} succeeds, though the chunk has too few elements", act.show())),
            Out::Ok(x) if known.is_some() => with.judge(&act, &x).map_err(|e| format!("{} gives {}", act.show(), e))?,
            Out::Ok(_) => rep.count("only_region_read"),
            Out::Panic(e) => return Err(format!("{} panics: {}", act.show(), e)),
        }
    }
    let _ = good;
    Ok(())
}

/// What an independent decoder gets out of a stream before it ends or turns out invalid.
fn decoded_prefix(py: &mut Option<Python>, m: &Meta, bytes: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
    let codec = codec_of(m);
    match &codec[..] {
        "raw" => Some(bytes.to_vec()),
        "lz4" => None,
        _ if cfg!(miri) || r.chance(1, 2) || bytes.len() > 20_000 => None,
        c => py.get_or_insert_with(Python::start).call(&json!({"op": format!("{}-p", c), "most": m.chunk_bytes()}), bytes).ok(),
    }
}
