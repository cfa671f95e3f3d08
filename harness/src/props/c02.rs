//! C02: stored bytes against independent codecs, in both directions.

use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

use zarr::chunk::{DefaultChunk, DefaultChunkReader, DefaultChunkWriter};
use zarr::prelude::*;

use crate::gen;
use crate::lz4ref;
use crate::props::c03::chunk_key;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

/// Reference codecs of the Python standard library in a child process.
pub struct Python {
    child: Child,
}

impl Python {
    pub fn start() -> Python {
        let script = std::env::var("ZV_CODECS").expect("HARNESS: ZV_CODECS is not set");
        let child = Command::new("python3")
            .arg("-I")
            .arg(script)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("HARNESS: python3");
        Python { child }
    }

    pub fn call(&mut self, q: &Value, data: &[u8]) -> Result<Vec<u8>, String> {
        let q = q.to_string();
        let i = self.child.stdin.as_mut().unwrap();
        let mut msg = (q.len() as u32).to_le_bytes().to_vec();
        msg.extend_from_slice(q.as_bytes());
        msg.extend_from_slice(&(data.len() as u32).to_le_bytes());
        msg.extend_from_slice(data);
        i.write_all(&msg).and_then(|_| i.flush()).expect("HARNESS: python pipe");
        let o = self.child.stdout.as_mut().unwrap();
        let mut head = [0; 5];
        o.read_exact(&mut head).expect("HARNESS: python pipe");
        let mut out = vec![0; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        o.read_exact(&mut out).expect("HARNESS: python pipe");
        if head[0] == 0 {
            Ok(out)
        } else {
            Err(String::from_utf8_lossy(&out).into_owned())
        }
    }
}

impl Drop for Python {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.wait();
    }
}

/// Elements as the array declares them to be stored.
pub fn encoded_elements(m: &Meta, data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    if m.big {
        for e in v.chunks_mut(m.kind.size()) {
            e.reverse();
        }
    }
    v
}

pub fn reference_decode(py: &mut Python, codec: &str, stored: &[u8]) -> Result<Vec<u8>, String> {
    match codec {
        "raw" => Ok(stored.to_vec()),
        "lz4" => lz4ref::decode(stored),
        c => py.call(&json!({"op": format!("{}-d", c)}), stored),
    }
}

/// Encode with random settings of the reference encoder.
pub fn reference_encode(py: &mut Python, r: &mut Rng, codec: &str, data: &[u8]) -> (Vec<u8>, Value) {
    let q = match codec {
        "raw" => return (data.to_vec(), Value::Null),
        "lz4" => {
            let s = lz4ref::Settings::random(r);
            let enc = lz4ref::encode(data, &s, r);
            assert_eq!(lz4ref::decode(&enc).as_deref(), Ok(data), "HARNESS: LZ4 reference");
            return (enc, json!(format!("{:?}", s)));
        }
        "gzip" => json!({"op": "gzip-e", "level": r.range(0, 9), "strategy": r.below(5), "wbits": r.range(9, 15),
            "mem": r.range(1, 9), "name": r.chance(1, 3), "extra": r.chance(1, 4), "comment": r.chance(1, 4),
            "hcrc": r.chance(1, 5), "text": r.chance(1, 5), "mtime": r.below(1 << 32), "xfl": *r.pick(&[0, 2, 4]), "os": *r.pick(&[0, 3, 255]),
            "flush": if r.chance(1, 4) { r.range(1, data.len().max(1) as u64) .max(data.len() as u64 / 20) } else { 0 }}),
        "bzip2" => json!({"op": "bzip2-e", "level": r.range(1, 9)}),
        "xz" => {
            let lc = r.below(5);
            let f: &[&str] = *r.pick(&[&[][..], &[][..], &["delta"][..], &["x86"][..], &["delta", "arm"][..]]);
            json!({"op": "xz-e", "preset": if r.chance(1, 15) { r.range(7, 9) } else { r.range(0, 6) }, "check": *r.pick(&["none", "crc32", "crc64", "sha256"]), "filters": f,
                "dist": r.range(1, 256), "lc": lc, "lp": r.below(5 - lc), "pb": r.below(5), "dict": 1u64 << if r.chance(1, 15) { r.range(21, 26) } else { r.range(12, 20) }})
        }
        _ => unreachable!(),
    };
    let enc = py.call(&q, data).unwrap_or_else(|e| panic!("HARNESS: reference encoder: {} {}", e, q));
    (enc, q)
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let mut py = cx.py.take().unwrap_or_else(Python::start);
    one(cx, &mut py, r, rep);
    cx.py = Some(py);
}

fn one(cx: &mut Cx, py: &mut Python, r: &mut Rng, rep: &mut Report) {
    let mut o = gen::Opts::default();
    if r.chance(1, 20) {
        o.max_chunk_bytes = if cx.thorough && r.chance(1, 8) { 9 << 20 } else { 700 << 10 };
        o.max_chunks = 2;
    }
    let mut m = gen::meta(r, &o);
    if r.chance(1, 2) {
        m.big = true;
    }
    rep.case["array"] = m.describe();
    let codec = match &m.codec {
        None => "raw".to_string(),
        Some(c) if c["codec"] == json!(GZIP_URL) => "gzip".into(),
        Some(c) => c["codec"].as_str().unwrap().to_string(),
    };
    let base = cx.sub("h");
    let h = gen::create(&base);
    let path = "a";
    let z = gen::create_array(&h, path, &m);
    for round in 0..3 {
        let pos = r.pick(&m.positions()).clone();
        let file = base.join(chunk_key(path, &pos, &m.sep));
        let data = gen_data(r, m.kind, m.chunk_elems());
        let want = encoded_elements(&m, &data);

        // What the library stores, also over a longer or shorter old value.
        if r.chance(1, 3) {
            if let Some(d) = file.parent() {
                std::fs::create_dir_all(d).expect("HARNESS: mkdir");
            }
            let n = r.usize(2 * m.chunk_bytes() + 100);
            std::fs::write(&file, r.bytes(n)).expect("HARNESS: write");
        }
        if let o @ (Out::Err(..) | Out::Panic(_)) = write_chunk(&h, path, &z, m.kind, &pos, &data) {
            rep.violation(format!("writing a chunk: {:?}", o));
            return;
        }
        let stored = std::fs::read(&file).unwrap_or_else(|e| panic!("chunk file after a write: {}", e));
        rep.evaluations += 1;
        rep.count("library_streams_decoded");
        match reference_decode(py, &codec, &stored) {
            Ok(d) if d == want => (),
            Ok(d) => {
                let i = d.iter().zip(&want).position(|(a, b)| a != b);
                rep.violation(format!(
                    "stored {} stream decodes to {} bytes, expected {}, first difference at {:?}",
                    codec,
                    d.len(),
                    want.len(),
                    i
                ));
                return;
            }
            Err(e) => {
                rep.violation(format!("stored bytes are not exactly one {} stream: {}", codec, e));
                return;
            }
        }
        rep.add(&format!("streams_{}", codec), 1);

        // The same without a hierarchy: to a writer and from a reader.
        let io = *r.pick(&[1, 2, 7, 100, 1 << 20]);
        match encode_to(&z, m.kind, &pos, &data, io, r.bool()) {
            Out::Ok(d) if d == stored => rep.count("direct_writes"),
            Out::Ok(d) => match reference_decode(py, &codec, &d) {
                Ok(x) if x == want => rep.count("direct_writes"),
                x => {
                    rep.violation(format!("chunk written to a writer ({} bytes at a time) decodes to {:?}", io, x.map(|x| x.len())));
                    return;
                }
            },
            o => {
                rep.violation(format!("chunk written to a writer ({} bytes at a time): {:?}", io, o));
                return;
            }
        }

        // What another encoder stores.
        let other = gen_data(r, m.kind, m.chunk_elems());
        let mut plain = encoded_elements(&m, &other);
        if m.kind == Kind::Bool && r.chance(1, 3) {
            // Any other byte than 0 counts as true.
            for b in plain.iter_mut().filter(|b| **b != 0) {
                *b = r.range(1, 255) as u8;
            }
            rep.count("odd_booleans");
        }
        let (enc, settings) = reference_encode(py, r, &codec, &plain);
        std::fs::write(&file, &enc).expect("HARNESS: write");
        rep.evaluations += 1;
        rep.count("foreign_streams_read");
        rep.case["foreign"] = settings.clone();
        let got = if r.chance(1, 4) {
            rep.count("direct_reads");
            decode_from(&z, m.kind, &pos, &enc, *r.pick(&[1, 2, 7, 100, 1 << 20]), r.bool()).map(Some)
        } else if r.bool() {
            read_chunk(&h, path, &z, m.kind, &pos)
        } else {
            let (o, d, _) = read_chunk_into(&h, path, &z, m.kind, &pos, &[], &pos);
            o.map(|o| o.map(|_| d))
        };
        match got {
            Out::Ok(Some(d)) if d == other => (),
            // Listed finding: the decoder of the pure-Rust build.
            ref o if codec == "lz4" && crate::props::features() != "native" && stored_linked_blocks(&m, &enc, &plain, o) => {
                rep.known_finding("C02-LZFEAR-WINDOW", format!("pure-Rust LZ4 reads linked blocks after a stored block wrongly: {}", settings));
            }
            o => {
                rep.violation(format!("foreign {} stream reads as {}", codec, o.class()));
                return;
            }
        }
        if m.kind == Kind::Bool && codec == "raw" {
            rep.count("bool_chunks");
        }
        rep.distinct(format!("{} {:x}", m.describe(), crate::rng::hash_bytes(&data)));
        rep.seen("foreign_settings", crate::rng::hash_bytes(settings.to_string().as_bytes()));
        rep.seen("configurations", crate::rng::hash_bytes(format!("{:?}{}{:?}", m.kind, m.big, m.codec).as_bytes()));
        if round == 0 {
            rep.sample(json!({"array": m.describe(), "stored_bytes": stored.len(), "foreign": settings}));
        }
    }
}

/// Reader and writer of a few bytes per call.
struct Dribble<T>(T, usize);
impl<T: Read> Read for Dribble<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}
impl<T: Write> Write for Dribble<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(&b[..b.len().min(self.1)])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

fn encode_to(z: &ArrayMetadata, kind: Kind, pos: &[u64], data: &[u8], io: usize, borrowed: bool) -> Out<Vec<u8>> {
    let mut out = vec![];
    let o = with_kind!(kind, T => {
        let v: Vec<T> = from_bytes(data);
        if borrowed {
            let c = SliceDataChunk::<T, &[T]>::new(gc(pos), &v[..]);
            lib(|| <DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(Dribble(&mut out, io), z, &c))
        } else {
            let c = VecDataChunk::<T>::new(gc(pos), v);
            lib(|| <DefaultChunk as DefaultChunkWriter<T, _, _>>::write_chunk(Dribble(&mut out, io), z, &c))
        }
    });
    o.map(|_| out)
}

fn decode_from(z: &ArrayMetadata, kind: Kind, pos: &[u64], stream: &[u8], io: usize, into: bool) -> Out<Vec<u8>> {
    with_kind!(kind, T => lib(|| {
        let from = Dribble(stream, io);
        let c = if into {
            let mut c = VecDataChunk::<T>::new(gc(&[1]), vec![]);
            <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk_into(from, z, gc(pos), &mut c)?;
            c
        } else {
            <DefaultChunk as DefaultChunkReader<T, _>>::read_chunk(from, z, gc(pos))?
        };
        assert_eq!(c.get_grid_position(), pos, "chunk has another position");
        Ok(to_bytes(c.get_data()))
    }))
}

/// Whether a wrong result is exactly the one due to stored blocks in a frame of linked
/// blocks that are missing from the window of later blocks.
fn stored_linked_blocks(m: &Meta, stream: &[u8], plain: &[u8], got: &Out<Option<Vec<u8>>>) -> bool {
    let wrong = crate::lz4ref::decode_without_stored(stream);
    if wrong.as_deref() == Some(plain) {
        return false;
    }
    match got {
        Out::Err(..) => true,
        Out::Ok(Some(d)) => m.kind == Kind::Bool || Some(encoded_elements(m, d)) == wrong,
        _ => false,
    }
}
