//! C23: builds with different codec features exchange hierarchies.
//!
//! Stage 0: each build stores arrays, reads them back and notes what it says about codec
//! names and settings. Stage 1: each build reads and modifies what the others stored.
//! Stage 2: each build reads what the others made of its data. All stages derive the same
//! data from the seed.

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use zarr::compression::CompressionType;
use zarr::prelude::*;

use crate::gen;
use crate::props::c04::gen_box;
use crate::props::features;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::world::*;
use crate::Cx;

const BUILDS: [&str; 3] = ["native", "pure", "purest"];
const CODECS: [&str; 9] = ["raw", "bzip2", "xz", "gzip", "gzip", "gzip", "lz4", "lz4", "lz4"];

struct Plan {
    path: String,
    empty: World,
    create: Act,
    first: Vec<Act>,
    second: Vec<Act>,
    codec: &'static str,
    facts: Vec<Value>,
}

/// The same in all builds and stages.
fn plan(r: &mut Rng, index: u64) -> Plan {
    let big = index % 100 == 7;
    let o = gen::Opts {
        max_rank: 3,
        max_chunk_bytes: match index % 100 {
            7 => 5 << 20,
            17 | 37 => 300 << 10,
            i if i % 5 == 0 => 80 << 10,
            _ => 2 << 10,
        },
        max_chunks: if big { 2 } else { 12 },
        codecs: false,
        odd: false,
        extended: true,
    };
    let codec = *r.pick(&CODECS);
    let odd = r.chance(1, 3);
    let doc = gen_codec(r, codec, odd);
    let mut m = gen::meta(r, &o);
    if let Some(Value::String(_)) = m.fill {
        m.fill = None;
    }
    // Blocks of all sizes, also around their boundaries.
    if index % 4 == 1 || big {
        let b = *r.pick(&[64u64 << 10, 256 << 10, 1 << 20, 4 << 20][..if big { 4 } else { 1 }]);
        let n = b / m.kind.size() as u64 + r.below(3) - 1 + if r.chance(1, 3) { b / m.kind.size() as u64 } else { 0 };
        m.shape = vec![2 * n - 1];
        m.chunk = vec![n as u32];
    }
    // A build without the codec never uses the array, only this model of it.
    m.codec = if codec_names().contains(&codec) { doc } else { None };
    let path = r.pick(&["a", "g/a", ""]).to_string();
    let empty = World { suffix: ".json".into(), nodes: BTreeMap::new(), extra: BTreeMap::new(), pool: vec![] };
    let create = Act::CreateArray { path: path.clone(), meta: Box::new(m) };
    let mut w = empty.clone();
    w.apply(&create);
    let mut acts = |r: &mut Rng, n: u64, first: bool| -> Vec<Act> {
        (0..n)
            .map(|i| {
                let path = path.clone();
                let m = w.meta(&path).clone();
                let pos = w.gen_pos(r, &path);
                let a = match r.below(8) {
                    k if (i == 0 && first) || k < 4 => Act::WriteChunk { data: w.gen_chunk(r, &path), path, pos },
                    4 => Act::DeleteChunk { path, pos },
                    5 => Act::SetAttributes { path, attrs: gen_attrs(r) },
                    _ => {
                        let (offset, shape) = gen_box(r, &m.shape, 400, true);
                        let n: u64 = shape.iter().product();
                        Act::WriteRegion { data: gen_data(r, m.kind, n as usize), path, offset, shape, layout: *r.pick(&LAYOUTS) }
                    }
                };
                w.apply(&a);
                a
            })
            .collect()
    };
    let n = if big { 1 } else { r.range(1, 5) };
    let first = acts(r, n, true);
    let n = if big { 1 } else { r.range(0, 4) };
    let second = acts(r, n, false);
    let facts = (0..12).map(|_| gen_codec_document(r)).collect();
    Plan { path, empty, create, first, second, codec, facts }
}

/// A document of a codec, most of which are valid, with the codec's name.
fn gen_codec_document(r: &mut Rng) -> Value {
    let name = *r.pick(&CODECS[1..]);
    let odd = r.bool();
    let mut d = gen_codec(r, name, odd).expect("HARNESS: codec");
    let key = match name {
        "gzip" => "level",
        "xz" => "preset",
        _ => "blockSize",
    };
    match r.below(12) {
        0 => d["codec"] = json!(d["codec"].as_str().unwrap().to_uppercase()),
        1 => d["codec"] = json!(name),
        2 => d["configuration"] = Value::Null,
        3 => {
            d.as_object_mut().unwrap().remove("configuration");
        }
        4 => d["configuration"]["unknown"] = json!([1]),
        5 => d["unknown"] = json!({}),
        6 => d["configuration"][key] = r.pick(&[json!(1.5), json!("1"), json!(null), json!(true), json!([1]), json!(1u64 << 33), json!(-(1i64 << 33))]).clone(),
        7 => d["configuration"][key] = json!(r.u64() as i32),
        8 => {
            let old = d["configuration"].as_object_mut().unwrap().remove(key);
            let other = if key == "blockSize" { "block_size" } else { "Level" };
            d["configuration"][other] = old.unwrap_or(json!(1));
        }
        _ => (),
    }
    json!([name, d])
}

const NAMES: [&str; 22] = [
    "raw", "Raw", "RAW", "bzip2", "Bzip2", "bzip", "gzip", "Gzip", "GZIP", "gz", GZIP_URL, "lz4", "Lz4", "LZ4", "lz", "lz4 ", " lz4", "xz", "Xz", "XZ", "", "zstd",
];

fn says(o: Out<CompressionType>) -> Value {
    match o {
        Out::Ok(c) => json!([c.to_string(), serde_json::to_value(&c).ok(), c.is_default()]),
        Out::Err(..) => json!("error"),
        Out::Panic(m) => json!(format!("panic: {}", m)),
    }
}

/// What this build says about codec names and settings.
fn facts(docs: &[Value]) -> Map<String, Value> {
    let mut f = Map::new();
    for n in NAMES {
        f.insert(format!("the name {:?}", n), says(lib(|| n.parse::<CompressionType>())));
    }
    f.insert("the default".into(), says(lib(|| Ok(CompressionType::default()))));
    for d in docs {
        let o = lib(|| serde_json::from_value::<CompressionType>(d[1].clone()).map_err(|e| e.into()));
        f.insert(format!("the document {}", d[1]), says(o));
    }
    f
}

/// The codec that a fact is about.
fn subject(fact: &str) -> &'static str {
    let f = fact.to_lowercase();
    for c in ["bzip2", "gzip", "lz4", "xz"] {
        if f.contains(c) {
            return c;
        }
    }
    "raw"
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("HARNESS: mkdir");
    for e in std::fs::read_dir(from).expect("HARNESS: exchange") {
        let e = e.expect("HARNESS: exchange");
        let t = to.join(e.file_name());
        if e.file_type().expect("HARNESS: exchange").is_dir() {
            copy(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).expect("HARNESS: copy");
        }
    }
}

fn perform_all(h: &FilesystemHierarchy, w: &mut World, acts: &[Act], rep: &mut Report, who: &str) -> bool {
    for a in acts {
        let o = perform(h, w, a);
        if !o.is_ok() {
            rep.violation(format!("the {} build: {}: {:?}", who, a.show(), o));
            return false;
        }
        w.apply(a);
    }
    true
}

fn verify(h: &FilesystemHierarchy, w: &World, rep: &mut Report, what: &str) -> bool {
    match w.verify(h, &|_| false) {
        Ok(n) => {
            rep.evaluations += 1;
            rep.add("reads_compared", n);
            true
        }
        Err(e) => {
            rep.violation(format!("{}: {}", what, e));
            false
        }
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let index = cx.index;
    let p = plan(r, index);
    let me = features();
    let has = codec_names().contains(&p.codec);
    rep.case["stage"] = json!(cx.stage);
    rep.case["array"] = p.create.show();
    let exchange = cx.exchange.clone().expect("HARNESS: --exchange");
    let place = |writer: &str, reader: &str| -> PathBuf { exchange.join(writer).join(reader).join(index.to_string()) };
    let marker = |writer: &str| exchange.join(writer).join(format!("{}.json", index));
    let others: Vec<&str> = BUILDS.iter().copied().filter(|b| *b != me).collect();
    let mut w = p.empty.clone();
    match cx.stage {
        0 => {
            let base = cx.sub("h");
            if has {
                let h = gen::create(&base);
                let mut all = vec![p.create.clone()];
                all.extend(p.first.iter().cloned());
                if !perform_all(&h, &mut w, &all, rep, me) || !verify(&h, &w, rep, &format!("the {} build reads its own data", me)) {
                    return;
                }
                rep.count("own_round_trips");
                rep.count(&format!("codec_{}", p.codec));
                for o in &others {
                    copy(&base, &place(me, o));
                }
            }
            let f = facts(&p.facts);
            for (k, v) in &f {
                if v.as_str().map_or(false, |s| s.starts_with("panic")) {
                    return rep.violation(format!("{} in the {} build: {}", k, me, v));
                }
            }
            std::fs::create_dir_all(exchange.join(me)).expect("HARNESS: exchange");
            std::fs::write(marker(me), serde_json::to_vec(&json!({"stored": has, "facts": f})).unwrap()).expect("HARNESS: exchange");
            rep.distinct(json!([p.create.show(), crate::rng::hash_bytes(format!("{:?}", p.first).as_bytes())]).to_string());
            rep.sample(json!({"array": p.create.show(), "writes": p.first.len()}));
        }
        1 => {
            for o in others {
                let note: Value = match std::fs::read(marker(o)) {
                    Ok(b) => serde_json::from_slice(&b).expect("HARNESS: exchange"),
                    Err(_) => continue,
                };
                let mine = facts(&p.facts);
                let theirs = note["facts"].as_object().expect("HARNESS: exchange");
                let common = |c: &str| codec_names().contains(&c) && (o != "purest" || !["bzip2", "xz"].contains(&c));
                for (k, v) in &mine {
                    if !common(subject(k)) {
                        continue;
                    }
                    rep.evaluations += 1;
                    rep.count("facts_compared");
                    rep.seen("facts", crate::rng::hash_bytes(k.as_bytes()));
                    if theirs.get(k) != Some(v) {
                        return rep.violation(format!("{} gives {} in the {} build but {} in the {} build", k, v, me, theirs.get(k).unwrap_or(&Value::Null), o));
                    }
                }
                if note["stored"] != json!(true) {
                    continue;
                }
                let mut w = p.empty.clone();
                w.apply(&p.create);
                p.first.iter().for_each(|a| w.apply(a));
                let h = match lib(|| FilesystemHierarchy::open(place(o, me))) {
                    Out::Ok(h) => h,
                    e => return rep.violation(format!("the {} build opens the hierarchy of the {} build: {:?}", me, o, e)),
                };
                if !has {
                    // An unknown codec.
                    rep.count("missing_codecs");
                    let m = lib(|| h.get_array_metadata(&p.path));
                    if !matches!(m, Out::Err(..)) {
                        return rep.violation(format!("the {} build reads metadata with a codec it lacks: {:?}", me, m.map(|_| ())));
                    }
                    continue;
                }
                if !verify(&h, &w, rep, &format!("the {} build reads the {} build's data", me, o)) {
                    return;
                }
                rep.count("exchanged");
                if !perform_all(&h, &mut w, &p.second, rep, me) || !verify(&h, &w, rep, &format!("the {} build reads what it changed of the {} build's data", me, o)) {
                    return;
                }
                rep.count("modified");
            }
        }
        _ => {
            if !has || !marker(me).exists() {
                return;
            }
            w.apply(&p.create);
            p.first.iter().for_each(|a| w.apply(a));
            let before = w.clone();
            p.second.iter().for_each(|a| w.apply(a));
            for o in others {
                // Builds that did not take part, or lack the codec, left the data alone.
                let took_part = marker(o).exists() && (o != "purest" || !["bzip2", "xz"].contains(&p.codec));
                let w = if took_part { &w } else { &before };
                let dir = place(me, o);
                let h = gen::open(&dir);
                if !verify(&h, w, rep, &format!("the {} build reads what the {} build made of its data", me, o)) {
                    return;
                }
                rep.count(if took_part { "returned" } else { "untouched" });
                crate::tree::remove(&dir, &exchange);
            }
        }
    }
}
