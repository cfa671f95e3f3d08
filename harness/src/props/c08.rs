//! C08: metadata values against their documents and back.

use serde_json::{json, Map, Value};
use zarr::prelude::*;
use zarr::{DataType, ExtensibleDataType, Order};

use crate::gen;
use crate::mem::MemHierarchy;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

/// JSON values without floats that this JSON implementation does not preserve.
pub fn gen_json(r: &mut Rng, depth: u64) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 => json!(r.u64() >> r.below(64)),
        3 => json!(-((r.u64() >> r.range(1, 63)) as i64)),
        4 => json!(r.range(0, 1 << 20) as f64 / 64.0),
        5 => json!(gen_string(r)),
        6 => Value::Array((0..r.below(4)).map(|_| gen_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (gen_string(r), gen_json(r, depth - 1))).collect()),
    }
}

pub fn gen_string(r: &mut Rng) -> String {
    let parts = ["", "a", "key", "attributes", "shape", "\"", "\\", "\u{0}", "\n", "é", "😀", "\u{2028}", "/", " ", "data_type", "{}", "\u{7f}"];
    (0..r.below(4)).map(|_| *r.pick(&parts)).collect()
}

pub fn gen_object(r: &mut Rng, n: u64) -> Map<String, Value> {
    (0..r.below(n + 1)).map(|_| (gen_string(r), gen_json(r, 3))).collect()
}

/// All core element types with their sizes in bytes.
fn dtypes() -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![("bool".into(), 1), ("i1".into(), 1), ("u1".into(), 1)];
    for e in ["<", ">"] {
        for (k, sizes) in [("i", &[1usize, 2, 4, 8][..]), ("u", &[1, 2, 4, 8][..]), ("f", &[2, 4, 8][..])] {
            for s in sizes {
                v.push((format!("{}{}{}", e, k, s), *s));
            }
        }
    }
    v
}

fn raw_dtype(r: &mut Rng) -> (String, usize) {
    let bytes = match r.below(4) {
        0 => r.range(0, 5),
        1 => r.range(1, 1000),
        2 => (r.u64() >> r.range(8, 60)).max(1),
        _ => *r.pick(&[1, 2, 3, 4, 16, 1 << 32, 1 << 58, 125, 1250, 12500]),
    };
    (format!("r{}", bytes * 8), bytes as usize)
}

/// The string a type is written as: byte order is meaningless for single bytes.
fn canonical(s: &str) -> String {
    match s {
        "<i1" | ">i1" => "i1".into(),
        "<u1" | ">u1" => "u1".into(),
        s => s.into(),
    }
}

/// Floats that the JSON parser does not return exactly (listed finding).
const FLOATS: [f64; 3] = [943.3567169983137, 900.9004917506227, 13.114189588902203];

fn floats(cx: &mut Cx, rep: &mut Report) {
    let h = gen::create(&cx.sub("h"));
    for (i, f) in FLOATS.iter().enumerate() {
        rep.case["float"] = json!(f);
        rep.evaluations += 1;
        let path = format!("n{}", i);
        gen::must("creating a group", lib(|| h.create_group(&path)));
        gen::must("setting an attribute", lib(|| h.set_attribute(&path, "x".into(), *f)));
        match lib(|| h.list_attributes(&path)) {
            Out::Ok(a) if a.get("x") == Some(&json!(f)) => (),
            Out::Ok(a) if a.len() == 1 && a["x"].as_f64().map_or(false, |g| (g.to_bits() as i64 - f.to_bits() as i64).abs() == 1) => {
                rep.known_finding("C08-FLOAT-ULP", format!("attribute {} is read as {}", f, a["x"]));
            }
            o => rep.violation(format!("attribute {} is read as {:?}", f, o)),
        }
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    if cx.index == 0 {
        return floats(cx, rep);
    }
    match r.below(4) {
        0 => types(r, rep),
        1 => codecs(r, rep),
        _ => documents(cx, r, rep),
    }
}

fn types(r: &mut Rng, rep: &mut Report) {
    let mut all = dtypes();
    all.push(raw_dtype(r));
    all.push(raw_dtype(r));
    let mut seen: Vec<(DataType, String)> = vec![];
    for (s, size) in &all {
        rep.evaluations += 1;
        rep.case["type"] = json!(s);
        let d: DataType = match lib(|| serde_json::from_value(json!(s)).map_err(Into::into)) {
            Out::Ok(d) => d,
            o => return rep.violation(format!("type {:?}: {:?}", s, o)),
        };
        match lib_plain(|| d.size_of()) {
            Out::Ok(n) if n == *size => (),
            o => return rep.violation(format!("size of {:?}: {:?}", s, o)),
        }
        let back = lib(|| serde_json::to_value(&d).map_err(Into::into));
        if back != Out::Ok(json!(canonical(s))) {
            return rep.violation(format!("type {:?} is written as {:?}", s, back));
        }
        let again: Out<DataType> = back.clone().ok().map_or(Out::Panic("".into()), |b| lib(|| serde_json::from_value(b).map_err(Into::into)));
        match again {
            Out::Ok(d2) if canonical(s) != *s || d2 == d => (),
            o => return rep.violation(format!("type {:?} comes back as {:?}", s, o)),
        }
        // Different strings, different types.
        if let Some((_, t)) = seen.iter().find(|(e, t)| *e == d && canonical(t) != canonical(s)) {
            return rep.violation(format!("types {:?} and {:?} are the same", s, t));
        }
        seen.push((d, s.clone()));
        // As part of an extended type.
        let ext = json!({"extension": "https://e.org/x", "type": gen_string(r), "fallback": s});
        let e: Out<ExtensibleDataType> = lib(|| serde_json::from_value(ext.clone()).map_err(Into::into));
        match &e {
            Out::Ok(v @ ExtensibleDataType::Extended { fallback: Some(f), .. }) if *f == d => {
                if lib_plain(|| v.effective_type().ok()) != Out::Ok(Some(d)) {
                    return rep.violation(format!("effective type of {} is not its fallback", ext));
                }
                let mut want = ext.clone();
                want["fallback"] = json!(canonical(s));
                let back = lib(|| serde_json::to_value(v).map_err(Into::into));
                if back != Out::Ok(want) {
                    return rep.violation(format!("extended type {} is written as {:?}", ext, back));
                }
            }
            o => return rep.violation(format!("extended type {}: {:?}", ext, o)),
        }
        rep.seen("type_strings", crate::rng::hash_bytes(s.as_bytes()));
    }
    rep.count("type_cases");
    rep.distinct(format!("{:?}", all));
}

fn codecs(r: &mut Rng, rep: &mut Report) {
    // Documents of codecs with and without their options.
    let gz = GZIP_URL;
    let num = |r: &mut Rng| -> i64 { *r.pick(&[0, 1, 5, 6, 9, -1, 3]) };
    let lv = num(r);
    let (name, doc, want) = match r.below(9) {
        0 => ("raw", json!({"codec": "raw", "configuration": null}), json!({"codec": "raw", "configuration": null})),
        1 => ("gzip", json!({"codec": gz, "configuration": {"level": lv}}), json!({"codec": gz, "configuration": {"level": lv}})),
        2 => ("gzip", json!({"codec": gz, "configuration": {}}), json!({"codec": gz, "configuration": {"level": -1}})),
        3 => ("bzip2", json!({"codec": "bzip2", "configuration": {"blockSize": lv.max(1)}}), json!({"codec": "bzip2", "configuration": {"blockSize": lv.max(1)}})),
        4 => ("bzip2", json!({"codec": "bzip2", "configuration": {}}), json!({"codec": "bzip2", "configuration": {"blockSize": 9}})),
        5 => ("xz", json!({"codec": "xz", "configuration": {"preset": lv}}), json!({"codec": "xz", "configuration": {"preset": lv}})),
        6 => ("xz", json!({"codec": "xz", "configuration": {}}), json!({"codec": "xz", "configuration": {"preset": 6}})),
        7 => {
            let b = *r.pick(&[65536, 262144, 1, 4194304, 100000]);
            ("lz4", json!({"codec": "lz4", "configuration": {"blockSize": b}}), json!({"codec": "lz4", "configuration": {"blockSize": b}}))
        }
        _ => ("lz4", json!({"codec": "lz4", "configuration": {}}), json!({"codec": "lz4", "configuration": {"blockSize": 65536}})),
    };
    if !codec_names().contains(&name) {
        return;
    }
    rep.case["codec"] = doc.clone();
    rep.evaluations += 1;
    // Unknown options are ignored, too.
    let mut given = doc.clone();
    if r.chance(1, 3) && given["configuration"].is_object() {
        given["configuration"]["unknownOption"] = gen_json(r, 1);
    }
    let c: CompressionType = match lib(|| serde_json::from_value(given.clone()).map_err(Into::into)) {
        Out::Ok(c) => c,
        o => return rep.violation(format!("codec {}: {:?}", given, o)),
    };
    let back = lib(|| serde_json::to_value(&c).map_err(Into::into));
    if back != Out::Ok(want.clone()) {
        return rep.violation(format!("codec {} is written as {:?}, expected {}", given, back, want));
    }
    let again = lib(|| serde_json::from_value::<CompressionType>(want.clone()).map_err(Into::into));
    if again != Out::Ok(c.clone()) {
        return rep.violation(format!("codec {} comes back as {:?}", want, again));
    }
    let printed = c.to_string();
    match lib(|| printed.parse::<CompressionType>()) {
        Out::Ok(p) if std::mem::discriminant(&p) == std::mem::discriminant(&c) => (),
        o => return rep.violation(format!("printed codec name {:?} parses as {:?}", printed, o)),
    }
    rep.count("codec_cases");
    rep.distinct(given.to_string());
    rep.seen("codec_documents", crate::rng::hash_bytes(doc.to_string().as_bytes()));
}

fn documents(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let o = gen::Opts { max_rank: 6, ..Default::default() };
    let mut m = gen::meta(r, &o);
    m.attrs = gen_object(r, 4);
    for _ in 0..r.below(3) {
        let mut e = json!({"extension": gen_string(r), "must_understand": false});
        if r.bool() {
            e["configuration"] = Value::Object(gen_object(r, 3));
        }
        m.extensions.push(e);
    }
    if r.chance(1, 4) {
        m.fill = Some(gen_json(r, 2));
    }
    if m.rank() > 0 && r.bool() {
        let i = r.usize(m.rank());
        m.shape[i] = *r.pick(&[0, 1 << 33, u64::MAX, 1 << 53, (1 << 53) + 1]);
    }
    if r.chance(1, 5) {
        m.sep = gen_string(r);
    }
    let mut doc = m.json();
    let raw = r.chance(1, 8);
    if raw {
        doc["data_type"] = json!(raw_dtype(r).0);
    } else if r.chance(1, 8) {
        doc["data_type"] = json!({"extension": gen_string(r), "type": gen_string(r)});
    }
    let mut canonical_doc = doc.clone();
    canonical_doc["data_type"] = match &doc["data_type"] {
        Value::String(s) => json!(canonical(s)),
        v => v.clone(),
    };
    if doc.get("fill_value").is_none() {
        canonical_doc["fill_value"] = Value::Null;
    }
    // Defaults of codec options are written out, the raw codec is not.
    match doc.get("compressor") {
        Some(c) if c["codec"] == json!("raw") => {
            canonical_doc.as_object_mut().unwrap().remove("compressor");
        }
        Some(c) => {
            let (opt, default) = match c["codec"].as_str().unwrap() {
                "bzip2" => ("blockSize", 9),
                "xz" => ("preset", 6),
                "lz4" => ("blockSize", 65536),
                _ => ("level", -1),
            };
            if c["configuration"].get(opt).is_none() {
                canonical_doc["compressor"]["configuration"][opt] = json!(default);
            }
        }
        None => (),
    }
    // Unknown additional fields.
    if r.chance(1, 3) {
        doc["unknown_field"] = gen_json(r, 2);
        doc["zz"] = json!(null);
        doc["chunk_grid"]["unknown"] = gen_json(r, 1);
        // In inner objects, too.
        for part in ["compressor", "data_type"].iter() {
            if doc[part].is_object() && r.bool() {
                doc[part]["unknown"] = gen_json(r, 1);
                rep.count("unknown_inner_fields");
            }
        }
        if doc["compressor"]["configuration"].is_object() && r.bool() {
            doc["compressor"]["configuration"]["unknown"] = gen_json(r, 1);
            rep.count("unknown_inner_fields");
        }
        if let Some(e) = doc.get_mut("extensions").and_then(|e| e.as_array_mut()) {
            for e in e {
                if r.bool() {
                    e["unknown"] = gen_json(r, 1);
                    rep.count("unknown_inner_fields");
                }
            }
        }
    }
    rep.case["document"] = doc.clone();
    rep.evaluations += 1;
    rep.distinct(doc.to_string());
    rep.count("documents");

    // What another program wrote is read as what it says.
    let mem = MemHierarchy::new(None);
    let text = if r.bool() { serde_json::to_vec(&doc).unwrap() } else { serde_json::to_vec_pretty(&doc).unwrap() };
    mem.put("meta/root/x.array.json", text);
    let z = match lib(|| mem.get_array_metadata("x")) {
        Out::Ok(z) => z,
        o => return rep.violation(format!("valid document: {:?}", o)),
    };
    let want_codec = match doc.get("compressor") {
        None => Out::Ok(CompressionType::default()),
        Some(c) => lib(|| serde_json::from_value(c.clone()).map_err(Into::into)),
    };
    let facts = [
        ("shape", z.get_shape() == &m.shape[..]),
        ("chunk shape", z.get_chunk_shape() == &m.chunk[..]),
        ("order", *z.get_chunk_memory_layout() == if m.c_order { Order::RowMajor } else { Order::ColumnMajor }),
        ("rank", z.get_ndim() == m.rank()),
        ("fill value", z.get_fill_value().cloned().unwrap_or(Value::Null) == m.fill.clone().unwrap_or(Value::Null)),
        ("codec", want_codec == Out::Ok(z.get_compressor().clone())),
        (
            "data type",
            lib(|| serde_json::from_value::<ExtensibleDataType>(doc["data_type"].clone()).map_err(Into::into)) == Out::Ok(z.get_data_type().clone()),
        ),
    ];
    for (what, ok) in facts.iter() {
        if !ok {
            return rep.violation(format!("{} of the document is read as {:?}", what, z));
        }
    }
    match lib(|| mem.list_attributes("x")) {
        Out::Ok(a) if a == m.attrs => (),
        o => return rep.violation(format!("attributes of the document: {:?}", o)),
    }

    // Serialising gives the same document and value.
    let back = lib(|| serde_json::to_value(&z).map_err(Into::into));
    match &back {
        Out::Ok(v) if *v == canonical_doc => (),
        o => return rep.violation(format!("document is written as {:?}, expected {}", o, canonical_doc)),
    }
    let again: Out<ArrayMetadata> = lib(|| serde_json::from_str(&serde_json::to_string(&z)?).map_err(Into::into));
    if again != Out::Ok(z.clone()) {
        return rep.violation(format!("metadata changed in serialisation: {:?}", again));
    }

    // So does storing it.
    let base = cx.sub("h");
    let h = gen::create(&base);
    let path = gen::path(r, 3);
    let shown = gen::decorate(r, &path);
    if let o @ (Out::Err(..) | Out::Panic(_)) = lib(|| h.create_array(&shown, &z)) {
        return rep.violation(format!("creating the array: {:?}", o));
    }
    rep.evaluations += 1;
    for (what, h) in [("same handle", h.clone()), ("new handle", gen::open(&base))] {
        match lib(|| h.get_array_metadata(&path)) {
            Out::Ok(s) if s == z => (),
            o => return rep.violation(format!("stored metadata read by the {}: {:?}, expected {:?}", what, o, z)),
        }
    }
    let stored = std::fs::read(base.join(crate::props::c03::array_key(&path, ".json"))).unwrap_or_default();
    match serde_json::from_slice::<Value>(&stored) {
        Ok(v) if v == canonical_doc => (),
        o => return rep.violation(format!("stored document {:?}, expected {}", o, canonical_doc)),
    }

    // Built by the constructor.
    if let Out::Ok(d) = lib(|| serde_json::from_value::<DataType>(json!(m.kind.type_string(m.big))).map_err(Into::into)) {
        let codec = z.get_compressor().clone();
        let n = lib_plain(|| ArrayMetadata::new(gc(&m.shape), m.chunk.iter().cloned().collect(), d, codec.clone()));
        match n {
            Out::Ok(n) => {
                let v = serde_json::to_value(&n).unwrap_or(Value::Null);
                let again: Out<ArrayMetadata> = lib(|| serde_json::from_value(v.clone()).map_err(Into::into));
                if again != Out::Ok(n.clone()) || v["shape"] != json!(m.shape) || v["chunk_grid"]["chunk_shape"] != json!(m.chunk) || v["chunk_grid"]["type"] != json!("regular") {
                    return rep.violation(format!("constructed metadata {} comes back as {:?}", v, again));
                }
                if n.get_compressor() != &codec {
                    return rep.violation("constructed metadata has another codec".to_string());
                }
            }
            o => return rep.violation(format!("constructing metadata: {:?}", o)),
        }
    }
    rep.sample(json!({"document": doc}));
}
