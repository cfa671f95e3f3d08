//! C09: malformed and unsupported documents against every operation that reads them.

use serde_json::{json, Map, Value};
use std::path::Path;
use zarr::prelude::*;

use crate::gen;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

use super::c08::{gen_json, gen_string};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Expect {
    /// Reading the document is an error.
    Error,
    Accepted,
    /// Only that everything returns.
    Returns,
}

/// Documents spelled as arrays of their fields' values (listed finding).
fn sequences(cx: &mut Cx, rep: &mut Report) {
    let base = cx.sub("h");
    let h = gen::create(&base);
    let dir = base.join("meta/root");
    std::fs::create_dir_all(&dir).expect("HARNESS: mkdir");
    let docs = [
        json!([[4], "i1", {"type": "regular", "chunk_shape": [2], "separator": "/"}, "C", null, [], {}, {"codec": "raw", "configuration": null}]),
        json!({"shape": [4], "data_type": "i1", "chunk_grid": ["regular", [2], "/"], "chunk_memory_layout": "C", "fill_value": null, "extensions": [], "attributes": {}}),
    ];
    for (i, d) in docs.iter().enumerate() {
        rep.evaluations += 1;
        rep.case["document"] = d.clone();
        let path = format!("n{}", i);
        std::fs::write(dir.join(format!("{}.array.json", path)), d.to_string()).expect("HARNESS: write");
        match lib(|| h.get_array_metadata(&path)) {
            Out::Err(..) => (),
            Out::Ok(_) => rep.known_finding("C09-SEQUENCE", format!("accepted as array metadata: {}", d)),
            Out::Panic(p) => rep.violation(format!("panic: {}", p)),
        }
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    if cx.index == 0 {
        return sequences(cx, rep);
    }
    match r.below(10) {
        0..=3 => array_documents(cx, r, rep),
        4 | 5 => array_bytes(cx, r, rep),
        6 => group_bytes(cx, r, rep),
        7 | 8 => entry_points(cx, r, rep),
        _ => codec_settings(cx, r, rep),
    }
}

/// Bytes that are not one of the given mistypes.
fn mistyped(r: &mut Rng, wrong: &[Value]) -> Value {
    r.pick(wrong).clone()
}

fn odd_type_string(r: &mut Rng) -> String {
    let fixed = [
        "", "b", "bool8", "Bool", "i", "i0", "i3", "i9", "<i", ">u", "<f1", ">f3", "<f9", "f4", "i2", "u8", "=i4", "|i4", "<c8", "r", "r7",
        "r-8", "r8.0", "r99999999999999999999999", "rr8", "<r8", "é", "日", "é2", "<é", "😀", "ü4", "<i4 ", " <i4", "<i44", "i4<", "\u{0}\u{0}\u{0}",
        "<ß", "1i<", "r８", "int32", "<I4", "<b1",
    ];
    if r.chance(3, 4) {
        return r.pick(&fixed).to_string();
    }
    let alphabet: Vec<char> = "<>biufr1248é日 =|0".chars().collect();
    loop {
        let s: String = (0..r.below(6)).map(|_| *r.pick(&alphabet)).collect();
        if !valid_type_string(&s) {
            return s;
        }
    }
}

fn valid_type_string(s: &str) -> bool {
    if let Some(n) = s.strip_prefix('r') {
        // Signs are a matter of taste.
        return n.parse::<u64>().map_or(false, |n| n % 8 == 0);
    }
    let sized = |s: &str| {
        let (k, n) = s.split_at(1);
        match k {
            "i" | "u" => ["1", "2", "4", "8"].contains(&n),
            "f" => ["2", "4", "8"].contains(&n),
            _ => false,
        }
    };
    match s {
        "bool" | "i1" | "u1" => true,
        s if s.len() == 3 && s.is_ascii() && (s.starts_with('<') || s.starts_with('>')) => sized(&s[1..]),
        _ => false,
    }
}

/// A labelled change of a valid array document.
fn mutate(r: &mut Rng, m: &mut Value) -> (String, Expect) {
    use Expect::*;
    let not_number = [json!(null), json!("4"), json!({}), json!(true), json!([4])];
    match r.below(20) {
        0 => {
            let f = *r.pick(&["shape", "data_type", "chunk_grid", "chunk_memory_layout", "extensions", "attributes"]);
            m.as_object_mut().unwrap().remove(f);
            (format!("without {}", f), Error)
        }
        1 => {
            let f = *r.pick(&["type", "chunk_shape", "separator"]);
            m["chunk_grid"].as_object_mut().unwrap().remove(f);
            (format!("without chunk_grid.{}", f), Error)
        }
        2 => {
            let f = *r.pick(&["fill_value", "compressor"]);
            m.as_object_mut().unwrap().remove(f);
            (format!("without {}", f), Accepted)
        }
        3 => {
            m["shape"] = mistyped(r, &[json!(null), json!("4"), json!(4), json!({}), json!([-1]), json!([1.5]), json!(["1"]), json!([null]), json!([[1]]), json!([1e30]), json!([true])]);
            ("mistyped shape".into(), Error)
        }
        4 => {
            m["chunk_grid"]["chunk_shape"] =
                mistyped(r, &[json!(null), json!("4"), json!(4), json!({}), json!([-1]), json!([1.5]), json!(["1"]), json!([null]), json!([4294967296u64]), json!([u64::MAX]), json!([[1]])]);
            ("mistyped chunk_shape".into(), Error)
        }
        5 => {
            // Other rank.
            let mut s: Vec<Value> = m["chunk_grid"]["chunk_shape"].as_array().unwrap().clone();
            if r.bool() || s.is_empty() {
                s.push(json!(r.range(1, 5)));
            } else {
                s.pop();
            }
            m["chunk_grid"]["chunk_shape"] = Value::Array(s);
            ("chunk shape of another rank".into(), Error)
        }
        6 => {
            let n = m["chunk_grid"]["chunk_shape"].as_array().unwrap().len();
            if n == 0 {
                m["chunk_grid"]["chunk_shape"] = json!([0]);
                m["shape"] = json!([5]);
            } else {
                let i = r.usize(n);
                m["chunk_grid"]["chunk_shape"][i] = json!(0);
            }
            ("zero chunk length".into(), Error)
        }
        7 => {
            m["data_type"] = json!(odd_type_string(r));
            ("unknown element type".into(), Error)
        }
        8 => {
            m["data_type"] = match r.below(6) {
                0 => mistyped(r, &not_number),
                1 => json!({"extension": "x", "type": "y", "fallback": odd_type_string(r)}),
                2 => json!({"extension": "x", "fallback": "<i4"}),
                3 => json!({"type": "y", "fallback": "<i4"}),
                4 => json!({"extension": 1, "type": "y", "fallback": "<i4"}),
                _ => json!({"extension": "x", "type": "y", "fallback": 8}),
            };
            if m["data_type"].is_string() {
                // "4"
                m["data_type"] = json!(4);
            }
            ("mistyped element type".into(), Error)
        }
        9 => {
            m["data_type"] = json!({"extension": gen_string(r), "type": gen_string(r)});
            ("extended type without fallback".into(), Accepted)
        }
        10 => {
            m["chunk_memory_layout"] = mistyped(r, &[json!(null), json!("c"), json!("A"), json!(""), json!(0), json!({}), json!([]), json!("row"), json!("K"), json!("f"), json!("CF")]);
            ("unknown memory layout".into(), Error)
        }
        11 => {
            m["extensions"] = mistyped(
                r,
                &[
                    json!(null),
                    json!({}),
                    json!("x"),
                    json!([1]),
                    json!(["x"]),
                    json!([{"extension": "x"}]),
                    json!([{"must_understand": false}]),
                    json!([{"extension": "x", "must_understand": "false"}]),
                    json!([{"extension": "x", "must_understand": 0}]),
                    json!([{"extension": 5, "must_understand": false}]),
                    json!([{"extension": "x", "must_understand": false, "configuration": []}]),
                    json!([{"extension": "x", "must_understand": false, "configuration": "y"}]),
                ],
            );
            ("mistyped extensions".into(), Error)
        }
        12 | 13 => {
            let mut e: Vec<Value> = (0..r.below(4)).map(|_| extension(r, false)).collect();
            if r.bool() {
                e.insert(r.usize(e.len() + 1), extension(r, true));
                m["extensions"] = Value::Array(e);
                ("extension that must be understood".into(), Error)
            } else {
                m["extensions"] = Value::Array(e);
                ("extensions that need not be understood".into(), Accepted)
            }
        }
        14 => {
            m["attributes"] = mistyped(r, &[json!(null), json!([]), json!("x"), json!(1), json!(false), json!([1, 2])]);
            ("mistyped attributes".into(), Error)
        }
        15 => {
            m["compressor"] = mistyped(
                r,
                &[
                    json!("gzip"),
                    json!(5),
                    json!({}),
                    json!([]),
                    json!({"configuration": {}}),
                    json!({"codec": "blosc", "configuration": {}}),
                    json!({"codec": "gzip", "configuration": {}}),
                    json!({"codec": "", "configuration": {}}),
                    json!({"codec": 5, "configuration": {}}),
                    json!({"codec": "GZIP", "configuration": {}}),
                    json!({"codec": "https://purl.org/zarr/spec/codec/gzip/9.0", "configuration": {}}),
                    json!({"codec": "zstd"}),
                ],
            );
            ("unknown or mistyped codec".into(), Error)
        }
        16 => {
            let all = [
                json!({"codec": GZIP_URL, "configuration": {"level": "9"}}),
                json!({"codec": GZIP_URL, "configuration": {"level": 1.5}}),
                json!({"codec": GZIP_URL, "configuration": {"level": 4294967296u64}}),
                json!({"codec": GZIP_URL, "configuration": {"level": null}}),
                json!({"codec": GZIP_URL, "configuration": 9}),
                json!({"codec": GZIP_URL, "configuration": "9"}),
                json!({"codec": "bzip2", "configuration": {"blockSize": -1}}),
                json!({"codec": "bzip2", "configuration": {"blockSize": 256}}),
                json!({"codec": "bzip2", "configuration": {"blockSize": "9"}}),
                json!({"codec": "xz", "configuration": {"preset": "6"}}),
                json!({"codec": "xz", "configuration": {"preset": 3000000000u64}}),
                json!({"codec": "xz", "configuration": {"preset": [6]}}),
                json!({"codec": "lz4", "configuration": {"blockSize": "65536"}}),
                json!({"codec": "lz4", "configuration": {"blockSize": 65536.5}}),
                json!({"codec": "lz4", "configuration": {"blockSize": -3000000000i64}}),
            ];
            m["compressor"] = mistyped(r, &all);
            ("mistyped codec setting".into(), Error)
        }
        17 => {
            m["chunk_grid"] = mistyped(r, &[json!(null), json!([]), json!("regular"), json!(3), json!({}), json!([1])]);
            ("mistyped chunk grid".into(), Error)
        }
        18 => {
            m["chunk_grid"]["separator"] = mistyped(r, &not_number[..1]);
            if r.bool() {
                m["chunk_grid"]["separator"] = json!(r.range(0, 9));
            }
            ("mistyped separator".into(), Error)
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                m[format!("unknown {}", gen_string(r))] = gen_json(r, 2);
            }
            ("unknown fields".into(), Accepted)
        }
    }
}

fn extension(r: &mut Rng, must: bool) -> Value {
    let mut e = json!({"extension": gen_string(r), "must_understand": must});
    if r.bool() {
        e["configuration"] = Value::Object((0..r.below(3)).map(|_| (gen_string(r), gen_json(r, 1))).collect());
    }
    e
}

fn array_documents(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("h");
    let h = gen::create(&base);
    let o = gen::Opts { odd: false, ..Default::default() };
    let m = gen::meta(r, &o);
    let dir = base.join("meta/root");
    std::fs::create_dir_all(&dir).expect("HARNESS: mkdir");
    for round in 0..6 {
        let mut doc = m.json();
        let (label, expect) = mutate(r, &mut doc);
        let path = format!("n{}", round);
        rep.case["document"] = doc.clone();
        rep.case["change"] = json!(label);
        std::fs::write(dir.join(format!("{}.array.json", path)), doc.to_string()).expect("HARNESS: write");
        let got = lib(|| h.get_array_metadata(&path));
        rep.evaluations += 1;
        rep.count(if expect == Expect::Error { "invalid_documents" } else { "valid_documents" });
        rep.seen("changes", crate::rng::hash_bytes(label.as_bytes()));
        rep.distinct(format!("{}{}", label, doc));
        match (&got, expect) {
            (Out::Panic(p), _) => return rep.violation(format!("{}: reading array metadata panics: {}", label, p)),
            (Out::Ok(_), Expect::Error) => return rep.violation(format!("{}: accepted as array metadata", label)),
            (Out::Err(k, e), Expect::Accepted) => return rep.violation(format!("{}: refused: {:?} {}", label, k, e)),
            _ => (),
        }
        // The same document at another handle, and everything else that reads it.
        let exists = lib(|| h.array_exists(&path));
        if expect == Expect::Error && exists == Out::Ok(true) {
            return rep.violation(format!("{}: exists as an array", label));
        }
        if expect == Expect::Accepted && exists != Out::Ok(true) {
            return rep.violation(format!("{}: array_exists gave {:?}", label, exists));
        }
        if !operations(&h, &path, rep) {
            return;
        }
        if round == 0 {
            rep.sample(json!({"change": label, "document": doc, "expected": format!("{:?}", expect)}));
        }
        if let Out::Ok(z) = got {
            if !chunk_io(&h, &path, &z, r, rep) {
                return;
            }
        }
    }
}

/// All operations that read a node's document return.
fn operations<H: HierarchyReader + HierarchyWriter + HierarchyLister>(h: &H, path: &str, rep: &mut Report) -> bool {
    let mut attrs = Map::new();
    attrs.insert("k".into(), json!(1));
    let outs = [
        ("get_array_metadata", lib(|| h.get_array_metadata(path).map(drop))),
        ("exists", lib(|| h.exists(path).map(drop))),
        ("array_exists", lib(|| h.array_exists(path).map(drop))),
        ("list_attributes", lib(|| h.list_attributes(path).map(drop))),
        ("list_nodes", lib(|| h.list_nodes("").map(drop))),
        ("list_nodes of the node", lib(|| h.list_nodes(path).map(drop))),
        ("set_attributes", lib(|| h.set_attributes(path, attrs.clone()))),
        ("set_attribute", lib(|| h.set_attribute(path, "x".into(), [1, 2]))),
        ("list_attributes after setting", lib(|| h.list_attributes(path).map(drop))),
        ("create_group", lib(|| h.create_group(path))),
        ("get_version", lib(|| h.get_version().map(drop))),
    ];
    for (name, o) in &outs {
        rep.count("operations");
        if let Out::Panic(p) = o {
            rep.violation(format!("{} panics: {}", name, p));
            return false;
        }
    }
    true
}

/// Chunk IO with small chunks of an accepted array.
fn chunk_io<H: HierarchyWriter>(h: &H, path: &str, z: &ArrayMetadata, r: &mut Rng, rep: &mut Report) -> bool {
    let n: u128 = z.get_chunk_shape().iter().map(|&c| c as u128).product();
    let extent = z.get_grid_extent();
    if n > 1 << 16 || extent.contains(&0) {
        return true;
    }
    let pos = vec![0u64; extent.len()];
    let kind = match KINDS.iter().find(|k| {
        let t = |big| serde_json::from_value::<zarr::DataType>(json!(k.type_string(big))).unwrap();
        z.get_data_type().effective_type().map_or(false, |d| d == t(true) || d == t(false))
    }) {
        Some(k) => *k,
        None => {
            // No fallback: errors.
            let o = write_chunk(h, path, z, Kind::U1, &pos, &vec![0; n as usize]);
            if !o.is_err() {
                rep.violation(format!("writing a chunk of an unsupported type: {:?}", o));
                return false;
            }
            return true;
        }
    };
    let data = gen_data(r, kind, n as usize);
    let w = write_chunk(h, path, z, kind, &pos, &data);
    let d = if w.is_ok() { read_chunk(h, path, z, kind, &pos) } else { Out::Ok(None) };
    rep.count("chunk_io");
    match (&w, &d) {
        (Out::Ok(()), Out::Ok(Some(d))) if *d == data => true,
        _ => {
            rep.violation(format!("chunk of an accepted array: write {:?}, read {}", w, d.class()));
            false
        }
    }
}

fn mutate_bytes(r: &mut Rng, valid: &[u8]) -> Vec<u8> {
    let mut b = valid.to_vec();
    match r.below(12) {
        0 => {
            let n = r.usize(b.len() + 1);
            b.truncate(n);
        }
        1 | 2 => {
            for _ in 0..r.range(1, 4) {
                let i = r.usize(b.len());
                b[i] = r.u64() as u8;
            }
        }
        3 => {
            // Splice.
            let i = r.usize(b.len());
            let j = i + r.usize(b.len() - i);
            let part = b[i..j].to_vec();
            let k = r.usize(b.len());
            b.splice(k..k, part);
        }
        4 => {
            let i = r.usize(b.len());
            let j = i + r.usize(b.len() - i);
            b.drain(i..j);
        }
        5 => b.extend_from_slice(*r.pick(&[&b"}"[..], b"x", b"{}", b"\0", b" null", b","])),
        6 => b = { let n = r.usize(301); r.bytes(n) },
        7 => b = vec![],
        8 => {
            let n = *r.pick(&[100, 127, 128, 129, 5000, 200_000]);
            let open = *r.pick(&[&b"["[..], b"{\"a\":", b"[{\"a\":"]);
            b = open.repeat(n);
        }
        9 => {
            // Deep nesting as the value of a field.
            let n = *r.pick(&[100, 126, 127, 128, 5000, 100_000]);
            let mut deep = "[".repeat(n).into_bytes();
            deep.extend("]".repeat(n).into_bytes());
            let s = String::from_utf8(b).unwrap();
            b = s.replacen("null", &String::from_utf8(deep).unwrap(), 1).into_bytes();
        }
        10 => {
            let junk = [&b"\"\\ud800\""[..], b"1e999", b"-0", b"123456789012345678901234567890", b"\"\xff\xfe\"", b"NaN", b"\"\\x\"", b"1e-999", b"[1,]", b"0x10", b"\xef\xbb\xbf{}", b"tru"];
            let j = *r.pick(&junk);
            let i = r.usize(b.len());
            b.splice(i..(i + 1), j.iter().cloned());
        }
        _ => {
            // A number replaced by another.
            let digits: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
            if !digits.is_empty() {
                let i = *r.pick(&digits);
                let j = *r.pick(&[&b"-1"[..], b"18446744073709551615", b"18446744073709551616", b"1.5", b"1e3", b"0", b"4294967295", b"99999999999", b""]);
                b.splice(i..(i + 1), j.iter().cloned());
            }
        }
    }
    b
}

fn show(b: &[u8]) -> Value {
    let s = String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned();
    json!({"bytes": b.len(), "start": s})
}

/// Whether bytes are certainly not a valid array document.
fn not_array(b: &[u8]) -> Option<String> {
    let v: Value = match serde_json::from_slice(b) {
        Ok(v) => v,
        // Nesting beyond the parser's limit is left open.
        Err(e) if e.to_string().contains("recursion") => return None,
        // Text in JSON's syntax whose strings or numbers have no value (lone surrogates,
        // invalid UTF-8, 1e999) may be ignored with the field it belongs to.
        Err(_) if serde_json::from_slice::<serde::de::IgnoredAny>(b).is_ok() => return None,
        Err(_) => return Some("not JSON".into()),
    };
    let o = match v.as_object() {
        Some(o) => o,
        // Sequences: see the listed finding.
        None if v.is_array() => return None,
        None => return Some("not an object".into()),
    };
    for f in ["shape", "data_type", "chunk_grid", "chunk_memory_layout", "extensions", "attributes"] {
        if !o.contains_key(f) {
            return Some(format!("no {}", f));
        }
    }
    let nums = |v: &Value, max: u64| v.as_array().map_or(false, |a| a.iter().all(|x| x.as_u64().map_or(false, |x| x <= max)));
    if !nums(&o["shape"], u64::MAX) {
        return Some("shape".into());
    }
    let g = &o["chunk_grid"];
    if g.is_array() {
        return None;
    }
    if !nums(&g["chunk_shape"], u32::MAX as u64) || !g["type"].is_string() || !g["separator"].is_string() {
        return Some("chunk_grid".into());
    }
    let cs = g["chunk_shape"].as_array().unwrap();
    if cs.len() != o["shape"].as_array().unwrap().len() || cs.contains(&json!(0)) {
        return Some("chunk shape".into());
    }
    if !["C", "F"].contains(&o["chunk_memory_layout"].as_str().unwrap_or("")) && !o["chunk_memory_layout"].is_object() {
        return Some("chunk_memory_layout".into());
    }
    match &o["data_type"] {
        Value::String(s) if valid_type_string(s) || s.starts_with("r+") => (),
        Value::Object(_) | Value::Array(_) => (),
        _ => return Some("data_type".into()),
    }
    if !o["attributes"].is_object() || !o["extensions"].is_array() {
        return Some("attributes or extensions".into());
    }
    if o["extensions"].as_array().unwrap().iter().any(|e| e["must_understand"] == json!(true)) {
        return Some("extension to be understood".into());
    }
    None
}

fn array_bytes(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let m = gen::meta(r, &gen::Opts { odd: false, ..Default::default() });
    let valid = m.json().to_string().into_bytes();
    let base = cx.sub("h");
    let h = gen::create(&base);
    let mem = crate::mem::MemHierarchy::new(None);
    let dir = base.join("meta/root");
    std::fs::create_dir_all(&dir).expect("HARNESS: mkdir");
    for i in 0..8 {
        let b = mutate_bytes(r, &valid);
        rep.case["stored"] = show(&b);
        let path = format!("n{}", i);
        std::fs::write(dir.join(format!("{}.array.json", path)), &b).expect("HARNESS: write");
        mem.put(&format!("meta/root/{}.array.json", path), b.clone());
        rep.evaluations += 2;
        rep.distinct(&b);
        let why = not_array(&b);
        rep.count(if why.is_some() { "invalid_bytes" } else { "other_bytes" });
        for o in [lib(|| h.get_array_metadata(&path)), lib(|| mem.get_array_metadata(&path))] {
            match (&o, &why) {
                (Out::Panic(p), _) => return rep.violation(format!("reading array metadata panics: {}", p)),
                (Out::Ok(_), Some(w)) => return rep.violation(format!("accepted as array metadata: {}", w)),
                _ => (),
            }
        }
        if !operations(&h, &path, rep) || !operations(&mem, &path, rep) {
            return;
        }
        if let Out::Ok(z) = lib(|| h.get_array_metadata(&path)) {
            if !chunk_io(&h, &path, &z, r, rep) {
                return;
            }
        }
    }
}

fn group_bytes(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let valid = json!({"extensions": [], "attributes": {"a": 1, "b": null}}).to_string().into_bytes();
    let base = cx.sub("h");
    let h = gen::create(&base);
    let dir = base.join("meta/root");
    std::fs::create_dir_all(&dir).expect("HARNESS: mkdir");
    for i in 0..8 {
        let b = if r.chance(1, 4) {
            json!({"extensions": gen_json(r, 1), "attributes": gen_json(r, 1)}).to_string().into_bytes()
        } else {
            mutate_bytes(r, &valid)
        };
        rep.case["stored_group"] = show(&b);
        let path = format!("n{}", i);
        std::fs::write(dir.join(format!("{}.group.json", path)), &b).expect("HARNESS: write");
        rep.evaluations += 1;
        rep.distinct(&b);
        rep.count("group_documents");
        if !operations(&h, &path, rep) {
            return;
        }
        // Neither becomes an array.
        if !lib(|| h.get_array_metadata(&path)).is_err() {
            return rep.violation("array metadata of a group");
        }
    }
}

fn entry_points(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    use Expect::*;
    let uri = "https://purl.org/zarr/spec/protocol/core/3.0";
    let valid = json!({"zarr_format": uri, "metadata_encoding": uri, "metadata_key_suffix": ".json", "extensions": []});
    for i in 0..4 {
        let mut doc = valid.clone();
        let mut bytes = None;
        let (label, expect) = match r.below(9) {
            0 => {
                let f = *r.pick(&["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"]);
                doc.as_object_mut().unwrap().remove(f);
                (format!("without {}", f), Error)
            }
            1 => {
                let f = *r.pick(&["zarr_format", "metadata_encoding", "metadata_key_suffix", "extensions"]);
                doc[f] = r.pick(&[json!(null), json!(3), json!({}), json!(true), json!([3])]).clone();
                (format!("mistyped {}", f), Error)
            }
            2 => {
                let v = *r.pick(&["2.0", "4.0", "3.1", "1.0", "0.3", "30.0", "3.2.1", "2", "4", "", "x", "three", "3.x.y.z", "v2.0", "3.0.1", "2.9.9", "5.0.0-alpha"]);
                // Leading zeros are not a version.
                doc["zarr_format"] = json!(format!("https://purl.org/zarr/spec/protocol/core/{}", v));
                (format!("version {}", v), Error)
            }
            3 => {
                doc["zarr_format"] = json!(*r.pick(&["", "zarr", "https://purl.org/zarr", "3.0/", "core/2"]));
                ("no version".into(), Error)
            }
            4 => {
                let e: Vec<Value> = (0..r.range(1, 3)).map(|_| extension(r, false)).collect();
                doc["extensions"] = Value::Array(e);
                ("extensions that need not be understood".into(), Accepted)
            }
            5 => {
                let mut e: Vec<Value> = (0..r.range(0, 3)).map(|_| extension(r, false)).collect();
                e.insert(r.usize(e.len() + 1), extension(r, true));
                doc["extensions"] = Value::Array(e);
                ("extension that must be understood".into(), Error)
            }
            6 => {
                let s = *r.pick(&["", ".", "..", "/", "/x", ".a/b", "../..", ".json/../..", "\u{0}", ".j\u{0}n", "json", ".é", "...", "\\", ".x.y", " ", "/../../../../x", "./", "a/../.json"]);
                doc["metadata_key_suffix"] = json!(s);
                (format!("suffix {:?}", s), Returns)
            }
            7 => {
                doc[gen_string(r) + "_unknown"] = gen_json(r, 2);
                ("unknown field".into(), Accepted)
            }
            _ => {
                bytes = Some(mutate_bytes(r, valid.to_string().as_bytes()));
                ("other bytes".into(), Returns)
            }
        };
        let b = bytes.unwrap_or_else(|| doc.to_string().into_bytes());
        let expect = match serde_json::from_slice::<Value>(&b) {
            Err(_) if serde_json::from_slice::<serde::de::IgnoredAny>(&b).is_ok() => expect,
            Err(_) => Error,
            Ok(v) if !v.is_object() && !v.is_array() => Error,
            _ => expect,
        };
        rep.case["entry_point"] = show(&b);
        rep.case["change"] = json!(label);
        rep.evaluations += 1;
        rep.count(if expect == Error { "invalid_entry_points" } else { "other_entry_points" });
        rep.seen("changes", crate::rng::hash_bytes(label.as_bytes()));
        rep.distinct(&b);
        let base = cx.sub(&format!("e{}", i));
        std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
        std::fs::write(base.join("zarr.json"), &b).expect("HARNESS: write");
        for create in [false, true] {
            let o = lib(|| if create { FilesystemHierarchy::open_or_create(&base) } else { FilesystemHierarchy::open(&base) });
            match (&o, expect) {
                (Out::Panic(p), _) => return rep.violation(format!("{}: opening panics: {}", label, p)),
                (Out::Ok(_), Error) => return rep.violation(format!("{}: opened (create: {})", label, create)),
                (Out::Err(k, e), Accepted) => return rep.violation(format!("{}: refused: {:?} {}", label, k, e)),
                _ => (),
            }
            if std::fs::read(base.join("zarr.json")).ok().as_ref() != Some(&b) {
                return rep.violation(format!("{}: opening changed the entry point", label));
            }
            if let Out::Ok(h) = o {
                for p in ["", "n", "a/b"] {
                    if !operations(&h, p, rep) {
                        return;
                    }
                }
                let m = Meta::new(&[4], &[2], Kind::U1).zarr();
                let o = lib(|| h.create_array("x", &m));
                if o.is_panic() || lib(|| h.remove("x")).is_panic() {
                    return rep.violation(format!("{}: creating or removing an array panics: {:?}", label, o));
                }
            }
        }
    }
    let empty = cx.sub("none");
    rep.evaluations += 1;
    if !lib(|| FilesystemHierarchy::open(Path::new(&empty))).is_err() {
        rep.violation("a directory without entry point was opened");
    }
}

/// Every declared setting works for chunk IO or is refused, without panic.
fn codec_settings(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("h");
    let h = gen::create(&base);
    for i in 0..3 {
        let mut m = Meta::new(&[40], &[r.range(1, 40) as u32], *r.pick(&KINDS));
        let names = codec_names();
        let name = *r.pick(&names);
        m.codec = gen_codec(r, name, true);
        if let Some(c) = m.codec.as_mut().and_then(|c| c["configuration"].as_object_mut()) {
            for (_, v) in c.iter_mut() {
                if r.bool() {
                    *v = match r.below(4) {
                        0 => json!(r.u64() as i32),
                        1 => json!(r.u64() as u8),
                        2 => json!((r.u64() as i32) >> r.below(31)),
                        _ => json!(r.u64() as i64),
                    };
                }
            }
        }
        rep.case["codec"] = json!(m.codec);
        rep.evaluations += 1;
        rep.distinct(format!("{:?}", m.codec));
        rep.count("codec_settings");
        let path = format!("n{}", i);
        let dir = base.join("meta/root");
        std::fs::create_dir_all(&dir).expect("HARNESS: mkdir");
        std::fs::write(dir.join(format!("{}.array.json", path)), m.json().to_string()).expect("HARNESS: write");
        match lib(|| h.get_array_metadata(&path)) {
            Out::Panic(p) => return rep.violation(format!("reading array metadata panics: {}", p)),
            Out::Err(..) => rep.count("settings_refused"),
            Out::Ok(z) => {
                if !chunk_io(&h, &path, &z, r, rep) {
                    return;
                }
            }
        }
    }
}
