//! C03: storage keys, computed independently and observed in the store.

use serde_json::json;
use std::collections::BTreeMap;
use zarr::prelude::*;
use zarr::Hierarchy;

use crate::gen;
use crate::mem::MemHierarchy;
use crate::report::Report;
use crate::rng::Rng;
use crate::tree;
use crate::types::*;
use crate::Cx;

fn join(prefix: &str, path: &str) -> String {
    if path.is_empty() {
        prefix.into()
    } else {
        format!("{}/{}", prefix, path)
    }
}

pub fn array_key(path: &str, suffix: &str) -> String {
    join("meta/root", path) + ".array" + suffix
}

pub fn group_key(path: &str, suffix: &str) -> String {
    join("meta/root", path) + ".group" + suffix
}

pub fn chunk_key(path: &str, pos: &[u64], sep: &str) -> String {
    let p: Vec<String> = pos.iter().map(|c| c.to_string()).collect();
    format!("{}/c{}", join("data/root", path), p.join(sep))
}

const SUFFIXES: [&str; 9] = [".json", ".json", ".meta", ".zmeta.json", ".x", ".array", ".group", ".json5", ".a.b.c"];

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&SUFFIXES);
    let sep = r.pick(&["/", "/", ".", "-", "_", ",", ":", "x", " ", "--", "/c", "_/", "::", "é"]).to_string();
    let root = r.chance(1, 10);
    let path = if root { String::new() } else { gen::path(r, 4) };
    let shown = gen::decorate(r, &path);
    let o = gen::Opts { max_chunk_bytes: 64, codecs: false, ..Default::default() };
    let mut m = gen::meta(r, &o);
    // Large coordinates, too.
    if m.rank() > 0 && r.chance(1, 2) {
        for s in m.shape.iter_mut() {
            *s = *r.pick(&[1u64, 9, 10, 11, 100, 1 << 20, 1 << 32, (1 << 32) + 5, 1 << 40, (1 << 53) + 3, 1 << 63, (1 << 63) + 9, u64::MAX]);
        }
    }
    m.sep = sep.clone();
    rep.case["suffix"] = json!(suffix);
    rep.case["path"] = json!(path);
    rep.case["shown"] = json!(shown);
    rep.case["array"] = m.describe();
    let pos: Vec<u64> = m.grid().iter().map(|&g| if r.bool() { g - 1 } else { r.below(g) }).collect();
    let data = gen_data(r, m.kind, m.chunk_elems());

    let (want_a, want_g) = (array_key(&path, suffix), group_key(&path, suffix));
    let want_c = chunk_key(&path, &pos, &sep);

    // The keys the library computes, up to the leading slash.
    let mem = MemHierarchy::with_suffix(suffix, None);
    let z = m.zarr();
    let trim = |p: std::path::PathBuf| p.to_str().unwrap().trim_start_matches('/').to_string();
    for (what, got, want) in [
        ("array metadata", lib_plain(|| trim(mem.array_metadata_key(&shown))), &want_a),
        ("group metadata", lib_plain(|| trim(mem.group_metadata_key(&shown))), &want_g),
        ("chunk", lib_plain(|| trim(zarr::storage::get_chunk_key(&shown, &z, &pos).into())), &want_c),
    ] {
        rep.evaluations += 1;
        if got != Out::Ok(want.clone()) {
            rep.violation(format!("{} key of {:?} is {:?}, expected {:?}", what, shown, got, want));
        }
    }

    // Where a filesystem hierarchy really stores them.
    let base = cx.sub("h");
    let h = gen::create_with_suffix(&base, suffix);
    let before = tree::files(&base);
    let array = r.bool();
    if array {
        gen::must("creating an array", lib(|| h.create_array(&shown, &z)));
    } else {
        gen::must("creating a group", lib(|| h.create_group(&shown)));
    }
    let after = tree::files(&base);
    rep.evaluations += 1;
    let want = if array { &want_a } else { &want_g };
    if tree::diff(&before, &after) != vec![format!("+{}", want)] {
        rep.violation(format!("creating {:?} changed {:?}, expected only {:?}", shown, tree::diff(&before, &after), want));
        return;
    }
    if array {
        gen::must("writing a chunk", write_chunk(&h, &shown, &z, m.kind, &pos, &data));
        let written = tree::files(&base);
        rep.evaluations += 2;
        if tree::diff(&after, &written) != vec![format!("+{}", want_c)] {
            rep.violation(format!("writing chunk {:?} of {:?} changed {:?}, expected only {:?}", pos, shown, tree::diff(&after, &written), want_c));
            return;
        }
        let uri = gen::must("chunk uri", lib(|| h.get_chunk_uri(&shown, &z, &pos)));
        let file = uri.strip_prefix("file://").map(std::path::Path::new);
        let content = file.and_then(|f| std::fs::read(f).ok());
        if content.as_ref() != written.get(&want_c) || file.map_or(true, |f| f.canonicalize().ok() != base.join(&want_c).canonicalize().ok()) {
            rep.violation(format!("chunk uri {:?} is not the file of the chunk {:?}", uri, want_c));
        }
        // A file put at the specified key by another program is that chunk.
        std::fs::remove_file(base.join(&want_c)).expect("HARNESS: unlink");
        if read_chunk(&h, &path, &z, m.kind, &pos) != Out::Ok(None) {
            rep.violation(format!("chunk {:?} of {:?} readable without its file", pos, shown));
        }
        std::fs::write(base.join(&want_c), &written[&want_c]).expect("HARNESS: write");
        match read_chunk(&h, &path, &z, m.kind, &pos) {
            Out::Ok(Some(d)) if d == data => (),
            o => rep.violation(format!("chunk file put at {:?} reads as {}", want_c, o.class())),
        }
    }
    // A document put at the specified key by another program is that node.
    let other = gen::create_with_suffix(&cx.sub("h2"), suffix);
    let base2 = cx.sub("h2");
    let doc = &after[want];
    let file = base2.join(want);
    std::fs::create_dir_all(file.parent().unwrap()).expect("HARNESS: mkdir");
    std::fs::write(&file, doc).expect("HARNESS: write");
    rep.evaluations += 1;
    let ok = if array {
        lib(|| other.get_array_metadata(&shown)) == Out::Ok(z.clone()) && lib(|| other.array_exists(&shown)) == Out::Ok(true)
    } else {
        lib(|| HierarchyReader::exists(&other, &shown)) == Out::Ok(true) && lib(|| other.list_attributes(&shown)).is_ok()
    };
    if !ok {
        rep.violation(format!("a document at {:?} is not found as node {:?}", want, shown));
    }

    // Distinct names have distinct keys.
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut paths = vec![path.clone()];
    for _ in 0..6 {
        let p = match r.below(12) {
            6 => format!("{}{}", path, r.pick(&[" ", "\t", "\n", "\u{a0}", ".", "\u{301}", "0", "/c0"])),
            7 => format!("{}{}", r.pick(&[" ", "\t", "\u{a0}", ".", "_", "0", "c0/"]), path),
            8 => path.replace('/', " /"),
            9 => path.replace('/', "/ "),
            10 => path.to_lowercase(),
            11 => path.chars().rev().collect(),
            0 => gen::path(r, 3),
            1 => format!("{}.array", path),
            2 => format!("{}.group", path),
            3 => path.replacen('/', ".", 1),
            4 => path.to_uppercase(),
            _ => format!("{}{}", path, suffix),
        };
        paths.push(p.trim_matches('/').to_string());
    }
    // Dots as whole names mean directories.
    paths.retain(|p| p.split('/').all(|n| n != "." && n != ".."));
    paths.sort();
    paths.dedup();
    let mut count = 0;
    for p in &paths {
        let mut keys = vec![
            (format!("array {:?}", p), lib_plain(|| trim(mem.array_metadata_key(p)))),
            (format!("group {:?}", p), lib_plain(|| trim(mem.group_metadata_key(p)))),
        ];
        for pos in m.positions_some(r, 8) {
            let c = lib_plain(|| trim(zarr::storage::get_chunk_key(p, &z, &pos).into()));
            keys.push((format!("chunk {:?} {:?}", p, pos), c));
        }
        for (what, k) in keys {
            count += 1;
            match k {
                Out::Ok(k) => {
                    if let Some(old) = seen.insert(k.clone(), what.clone()) {
                        if old != what {
                            rep.violation(format!("{} and {} share the key {:?}", old, what, k));
                        }
                    }
                }
                o => rep.violation(format!("key of {}: {:?}", what, o)),
            }
        }
    }
    rep.evaluations += 1;
    rep.add("keys_compared", count);
    rep.seen("suffix", crate::rng::hash_bytes(suffix.as_bytes()));
    rep.seen("separators", crate::rng::hash_bytes(sep.as_bytes()));
    rep.count(if root { "root_nodes" } else { "other_nodes" });
    rep.distinct(format!("{} {} {} {:?}", suffix, shown, sep, pos));
    rep.sample(json!({"node": shown, "suffix": suffix, "position": pos, "separator": sep, "chunk_key": want_c, "metadata_key": want}));
}
