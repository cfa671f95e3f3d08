//! C22: the same histories over a directory and over a hostile in-memory store, and the
//! filesystem store against a map.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

use crate::arena::{self, Arena, Store};
use crate::props::c04::gen_box;
use crate::report::Report;
use crate::rng::Rng;
use crate::tree;
use crate::types::*;
use crate::world::*;
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    if r.chance(1, 3) {
        map(cx, r, rep)
    } else {
        both(cx, r, rep)
    }
}

/// Operations beyond those of the world's model, most of which are refused.
#[derive(Clone, Debug)]
enum Odd {
    Act(Act),
    /// A node operation on an unusual path.
    Node { op: u64, path: String },
    /// Access with another element type.
    ReadAs { path: String, pos: Vec<u64>, kind: Kind },
    WriteAs { path: String, pos: Vec<u64>, kind: Kind, data: Vec<u8> },
    RegionAs { path: String, offset: Vec<u64>, shape: Vec<u64>, kind: Kind },
    WriteRegionAs { path: String, offset: Vec<u64>, shape: Vec<u64>, kind: Kind, data: Vec<u8> },
    /// All ways to read a chunk.
    ReadAll { path: String, pos: Vec<u64> },
    /// All ways to use a document.
    Document { path: String },
    List,
}

/// Comparable results; errors by their kind.
#[derive(PartialEq, Debug)]
enum Got {
    Res(Res),
    Err(std::io::ErrorKind),
    Panic(String),
}

fn got(o: Out<Res>) -> Got {
    match o {
        Out::Ok(r) => Got::Res(r),
        Out::Err(k, _) => Got::Err(k),
        Out::Panic(m) => Got::Panic(m),
    }
}

fn run<H: Store>(h: &H, w: &World, o: &Odd) -> Vec<Got> {
    let array = |p: &String| w.nodes[p].array.as_ref().expect("HARNESS: array");
    let one = |x| vec![got(x)];
    match o {
        Odd::Act(a) => one(perform(h, w, a)),
        Odd::Node { op, path } => one(match op {
            0 => lib(|| HierarchyReader::exists(h, path)).map(Res::Bool),
            1 => lib(|| h.array_exists(path)).map(Res::Bool),
            2 => lib(|| h.get_array_metadata(path)).map(|m| Res::Json(serde_json::to_value(m).unwrap())),
            3 => lib(|| h.list_attributes(path)).map(|m| Res::Json(Value::Object(m))),
            4 => lib(|| h.create_group(path)).map(|_| Res::Unit),
            5 => lib(|| h.list_nodes(path)).map(|n| Res::Names(n.into_iter().collect(), BTreeSet::new())),
            6 => lib(|| h.set_attributes(path, serde_json::Map::new())).map(|_| Res::Unit),
            7 => lib(|| ReadableStore::exists(h, path)).map(Res::Bool),
            8 => lib(|| h.erase(path)).map(Res::Bool),
            _ => lib(|| h.remove(path)).map(|_| Res::Unit),
        }),
        Odd::ReadAs { path, pos, kind } => one(read_chunk(h, path, &array(path).1, *kind, pos).map(Res::Chunk)),
        Odd::WriteAs { path, pos, kind, data } => one(write_chunk(h, path, &array(path).1, *kind, pos, data).map(|_| Res::Unit)),
        Odd::RegionAs { path, offset, shape, kind } => {
            one(read_region(h, path, &array(path).1, *kind, offset, shape).map(|(s, b)| Res::Region(s, b)))
        }
        Odd::WriteRegionAs { path, offset, shape, kind, data } => {
            one(write_region(h, path, &array(path).1, *kind, offset, shape, data, Layout::C).map(|_| Res::Unit))
        }
        Odd::ReadAll { path, pos } => {
            let m = &array(path).0;
            let offset: Vec<u64> = pos.iter().zip(&m.chunk).map(|(p, &c)| p * c as u64).collect();
            let shape: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
            vec![
                got(perform(h, w, &Act::ReadChunk { path: path.clone(), pos: pos.clone() })),
                got(perform(h, w, &Act::ReadChunkInto { path: path.clone(), pos: pos.clone(), before: vec![] })),
                got(perform(h, w, &Act::ReadRegion { path: path.clone(), offset, shape })),
            ]
        }
        Odd::Document { path } => {
            let p = || path.clone();
            let attrs = json!({"k": 1}).as_object().unwrap().clone();
            [
                Act::Exists { path: p() },
                Act::ArrayExists { path: p() },
                Act::ArrayMeta { path: p() },
                Act::ListAttributes { path: p() },
                Act::CreateGroup { path: p() },
                Act::SetAttributes { path: p(), attrs },
                Act::ListAttributes { path: p() },
            ]
            .iter()
            .map(|a| got(perform(h, w, a)))
            .collect()
        }
        Odd::List => one(lib(|| h.list()).map(|k| Res::Names(k.iter().map(|k| trim(k).to_string()).filter(|k| k != "zarr.json").collect(), BTreeSet::new()))),
    }
}

fn show(o: &Odd) -> Value {
    match o {
        Odd::Act(a) => a.show(),
        o => {
            let mut s = format!("{:?}", o);
            if s.len() > 300 {
                let n = (0..=300).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                s.truncate(n);
            }
            json!(s)
        }
    }
}

/// Whether the results over the two stores agree, where the directory may have empty
/// directories, as C12 describes, and its own entry point.
fn same(w: &World, o: &Odd, dir: &Got, mem: &Got, keys: &BTreeSet<String>) -> bool {
    if dir == mem {
        return true;
    }
    let listed = match o {
        Odd::Act(Act::ListNodes { path }) | Odd::Node { op: 5, path } => {
            if trim(path).is_empty() {
                "meta/root".to_string()
            } else {
                format!("meta/root/{}", trim(path).trim_start_matches("./"))
            }
        }
        Odd::Act(Act::StoreListDir { .. }) | Odd::Act(Act::StoreListPrefix { .. }) => String::new(),
        _ => {
            // Stored elements outside of the array's shape are not specified.
            if let (Odd::Act(Act::ReadChunk { path, pos }), Got::Res(Res::Chunk(Some(a))), Got::Res(Res::Chunk(Some(b)))) = (o, dir, mem) {
                return w.same_chunk(path, pos, a, b);
            }
            // Whose error it is differs for paths outside of the store.
            if let (Odd::Node { path, .. }, Got::Err(_), Got::Err(_)) = (o, dir, mem) {
                return path.contains("..");
            }
            return false;
        }
    };
    match (dir, mem) {
        (Got::Res(Res::Names(a, b)), Got::Res(Res::Names(c, d))) => {
            let prune = |s: &BTreeSet<String>, other: &BTreeSet<String>| -> BTreeSet<String> {
                s.iter()
                    .filter(|n| {
                        let full = if listed.is_empty() { n.to_string() } else { format!("{}/{}", listed, n) };
                        let empty = !keys.iter().any(|k| k.starts_with(&format!("{}/", full)));
                        *n != "zarr.json" && !(empty && !other.contains(*n) && !keys.contains(&full))
                    })
                    .cloned()
                    .collect()
            };
            prune(a, c) == *c && prune(b, d) == *d
        }
        _ => false,
    }
}

fn gen_odd(w: &World, r: &mut Rng, o: &Opts) -> Odd {
    let arrays = w.paths(true);
    match r.below(20) {
        0..=4 => Odd::Act(w.gen_read(r)),
        5..=9 => Odd::Act(w.gen_write(r, o)),
        10..=11 => Odd::Act(w.gen_store_write(r)),
        12 => Odd::List,
        13..=14 => {
            let p = r.pick(&w.pool).clone();
            let path = match r.below(8) {
                0 => format!("/{}/", p),
                1 => format!("//{}", p),
                2 => format!("{}//", p),
                3 => format!("./{}", p),
                4 => "..".to_string(),
                5 => format!("../../../{}", p),
                6 => "../../..".to_string(),
                _ => format!("{}/no/such", p),
            };
            // Removals with odd paths only where they are refused, as the model does not know them.
            let op = r.below(if path.contains("../..") { 10 } else { 4 });
            Odd::Node { op, path }
        }
        _ if arrays.is_empty() => Odd::List,
        k => {
            let path = r.pick(&arrays).clone();
            let m = w.meta(&path).clone();
            let pos = w.gen_pos(r, &path);
            let kind = *r.pick(&KINDS);
            // What the model cannot follow must be refused.
            let wrong = kind != m.kind;
            match k {
                15 => Odd::ReadAs { path, pos, kind },
                16 => {
                    let n = m.chunk_elems() + if wrong { r.usize(2) } else { r.range(1, 3) as usize };
                    Odd::WriteAs { path, pos, kind, data: gen_data(r, kind, n) }
                }
                17 => {
                    let (mut offset, mut shape) = gen_box(r, &m.shape, 200, true);
                    if r.bool() {
                        offset.push(0);
                        shape.push(1);
                    }
                    Odd::RegionAs { path, offset, shape, kind }
                }
                18 => {
                    let (mut offset, shape) = gen_box(r, &m.shape, 200, true);
                    if !wrong {
                        offset.push(0);
                    }
                    let n: u64 = shape.iter().product();
                    Odd::WriteRegionAs { path, offset, shape, kind, data: gen_data(r, kind, n as usize) }
                }
                _ => Odd::ReadAll { path, pos },
            }
        }
    }
}

fn both(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    rep.case["suffix"] = json!(suffix);
    let base = cx.sub("h");
    let d = arena::directory_with_suffix(&base, 2, suffix);
    let m = arena::memory_with_suffix(r, 1, suffix);
    let mut o = Opts::default();
    if r.chance(1, 10) {
        o.max_chunk_bytes = 40 << 10;
    }
    let seed = r.u64();
    let mut w = World::create(&d, suffix, &o, &mut Rng::new(seed));
    let other = World::create(&m, suffix, &o, &mut Rng::new(seed));
    assert_eq!(w.keys(), other.keys(), "HARNESS: worlds");
    let mut trace: Vec<Value> = vec![];
    let mut compared = 0;
    for _ in 0..r.range(5, 25) {
        let mut odd = gen_odd(&w, r, &o);
        // Damage something, the same in both.
        let mut damaged = None;
        let arrays = w.paths(true);
        if r.chance(1, 6) && !arrays.is_empty() {
            let path = r.pick(&arrays).clone();
            let files = d.files();
            if r.bool() {
                let pos = w.gen_pos(r, &path);
                let key = w.chunk_key(&path, &pos);
                let n = r.usize(2 * w.meta(&path).chunk_bytes() + 40);
                let bad = match files.get(&key) {
                    Some(v) if r.chance(3, 4) => v[..r.usize(v.len() + 1)].to_vec(),
                    _ => r.bytes(n),
                };
                damaged = Some((key, bad));
                odd = Odd::ReadAll { path, pos };
            } else {
                let key = w.doc_key(&path, true);
                let v = &files[&key];
                let bad = match r.below(4) {
                    0 => v[..r.usize(v.len())].to_vec(),
                    1 => b"[]".to_vec(),
                    2 => b"{\"attributes\": 3}".to_vec(),
                    _ => r.bytes(20),
                };
                damaged = Some((key, bad));
                odd = Odd::Document { path };
            }
        }
        let old = damaged.as_ref().map(|(k, _)| (d.files().get(k).cloned(), m.files().get(k).cloned()));
        if let Some((k, v)) = &damaged {
            d.backing.put(k, v);
            m.backing.put(k, v);
            rep.count("damaged");
        }
        trace.push(show(&odd));
        rep.case["history"] = Value::Array(trace.clone());
        let before = w.clone();
        let a = run(d.any(r), &w, &odd);
        let b = run(&m.handles[0], &w, &odd);
        let keys: BTreeSet<String> = m.files().into_keys().collect();
        for (i, (a, b)) in a.iter().zip(&b).enumerate() {
            rep.evaluations += 1;
            compared += 1;
            rep.count(match a {
                Got::Res(_) => "successes_compared",
                Got::Err(_) => "errors_compared",
                Got::Panic(_) => "panics",
            });
            if let Got::Err(k) = a {
                rep.seen("error_kinds", crate::rng::hash_bytes(format!("{:?}", k).as_bytes()));
            }
            if !same(&before, &odd, a, b, &keys) {
                let short = |g: &Got| format!("{:?}", g).chars().take(300).collect::<String>();
                return rep.violation(format!("{} (result {}) gives {} in a directory but {} in another store", show(&odd), i, short(a), short(b)));
            }
        }
        match &odd {
            Odd::Act(act) if matches!(a[0], Got::Res(_)) => w.apply(act),
            _ => (),
        }
        if let (Some((k, _)), Some((x, y))) = (&damaged, old) {
            for (backing, v) in [(&d.backing, x), (&m.backing, y)] {
                let mut t = backing.snapshot();
                match v {
                    Some(v) => t.insert(k.clone(), v),
                    None => t.remove(k),
                };
                backing.restore(&t);
            }
        }
        // All data of both stores has the same keys.
        let mut x: BTreeSet<String> = d.files().into_keys().collect();
        x.remove("zarr.json");
        let y: BTreeSet<String> = m.files().into_keys().collect();
        rep.count("key_sets_compared");
        if x != y {
            return rep.violation(format!(
                "after {} the directory has other keys than the other store: only {:?}, without {:?}",
                show(&odd),
                x.difference(&y).take(5).collect::<Vec<_>>(),
                y.difference(&x).take(5).collect::<Vec<_>>()
            ));
        }
    }
    // Everything in both, and in each other's stored bytes.
    let base2 = cx.sub("h2");
    let d2 = arena::directory_with_suffix(&base2, 1, suffix);
    let m2 = arena::memory_with_suffix(r, 1, suffix);
    for (k, v) in m.files() {
        d2.backing.put(&k, &v);
    }
    for (k, v) in d.files() {
        if k != "zarr.json" {
            m2.backing.put(&k, &v);
        }
    }
    let mut acts: Vec<Odd> = vec![Odd::List];
    for p in w.paths(false) {
        acts.push(Odd::Act(Act::ListAttributes { path: p.clone() }));
        acts.push(Odd::Act(Act::ListNodes { path: p.clone() }));
        if w.nodes[&p].array.is_some() {
            acts.push(Odd::Act(Act::ArrayMeta { path: p.clone() }));
            for pos in w.nodes[&p].chunks.keys() {
                acts.push(Odd::Act(Act::ReadChunk { path: p.clone(), pos: pos.clone() }));
            }
        }
    }
    let keys: BTreeSet<String> = m.files().into_keys().collect();
    for a in acts {
        let x = run(&d.handles[0], &w, &a).remove(0);
        let others: [(&str, Got); 3] = [
            ("another store", run(&m.handles[0], &w, &a).remove(0)),
            ("a directory with the other store's bytes", run(&d2.handles[0], &w, &a).remove(0)),
            ("another store with the directory's bytes", run(&m2.handles[0], &w, &a).remove(0)),
        ];
        for (n, y) in &others {
            rep.evaluations += 1;
            rep.count("final_reads_compared");
            if !same(&w, &a, &x, y, &keys) && !same(&w, &a, y, &x, &keys) {
                return rep.violation(format!("in the end {} gives {:?} in the directory but {:?} in {}", show(&a), x, y, n));
            }
        }
    }
    if compared > 0 {
        rep.distinct(json!([suffix, trace]).to_string());
    }
    rep.sample(json!({"suffix": suffix, "history": trace}));
}

const COMPONENTS: [&str; 16] = ["a", "b", "ab", "a.b", "c0", "x.json", "é", "日本 語", ".hid", "..x", "-", "A", "a.array.json", "~", "%41", "#"];

/// The filesystem store and a map.
fn map(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("s");
    let hs: Vec<FilesystemHierarchy> = arena::directory(&base, 2).handles;
    let arena = Arena { handles: hs, backing: arena::Backing::Dir(base.clone()) };
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    model.insert("zarr.json".into(), std::fs::read(base.join("zarr.json")).expect("HARNESS: entry point"));
    let pool: Vec<String> =
        (0..r.range(2, 8)).map(|_| (0..r.range(1, 4)).map(|_| *r.pick(&COMPONENTS)).collect::<Vec<_>>().join("/")).collect();
    let mut trace: Vec<Value> = vec![];
    let spelled = |r: &mut Rng, k: &str| match r.below(6) {
        _ if k.is_empty() => r.pick(&["", "/"]).to_string(),
        0 => format!("/{}", k),
        1 => format!("./{}", k),
        2 => format!("//{}", k),
        _ => k.to_string(),
    };
    for _ in 0..r.range(5, 40) {
        let h = arena.any(r);
        let key = if r.chance(1, 12) { parent(r.pick(&pool)) } else { r.pick(&pool).clone() };
        // Neither below another key nor above one, and not the root.
        let below_key = model.keys().any(|k| *k != key && is_below(&key, k));
        let above_key = model.keys().any(|k| *k != key && is_below(k, &key));
        let as_key = spelled(r, &key);
        rep.evaluations += 1;
        match r.below(12) {
            0..=3 if !below_key && !above_key && !key.is_empty() && !base.join(&key).is_dir() => {
                let n = match r.below(6) {
                    0 => 0,
                    1 => r.usize(8),
                    2 => 8192 - 2 + r.usize(5),
                    3 => r.usize(200_000),
                    _ => r.usize(600),
                };
                let value = if r.chance(1, 4) { super::c08::gen_json(r, 3).to_string().into_bytes() } else { r.bytes(n) };
                let n = value.len();
                // In pieces, with and without flushing.
                let piece = *r.pick(&[usize::MAX, 1, 7, 8192, 10_000]);
                let piece = if n > 10_000 { piece.max(100) } else { piece };
                let flush = r.chance(2, 3);
                trace.push(json!(["set", as_key, n, flush]));
                let o = lib(|| {
                    h.set(&as_key, |mut w| {
                        for p in value.chunks(piece.max(1).min(value.len().max(1))) {
                            w.write_all(p)?;
                        }
                        if flush {
                            w.flush()?;
                        }
                        Ok(())
                    })
                });
                if !matches!(o, Out::Ok(())) {
                    return fail(rep, trace.pop().unwrap(), format!("{:?}", o));
                }
                if model.get(&key).map_or(false, |v| v.len() > n) {
                    rep.count("shorter_values_set");
                }
                rep.count("values_set");
                model.insert(key, value);
            }
            4..=6 => {
                trace.push(json!(["get", as_key]));
                let step = *r.pick(&[0usize, 0, 1, 5, 4096]);
                let o = lib(|| {
                    let mut b = vec![];
                    match h.get(&as_key)? {
                        None => Ok(None),
                        Some(mut x) if step == 0 => x.read_to_end(&mut b).map(|_| Some(b)),
                        Some(mut x) => {
                            let mut buf = vec![0; step];
                            loop {
                                match x.read(&mut buf)? {
                                    0 => return Ok(Some(b)),
                                    n => b.extend_from_slice(&buf[..n]),
                                }
                            }
                        }
                    }
                });
                rep.count(if model.contains_key(&key) { "values_got" } else { "absent_got" });
                match o {
                    Out::Ok(ref v) if v.as_ref() == model.get(&key) => (),
                    Out::Ok(v) => {
                        return fail(
                            rep,
                            trace.pop().unwrap(),
                            format!("gives {:?} bytes or other ones, expected {:?}", v.map(|v| v.len()), model.get(&key).map(|v| v.len())),
                        )
                    }
                    o => return fail(rep, trace.pop().unwrap(), o.class()),
                }
            }
            7 if r.bool() => {
                trace.push(json!(["get_attributes", as_key]));
                let o = lib(|| h.get_attributes(&as_key));
                let want = model.get(&key).and_then(|v| serde_json::from_slice::<Value>(v).ok());
                rep.count("documents_got");
                match (&o, want) {
                    (Out::Ok(v), Some(w)) if *v == w => rep.count("documents_parsed"),
                    (Out::Err(..), None) => (),
                    // Whether a key without its extensions counts is up to it.
                    (Out::Ok(v), None) if !model.contains_key(&key) && *v == json!({}) => (),
                    (_, w) => return fail(rep, trace.pop().unwrap(), format!("{:?}, expected {:?}", o, w)),
                }
            }
            7 => {
                trace.push(json!(["exists", as_key]));
                let o = lib(|| ReadableStore::exists(h, &as_key));
                rep.count("existence_tests");
                if !matches!(o, Out::Ok(e) if e == model.contains_key(&key)) {
                    return fail(rep, trace.pop().unwrap(), format!("{:?}, expected {}", o, model.contains_key(&key)));
                }
            }
            8..=9 if !above_key && !key.is_empty() && !base.join(&key).is_dir() => {
                trace.push(json!(["erase", as_key]));
                let o = lib(|| h.erase(&as_key));
                rep.count(if model.contains_key(&key) { "erased" } else { "erased_nothing" });
                if !matches!(o, Out::Ok(true)) {
                    return fail(rep, trace.pop().unwrap(), format!("{:?}", o));
                }
                model.remove(&key);
            }
            10 => {
                let mut prefix = key.clone();
                while !prefix.is_empty() && (model.contains_key(&prefix) || r.chance(1, 4)) {
                    prefix = parent(&prefix);
                }
                if prefix.is_empty() && r.chance(4, 5) {
                    prefix = "no/such".into();
                }
                let given = spelled(r, &prefix);
                let given = if r.chance(1, 3) && !given.is_empty() { format!("{}/", given) } else { given };
                trace.push(json!(["erase_prefix", given]));
                let o = lib(|| h.erase_prefix(&given));
                let n = model.len();
                model.retain(|k, _| !is_below(k, &prefix));
                rep.count(if model.len() < n { "prefixes_erased" } else { "prefixes_erased_nothing" });
                if !matches!(o, Out::Ok(true)) {
                    return fail(rep, trace.pop().unwrap(), format!("{:?}", o));
                }
            }
            _ => {
                let prefix = parent(&key);
                let given = if r.bool() { prefix.clone() } else { spelled(r, &prefix) };
                let given = if r.chance(1, 3) && !given.is_empty() { format!("{}/", given) } else { given };
                trace.push(json!(["list_prefix", given]));
                let o = lib(|| h.list_prefix(&given));
                let want: Vec<&String> = model.keys().filter(|k| **k != prefix && is_below(k, &prefix)).collect();
                rep.count("listings");
                match o {
                    Out::Ok(v) => {
                        let mut v: Vec<String> = v
                            .iter()
                            .map(|k| k.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/"))
                            .collect();
                        v.sort();
                        if v.iter().collect::<Vec<_>>() != want {
                            return fail(rep, trace.pop().unwrap(), format!("{:?}, expected {:?}", v, want));
                        }
                    }
                    o => return fail(rep, trace.pop().unwrap(), format!("{:?}", o)),
                }
            }
        }
        // Nothing but the map is stored.
        let files = tree::files(&base);
        rep.count("maps_compared");
        if files != model {
            return rep.violation(format!("after {:?} the stored files differ from the map: {:?}", trace.last(), tree::diff(&model, &files)));
        }
        rep.case["history"] = json!(trace);
    }
    rep.distinct(json!(trace).to_string());
}

fn fail(rep: &mut Report, what: Value, e: String) {
    rep.violation(format!("{}: {}", what, e))
}
