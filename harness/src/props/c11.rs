//! C11: the life cycle of groups and arrays.

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use zarr::prelude::*;

use crate::arena::{self, Arena, Store};
use crate::gen;
use crate::on_arena;
use crate::props::c03::{array_key, chunk_key, group_key};
use crate::props::c08::gen_json;
use crate::report::Report;
use crate::rng::Rng;
use crate::tree;
use crate::types::*;
use crate::Cx;

struct Node {
    /// `None` for groups.
    array: Option<(Meta, ArrayMetadata)>,
    attrs: Map<String, Value>,
    chunks: BTreeMap<Vec<u64>, Vec<u8>>,
}

// Names do not begin with "c", because a node's data must not meet its parent's chunks.
const NAMES: [&str; 14] = ["a", "b", "ab", "a.b", "a.array", "a.group", "A", "x.json", "é", "a b", "group", "..a", crate::gen::MEDIUM, crate::gen::LONG];

fn gen_path(r: &mut Rng) -> String {
    let n = if r.bool() { 4 } else { NAMES.len() };
    (0..r.range(1, 3)).map(|_| NAMES[r.usize(n)]).collect::<Vec<_>>().join("/")
}

fn small(r: &mut Rng) -> Meta {
    let o = gen::Opts { max_rank: 2, max_chunk_bytes: 64, max_chunks: 6, ..Default::default() };
    gen::meta(r, &o)
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    rep.case["suffix"] = json!(suffix);
    on_arena!(cx, r, 7, 3, suffix, a => history(&a, suffix, r, rep))
}

fn history<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let mut pool: Vec<String> = (0..r.range(2, 6)).map(|_| gen_path(r)).collect();
    // Parents, children, siblings with a common prefix.
    for _ in 0..2 {
        let p = r.pick(&pool).clone();
        pool.push(match r.below(4) {
            0 => format!("{}/a", p),
            1 => format!("{}b", p),
            2 => p.split('/').next().unwrap().to_string(),
            _ => format!("{}.b", p),
        });
    }
    if r.chance(1, 3) {
        pool.push(String::new());
    }
    pool.sort();
    pool.dedup();
    let mut nodes: BTreeMap<String, Node> = BTreeMap::new();
    // Metadata of all arrays there ever were.
    let mut stale: Vec<(String, Meta, ArrayMetadata)> = vec![];
    let mut trace: Vec<Value> = vec![];
    rep.case["store"] = json!(a.backing.name());
    let mut signature = String::new();
    for _ in 0..r.range(4, 24) {
        let path = r.pick(&pool).clone();
        let shown = gen::decorate(r, &path);
        let h = a.any(r);
        let before = a.files();
        let op = r.below(13);
        let mut failed = false;
        signature.push_str(&format!("{}:{};", op, path));
        match op {
            0..=1 => {
                trace.push(json!(["create_group", shown]));
                rep.case["history"] = json!(trace);
                let o = lib(|| h.create_group(&shown));
                match nodes.get(&path) {
                    Some(n) if n.array.is_some() => {
                        rep.count("refused_creations");
                        failed = true;
                        if !o.is_err() {
                            return rep.violation(format!("creating a group over the array {:?}: {:?}", shown, o));
                        }
                    }
                    Some(_) => {
                        rep.count("recreated_groups");
                        failed = true;
                        if !o.is_ok() {
                            return rep.violation(format!("creating the existing group {:?}: {:?}", shown, o));
                        }
                    }
                    None => {
                        if !o.is_ok() {
                            return rep.violation(format!("creating group {:?}: {:?}", shown, o));
                        }
                        rep.count("created_groups");
                        nodes.insert(path.clone(), Node { array: None, attrs: Map::new(), chunks: BTreeMap::new() });
                    }
                }
            }
            2..=4 => {
                // Sometimes exactly an array that was there before.
                let old = stale.iter().find(|s| s.0 == path).cloned();
                let (m, z) = match old {
                    Some((_, m, z)) if r.bool() => (m, z),
                    _ => {
                        let m = small(r);
                        let z = m.zarr();
                        (m, z)
                    }
                };
                trace.push(json!(["create_array", shown, m.describe()]));
                rep.case["history"] = json!(trace);
                let o = lib(|| h.create_array(&shown, &z));
                if nodes.contains_key(&path) {
                    rep.count("refused_creations");
                    failed = true;
                    if !o.is_err() {
                        return rep.violation(format!("creating an array over the node {:?}: {:?}", shown, o));
                    }
                } else {
                    if !o.is_ok() {
                        return rep.violation(format!("creating array {:?}: {:?}", shown, o));
                    }
                    rep.count("created_arrays");
                    stale.push((path.clone(), m.clone(), z.clone()));
                    nodes.insert(path.clone(), Node { attrs: m.attrs.clone(), array: Some((m, z)), chunks: BTreeMap::new() });
                }
            }
            5..=6 => {
                trace.push(json!(["remove", shown]));
                rep.case["history"] = json!(trace);
                let o = if path.is_empty() && r.bool() { lib(|| h.remove_all()) } else { lib(|| h.remove(&shown)) };
                if !o.is_ok() {
                    return rep.violation(format!("removing {:?}: {:?}", shown, o));
                }
                let below = format!("{}/", path);
                let n = nodes.len();
                nodes.retain(|p, _| !(path.is_empty() || *p == path || p.starts_with(&below)));
                rep.count(match n - nodes.len() {
                    0 => "removals_of_nothing",
                    1 => "removals",
                    _ => "removals_with_descendants",
                });
            }
            7 => {
                if let Some(n) = nodes.get_mut(&path) {
                    let mut m = Map::new();
                    m.insert(format!("k{}", r.below(3)), gen_json(r, 1));
                    trace.push(json!(["set_attributes", shown, m]));
                    rep.case["history"] = json!(trace);
                    let o = lib(|| h.set_attributes(&shown, m.clone()));
                    if !o.is_ok() {
                        return rep.violation(format!("setting attributes of {:?}: {:?}", shown, o));
                    }
                    n.attrs.extend(m);
                }
            }
            12 => {
                // A node whose document cannot be used is still there.
                let Some(n) = nodes.get(&path) else { continue };
                let key = if n.array.is_some() { array_key(&path, suffix) } else { group_key(&path, suffix) };
                let spoilt: Vec<u8> = match r.below(4) {
                    0 => vec![],
                    1 => before[&key][..before[&key].len() / 2].to_vec(),
                    2 => b"[]".to_vec(),
                    _ => vec![0xff; 9],
                };
                trace.push(json!(["create over an unusable document", shown, spoilt]));
                rep.case["history"] = json!(trace);
                a.backing.put(&key, &spoilt);
                let spoilt_tree = a.files();
                let (what, o) = if n.array.is_some() && r.bool() {
                    ("a group", lib(|| h.create_group(&shown)))
                } else {
                    let z = small(r).zarr();
                    ("an array", lib(|| h.create_array(&shown, &z)))
                };
                rep.evaluations += 1;
                rep.count("creations_over_unusable_documents");
                if !o.is_err() {
                    return rep.violation(format!("creating {} over {:?}, a node with an unusable document: {:?}", what, shown, o));
                }
                let now = a.files();
                if now != spoilt_tree {
                    return rep.violation(format!("the refused creation of {} over {:?} changed {:?}", what, shown, tree::diff(&spoilt_tree, &now)));
                }
                a.backing.put(&key, &before[&key]);
            }
            _ => {
                let arrays: Vec<String> = nodes.iter().filter(|(_, n)| n.array.is_some()).map(|(p, _)| p.clone()).collect();
                if arrays.is_empty() {
                    continue;
                }
                let path = r.pick(&arrays).clone();
                let n = nodes.get_mut(&path).unwrap();
                let (m, z) = n.array.as_ref().unwrap();
                for pos in m.positions_some(r, 3) {
                    trace.push(json!([if op == 8 { "delete_chunk" } else { "write_chunk" }, path, pos]));
                    rep.case["history"] = json!(trace);
                    if op == 8 {
                        gen::must("deleting a chunk", lib(|| h.delete_chunk(&path, z, &pos)));
                        n.chunks.remove(&pos);
                    } else {
                        let d = gen_data(r, m.kind, m.chunk_elems());
                        gen::must("writing a chunk", write_chunk(h, &path, z, m.kind, &pos, &d));
                        rep.count("chunks_written");
                        n.chunks.insert(pos, d);
                    }
                }
            }
        }
        let after = a.files();
        rep.evaluations += 1;
        if failed && before != after {
            return rep.violation(format!("a refused or repeated creation of {:?} changed {:?}", shown, tree::diff(&before, &after)));
        }
        // Exactly the documents and chunks of the nodes there are.
        let mut want: Vec<String> = nodes
            .iter()
            .flat_map(|(p, n)| {
                let doc = if n.array.is_some() { array_key(p, suffix) } else { group_key(p, suffix) };
                let sep = n.array.as_ref().map_or("/", |(m, _)| &m.sep);
                n.chunks.keys().map(|c| chunk_key(p, c, sep)).chain([doc]).collect::<Vec<_>>()
            })
            .collect();
        if matches!(a.backing, arena::Backing::Dir(_)) {
            want.push("zarr.json".into());
        }
        want.sort();
        let have: Vec<String> = after.keys().cloned().collect();
        if want != have {
            let extra: Vec<_> = have.iter().filter(|k| !want.contains(k)).collect();
            let lost: Vec<_> = want.iter().filter(|k| !have.contains(k)).collect();
            return rep.violation(format!("after {}: stored but should not be: {:?}, lost: {:?}", trace.last().unwrap(), extra, lost));
        }
        if !check(a, r, rep, &nodes, &pool, &stale) {
            return;
        }
    }
    rep.distinct(format!("{}{}{}", a.backing.name(), suffix, signature));
    rep.count(a.backing.name());
    rep.sample(json!({"store": a.backing.name(), "history": trace}));
}

fn check<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report, nodes: &BTreeMap<String, Node>, pool: &[String], stale: &[(String, Meta, ArrayMetadata)]) -> bool {
    for p in pool {
        let h = a.any(r);
        let shown = gen::decorate(r, p);
        let n = nodes.get(p);
        let array = n.and_then(|n| n.array.as_ref());
        rep.evaluations += 1;
        let mut wrong = vec![];
        let e = arena::exists(h, &shown);
        if e != Out::Ok(n.is_some()) {
            wrong.push(format!("exists is {:?}", e));
        }
        let e = lib(|| h.array_exists(&shown));
        if e != Out::Ok(array.is_some()) {
            wrong.push(format!("array_exists is {:?}", e));
        }
        let at = lib(|| h.list_attributes(&shown));
        match n {
            Some(n) if at != Out::Ok(n.attrs.clone()) => wrong.push(format!("attributes are {:?}, expected {:?}", at, n.attrs)),
            None if !at.is_err() => wrong.push(format!("attributes are {:?}", at)),
            _ => (),
        }
        let md = lib(|| h.get_array_metadata(&shown));
        match array {
            Some((m, _)) => {
                let mut want = m.clone();
                want.attrs = n.unwrap().attrs.clone();
                if md != want.try_zarr() {
                    wrong.push(format!("metadata is {:?}", md));
                }
            }
            None if !md.is_err() => wrong.push(format!("metadata is {:?}", md)),
            _ => (),
        }
        if !wrong.is_empty() {
            let kind = if array.is_some() { "array" } else if n.is_some() { "group" } else { "missing" };
            rep.violation(format!("node {:?} ({}): {}", shown, kind, wrong.join(", ")));
            return false;
        }
    }
    // Chunks of arrays there are, and none of those that were removed.
    for (p, n) in nodes {
        if let Some((m, z)) = &n.array {
            for pos in m.positions_some(r, 4).iter().chain(n.chunks.keys()) {
                let got = read_chunk(a.any(r), p, z, m.kind, pos);
                rep.evaluations += 1;
                if got != Out::Ok(n.chunks.get(pos).cloned()) {
                    rep.violation(format!("chunk {:?} of {:?} reads as {}, expected {}", pos, p, got.class(), if n.chunks.contains_key(pos) { "data" } else { "absent" }));
                    return false;
                }
            }
        }
    }
    for (p, m, z) in stale {
        if !nodes.contains_key(p) {
            for pos in m.positions_some(r, 3) {
                let got = read_chunk(a.any(r), p, z, m.kind, &pos);
                rep.evaluations += 1;
                rep.count("reads_of_removed");
                if got != Out::Ok(None) {
                    rep.violation(format!("chunk {:?} of the removed array {:?} reads as {}", pos, p, got.class()));
                    return false;
                }
            }
        }
    }
    true
}
