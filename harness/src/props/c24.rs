//! C24: operations need only the chunks and documents that they are about.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

use crate::arena::{self, Arena, Store};
use crate::on_arena;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::world::{self, Act, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    on_arena!(cx, r, 5, 2, suffix, a => history(&a, suffix, r, rep));
}

/// Keys whose values an operation may need, and keys whose values it replaces without
/// having to know them.
fn concerned(w: &World, act: &Act) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut needed, mut replaced) = (BTreeSet::new(), BTreeSet::new());
    match act {
        Act::ReadChunk { path, pos } | Act::ReadChunkInto { path, pos, .. } => {
            needed.insert(w.chunk_key(path, pos));
        }
        Act::WriteChunk { path, pos, .. } | Act::DeleteChunk { path, pos } => {
            replaced.insert(w.chunk_key(path, pos));
        }
        Act::ReadRegion { path, offset, shape } => {
            needed.extend(w.touched(path, offset, shape).iter().map(|p| w.chunk_key(path, p)));
        }
        Act::WriteRegion { path, offset, shape, .. } => {
            let m = w.meta(path);
            for p in w.touched(path, offset, shape) {
                let covered = (0..m.rank()).all(|d| {
                    let c = m.chunk[d] as u64;
                    offset[d] <= p[d] * c && offset[d] + shape[d] >= (p[d] + 1) * c
                });
                let k = w.chunk_key(path, &p);
                if covered {
                    replaced.insert(k);
                } else {
                    needed.insert(k);
                }
            }
        }
        Act::SetAttributes { path, .. }
        | Act::CreateGroup { path }
        | Act::CreateArray { path, .. }
        | Act::ArrayMeta { path }
        | Act::Exists { path }
        | Act::ArrayExists { path }
        | Act::ListAttributes { path } => {
            needed.insert(w.doc_key(path, true));
            needed.insert(w.doc_key(path, false));
        }
        _ => unreachable!("HARNESS: {}", act.show()),
    }
    (needed, replaced)
}

fn history<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let o = world::Opts { max_chunk_bytes: 160, arrays: 3, groups: 1, extra: false, ..Default::default() };
    let mut w = World::create(a, suffix, &o, r);
    rep.case["store"] = json!(a.backing.name());
    rep.case["suffix"] = json!(suffix);
    let mut trace: Vec<Value> = vec![];
    for _ in 0..r.range(3, 10) {
        let act = loop {
            let x = if r.bool() { w.gen_read(r) } else { w.gen_write(r, &o) };
            match x {
                // They concern everything below a path.
                Act::ListNodes { .. } | Act::Remove { .. } => (),
                Act::StoreGet { .. } | Act::StoreExists { .. } | Act::StoreListDir { .. } | Act::StoreListPrefix { .. } => (),
                x => break x,
            }
        };
        let h = a.any(r);
        let (needed, replaced) = concerned(&w, &act);
        // Everything that the operation is not about can be damaged, inaccessible or gone,
        // also where nothing has been stored.
        let before = a.files();
        let mut keys: BTreeSet<String> = before.keys().cloned().collect();
        for p in w.paths(true) {
            for pos in w.meta(&p).positions_some(r, 3) {
                keys.insert(w.chunk_key(&p, &pos));
            }
            keys.extend(world_neighbours(&w, &p, &needed, &replaced));
        }
        let mut documents = BTreeSet::new();
        for p in w.pool.iter().chain(w.nodes.keys()) {
            let mut p = p.clone();
            loop {
                documents.insert(w.doc_key(&p, true));
                documents.insert(w.doc_key(&p, false));
                if p.is_empty() {
                    break;
                }
                p = world::parent(&p);
            }
        }
        keys.extend(documents.iter().cloned());
        keys.remove("zarr.json");
        let most = r.range(1, 4);
        let mut damage: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
        let mut shown = vec![];
        for k in keys {
            if needed.contains(&k) || !r.chance(most, 4) || !w.free(&k) {
                continue;
            }
            let own = replaced.contains(&k);
            let old = before.get(&k).cloned();
            match r.below(if own { 4 } else { 6 }) {
                0 if old.is_some() => a.backing.delete(&k),
                // Another valid value.
                0 if documents.contains(&k) => {
                    a.backing.put(&k, w.gen_meta(&o, r).json().to_string().as_bytes());
                    rep.count("other_documents");
                }
                1 if documents.contains(&k) => {
                    a.backing.put(&k, w.gen_meta(&o, r).json().to_string().as_bytes());
                    rep.count("other_documents");
                }
                1 if before.keys().any(|x| x.starts_with("data/")) && r.bool() => {
                    let from: Vec<&Vec<u8>> = before.iter().filter(|(x, _)| x.starts_with("data/")).map(|x| x.1).collect();
                    a.backing.put(&k, r.pick(&from));
                    rep.count("other_chunks");
                }
                0 | 1 => a.backing.put(&k, &[]),
                2 | 3 => {
                    let n = 1 + r.usize(100);
                    a.backing.put(&k, &r.bytes(n))
                }
                _ => a.backing.break_key(&k),
            }
            rep.count(if a.backing.is_broken(&k) { "inaccessible" } else { "damaged" });
            shown.push(json!([k, a.backing.is_broken(&k)]));
            damage.insert(k, old);
        }
        let damaged = a.files();
        trace.push(act.show());
        rep.case["history"] = json!(trace);
        rep.case["damaged"] = json!(shown);
        rep.evaluations += 1;
        rep.count(act.name());
        rep.add("damaged_keys", damage.len() as u64);
        let got = world::perform(h, &w, &act);
        match &got {
            Out::Ok(g) if !w.refused(&act) => {
                if let Err(e) = w.judge(&act, g) {
                    return rep.violation(format!("with other values damaged, {} gives {}", act.show(), e));
                }
            }
            Out::Err(..) if w.refused(&act) => rep.count("refused"),
            o => return rep.violation(format!("with other values damaged, {}: {:?}", act.show(), o)),
        }
        // The damage is as it was, where it was not replaced.
        let after = a.files();
        for (k, old) in &damage {
            if replaced.contains(k) {
                rep.count("replaced_damage");
                continue;
            }
            if after.get(k) != damaged.get(k) {
                return rep.violation(format!("{} changed the damaged {}", act.show(), k));
            }
            if a.backing.is_broken(k) {
                a.backing.mend_key(k, old.as_deref());
            } else {
                match old {
                    Some(v) => a.backing.put(k, v),
                    None => a.backing.delete(k),
                }
            }
        }
        w.apply(&act);
        // And all is well once it is undone.
        match w.verify(h, &|_| false) {
            Ok(n) => rep.add("reads_after", n),
            Err(e) => return rep.violation(format!("after {}, which was performed with other values damaged, {}", act.show(), e)),
        }
    }
    rep.distinct(format!("{}{}{:?}", a.backing.name(), suffix, trace));
    rep.sample(json!({"store": a.backing.name(), "history": trace, "last_damage": rep.case["damaged"].clone()}));
}

/// Chunks next to those an operation concerns.
fn world_neighbours(w: &World, path: &str, needed: &BTreeSet<String>, replaced: &BTreeSet<String>) -> Vec<String> {
    let m = w.meta(path);
    let mut out = vec![];
    let all = m.positions();
    if all.len() > 64 {
        return out;
    }
    let concerned = |p: &Vec<u64>| {
        let k = w.chunk_key(path, p);
        needed.contains(&k) || replaced.contains(&k)
    };
    for p in all.iter().filter(|p| concerned(p)) {
        for d in 0..m.rank() {
            for n in [p[d].wrapping_sub(1), p[d] + 1] {
                if n < m.grid()[d] {
                    let mut q = p.clone();
                    q[d] = n;
                    out.push(w.chunk_key(path, &q));
                }
            }
        }
    }
    out
}
