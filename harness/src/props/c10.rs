//! C10: attributes as one map per node.

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

use crate::arena::{self, Arena, Store};
use crate::gen;
use crate::on_arena;
use crate::props::c03::{array_key, group_key};
use crate::props::c08::{gen_json, gen_object, gen_string};
use crate::report::Report;
use crate::rng::Rng;
use crate::tree;
use crate::types::*;
use crate::Cx;

struct Node {
    key: String,
    array: bool,
    attrs: Map<String, Value>,
    /// The stored document without its attributes.
    rest: Value,
    had_attrs: bool,
}

fn parse(b: Option<&Vec<u8>>) -> Value {
    b.and_then(|b| serde_json::from_slice(b).ok()).unwrap_or(Value::Null)
}

fn without_attrs(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("attributes");
    }
    v
}

fn gen_key(r: &mut Rng) -> String {
    match r.below(3) {
        0 => gen_string(r),
        1 => r.pick(&["attributes", "shape", "extensions", "data_type", "", "compressor", "Attributes"]).to_string(),
        _ => format!("k{}", r.below(4)),
    }
}

fn gen_attrs(r: &mut Rng) -> Map<String, Value> {
    let mut m: Map<String, Value> = (0..r.below(5)).map(|_| (gen_key(r), gen_json(r, 3))).collect();
    if r.chance(1, 6) {
        // Long values, so that later documents are shorter.
        m.insert(format!("k{}", r.below(4)), json!("long ".repeat(r.range(10, 4000) as usize)));
    }
    if r.chance(1, 4) {
        let v = regular(r, 3);
        m.insert(format!("k{}", r.below(4)), v);
    }
    m
}

/// Nested values of few shapes, so that those of an update resemble those there are.
fn regular(r: &mut Rng, depth: u64) -> Value {
    match r.below(if depth == 0 { 1 } else { 4 }) {
        0 => json!(r.below(3)),
        1 => json!((0..r.range(1, 2)).map(|_| regular(r, depth - 1)).collect::<Vec<_>>()),
        _ => Value::Object((0..r.range(1, 2)).map(|_| (format!("k{}", r.below(3)), regular(r, depth - 1))).collect()),
    }
}

/// A value that differs little from another one.
fn vary(r: &mut Rng, v: &Value, depth: u64) -> Value {
    if depth > 0 && r.chance(3, 4) {
        match v {
            Value::Array(a) if !a.is_empty() => {
                let mut a = a.clone();
                let i = r.usize(a.len());
                match r.below(6) {
                    0 => a.push(gen_json(r, 1)),
                    1 => {
                        a.remove(i);
                    }
                    2 => a.reverse(),
                    _ => a[i] = vary(r, &v[i], depth - 1),
                }
                return Value::Array(a);
            }
            Value::Object(o) if !o.is_empty() => {
                let mut o = o.clone();
                let k = o.keys().nth(r.usize(o.len())).unwrap().clone();
                match r.below(5) {
                    0 => {
                        o.insert(gen_key(r), gen_json(r, 1));
                    }
                    1 => {
                        o.remove(&k);
                    }
                    _ => {
                        let x = vary(r, &o[&k], depth - 1);
                        o.insert(k, x);
                    }
                }
                return Value::Object(o);
            }
            _ => (),
        }
    }
    match (r.below(8), v) {
        (0, _) => v.clone(),
        (1, _) => json!([v]),
        (2, _) => json!({"k0": v}),
        (3, Value::Number(n)) => json!(n.to_string()),
        (4, Value::Number(n)) => json!(n.as_f64().unwrap_or(0.5) as i16 as f64),
        (3, Value::String(s)) => json!(s.to_uppercase()),
        (4, Value::String(s)) => json!(format!("{} ", s)),
        (5, Value::Null) => json!(false),
        (3, Value::Array(_)) => json!([]),
        (3, Value::Object(_)) => json!({}),
        (3..=5, _) => Value::Null,
        _ => gen_json(r, depth.min(2)),
    }
}

/// Store a new node, in one of several ways.
fn add<H: Store>(a: &Arena<H>, r: &mut Rng, path: &str) -> Node {
    let h = a.any(r);
    let shown = gen::decorate(r, path);
    let array = r.bool();
    let key = if array { array_key(path, ".json") } else { group_key(path, ".json") };
    let mut attrs = Map::new();
    let mut had_attrs = true;
    let how = r.below(3);
    if array {
        let o = gen::Opts { max_chunk_bytes: 64, ..Default::default() };
        let mut m = gen::meta(r, &o);
        if how > 0 {
            m.attrs = gen_attrs(r);
        }
        attrs = m.attrs.clone();
        if how < 2 {
            gen::create_array(h, &shown, &m);
        } else {
            let mut doc = m.json();
            for (k, v) in gen_object(r, 3) {
                doc.as_object_mut().unwrap().entry(format!("x-{}", k)).or_insert(v);
            }
            let s = if r.bool() { serde_json::to_vec_pretty(&doc) } else { serde_json::to_vec(&doc) };
            a.backing.put(&key, &s.unwrap());
        }
    } else if how < 2 {
        gen::must("creating a group", lib(|| h.create_group(&shown)));
    } else {
        let mut doc = Value::Object(gen_object(r, 3));
        doc["extensions"] = json!([]);
        had_attrs = r.bool();
        if had_attrs {
            attrs = gen_attrs(r);
            doc["attributes"] = Value::Object(attrs.clone());
        } else {
            doc.as_object_mut().unwrap().remove("attributes");
        }
        a.backing.put(&key, &serde_json::to_vec_pretty(&doc).unwrap());
    }
    let rest = without_attrs(parse(a.files().get(&key)));
    if !rest.is_object() {
        panic!("node {:?} has no document at {:?}", path, key);
    }
    Node { key, array, attrs, rest, had_attrs }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    on_arena!(cx, r, 6, 3, a => history(&a, r, rep))
}

fn history<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report) {
    let mut nodes: BTreeMap<String, Node> = BTreeMap::new();
    let mut pool: Vec<String> = (0..r.range(2, 5)).map(|_| gen::path(r, 3)).collect();
    if r.chance(1, 4) {
        pool.push(String::new());
    }
    if r.chance(1, 2) {
        let p = r.pick(&pool).clone();
        pool.push(if p.is_empty() { "z".into() } else { format!("{}/z", p) });
    }
    pool.sort();
    pool.dedup();
    for p in &pool {
        if r.chance(3, 4) {
            nodes.insert(p.clone(), add(a, r, p));
        }
    }
    let mut script = String::new();
    rep.case["store"] = json!(a.backing.name());
    let mut trace: Vec<Value> = vec![];
    for _ in 0..r.range(3, 14) {
        let path = r.pick(&pool).clone();
        let shown = gen::decorate(r, &path);
        let h = a.any(r);
        let before = a.files();
        let op = r.below(10);
        script.push_str(&format!("{} {};", op, path));
        let mut target = None;
        match op {
            0..=6 => {
                let mut update = gen_attrs(r);
                let single = r.chance(1, 3);
                let (mut k, mut v) = (gen_key(r), gen_json(r, 3));
                if let Some(n) = nodes.get(&path) {
                    // Also values like those there are.
                    for (k, v) in &n.attrs {
                        if r.chance(1, 3) {
                            let x = vary(r, v, 3);
                            rep.count("varied");
                            update.insert(k.clone(), x);
                        }
                    }
                    if let Some((x, y)) = n.attrs.iter().nth(r.usize(n.attrs.len().max(1))).filter(|_| r.bool()) {
                        k = x.clone();
                        v = vary(r, y, 3);
                        rep.count("varied");
                    }
                }
                trace.push(json!([if single { "set_attribute" } else { "set_attributes" }, shown]));
                rep.case["history"] = json!(trace);
                let o = if single {
                    lib(|| h.set_attribute(&shown, k.clone(), v.clone()))
                } else {
                    lib(|| h.set_attributes(&shown, update.clone()))
                };
                rep.evaluations += 1;
                match nodes.get_mut(&path) {
                    None => {
                        rep.count("missing_nodes");
                        if !o.is_err() {
                            return rep.violation(format!("setting attributes of the missing node {:?}: {:?}", shown, o));
                        }
                    }
                    Some(n) => {
                        if !o.is_ok() {
                            return rep.violation(format!("setting attributes of {:?}: {:?}", shown, o));
                        }
                        rep.count("updates");
                        if single {
                            rep.add("replaced", n.attrs.contains_key(&k) as u64);
                            n.attrs.insert(k, v);
                        } else {
                            for (k, v) in update {
                                rep.add("replaced", n.attrs.contains_key(&k) as u64);
                                n.attrs.insert(k, v);
                            }
                        }
                        target = Some(n.key.clone());
                    }
                }
            }
            7 => {
                trace.push(json!(["remove", shown]));
                gen::must("removing a node", lib(|| h.remove(&shown)));
                let below = format!("{}/", path);
                nodes.retain(|p, _| !(path.is_empty() || *p == path || p.starts_with(&below)));
                check_all(a, r, rep, &nodes, &pool);
                continue;
            }
            8 => {
                if !nodes.contains_key(&path) {
                    trace.push(json!(["create", path]));
                    let n = add(a, r, &path);
                    nodes.insert(path, n);
                    rep.count("recreated");
                }
                continue;
            }
            _ => {
                // Creating a group again keeps its attributes.
                if nodes.get(&path).map_or(false, |n| !n.array) {
                    gen::must("creating a group again", lib(|| h.create_group(&shown)));
                }
            }
        }
        rep.case["history"] = json!(trace);
        let after = a.files();
        rep.evaluations += 1;
        let changed: Vec<String> = tree::diff(&before, &after).into_iter().filter(|d| target.as_ref().map_or(true, |t| d[1..] != *t)).collect();
        if !changed.is_empty() {
            return rep.violation(format!("an attribute operation on {:?} also changed {:?}", shown, changed));
        }
        if !check_all(a, r, rep, &nodes, &pool) {
            return;
        }
    }
    rep.distinct(format!("{}{}", a.backing.name(), script));
    rep.count(a.backing.name());
    rep.sample(json!({"store": a.backing.name(), "history": trace}));
}

fn check_all<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report, nodes: &BTreeMap<String, Node>, pool: &[String]) -> bool {
    let files = a.files();
    for p in pool {
        let h = a.any(r);
        let shown = gen::decorate(r, p);
        let got = lib(|| h.list_attributes(&shown));
        rep.evaluations += 1;
        match nodes.get(p) {
            None => {
                if !got.is_err() {
                    rep.violation(format!("attributes of the missing node {:?}: {:?}", shown, got));
                    return false;
                }
            }
            Some(n) => {
                if got != Out::Ok(n.attrs.clone()) {
                    rep.violation(format!("attributes of {:?} are {:?}, expected {:?}", shown, got, n.attrs));
                    return false;
                }
                let doc = parse(files.get(&n.key));
                let stored = doc.get("attributes").cloned();
                let rest = without_attrs(doc);
                if rest != n.rest {
                    rep.violation(format!("updating attributes changed the rest of {:?} from {} to {}", shown, n.rest, rest));
                    return false;
                }
                let ok = match &stored {
                    Some(v) => *v == Value::Object(n.attrs.clone()),
                    None => !n.had_attrs && n.attrs.is_empty(),
                };
                if !ok {
                    rep.violation(format!("stored attributes of {:?} are {:?}", shown, stored));
                    return false;
                }
                if n.array {
                    let m = lib(|| h.get_array_metadata(&shown)).map(|m| serde_json::to_value(m).unwrap());
                    let ok = matches!(&m, Out::Ok(v) if v["attributes"] == Value::Object(n.attrs.clone()) && v["shape"] == n.rest["shape"]
                        && v["chunk_grid"] == n.rest["chunk_grid"] && v["data_type"] == n.rest["data_type"]);
                    if !ok {
                        rep.violation(format!("metadata of {:?} after attribute updates: {:?}", shown, m));
                        return false;
                    }
                }
                if arena::exists(h, &shown) != Out::Ok(true) {
                    rep.violation(format!("{:?} does not exist after attribute updates", shown));
                    return false;
                }
            }
        }
    }
    true
}
