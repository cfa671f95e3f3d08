//! C15: refused operations leave everything as it was.

use serde_json::{json, Map, Value};
use std::io::{Read, Write};
use zarr::ndarray::ZarrNdarrayReader;
use zarr::prelude::*;

use crate::arena::{self, Arena, Backing, Store};
use crate::gen;
use crate::on_arena;
use crate::report::Report;
use crate::rng::Rng;
use crate::tree;
use crate::types::*;
use crate::world::{self, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    on_arena!(cx, r, 7, 2, suffix, a => history(&a, suffix, r, rep));
}

/// Everything that is stored, and what listing the hierarchy says.
fn state<H: Store>(a: &Arena<H>, w: &World) -> (tree::Tree, Vec<String>) {
    let t = match &a.backing {
        Backing::Dir(d) => tree::all(d),
        b => b.files(),
    };
    let lists = w.pool.iter().map(|p| format!("{:?}", lib(|| a.handles[0].list_nodes(p)))).collect();
    (t, lists)
}

fn history<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let o = world::Opts { max_chunk_bytes: 200, ..Default::default() };
    let mut w = World::create(a, suffix, &o, r);
    rep.case["store"] = json!(a.backing.name());
    rep.case["suffix"] = json!(suffix);
    let mut trace: Vec<Value> = vec![];
    let mut before = state(a, &w);
    for _ in 0..r.range(6, 20) {
        if r.chance(1, 5) {
            // Ordinary life goes on in between.
            let act = w.gen_write(r, &o);
            trace.push(act.show());
            rep.case["history"] = json!(trace);
            let h = a.any(r);
            let got = world::perform(h, &w, &act);
            if got.is_ok() == w.refused(&act) || got.is_panic() {
                return rep.violation(format!("{}: {:?}", act.show(), got));
            }
            w.apply(&act);
            rep.count("accepted_operations");
            before = state(a, &w);
            continue;
        }
        let h = a.any(r);
        let (class, what, got) = match r.below(14) {
            0..=4 => match bad_chunk(h, &w, r) {
                Some(x) => x,
                None => continue,
            },
            5..=8 => match bad_region(h, &w, r) {
                Some(x) => x,
                None => continue,
            },
            9 | 10 => bad_node(h, &w, r, &o),
            _ => outside(h, &w, r),
        };
        rep.evaluations += 1;
        rep.count(class);
        trace.push(what.clone());
        rep.case["history"] = json!(trace);
        match got {
            Out::Err(..) => (),
            Out::Ok(()) => return rep.violation(format!("{} was not refused", what)),
            Out::Panic(m) => return rep.violation(format!("{} panicked: {}", what, m)),
        }
        let after = state(a, &w);
        if after != before {
            let d = tree::diff(&before.0, &after.0);
            return rep.violation(format!("the refused {} changed what is stored or listed: {:?}", what, d));
        }
        rep.add("files_compared", after.0.len() as u64);
        // And later reads are as before.
        for _ in 0..3 {
            let act = w.gen_read(r);
            let got = world::perform(a.any(r), &w, &act);
            let ok = match &got {
                Out::Ok(g) if !w.refused(&act) => w.judge(&act, g),
                Out::Err(..) if w.refused(&act) => Ok(()),
                o => Err(format!("{:?}", o)),
            };
            if let Err(e) = ok {
                return rep.violation(format!("after the refused {}, {}: {}", what, act.show(), e));
            }
            rep.count("reads_after");
        }
    }
    match w.verify(a.any(r), &|_| false) {
        Ok(n) => rep.add("reads_after", n),
        Err(e) => return rep.violation(format!("after refused operations, {}", e)),
    }
    rep.distinct(format!("{}{}{:?}", a.backing.name(), suffix, trace));
    rep.sample(json!({"store": a.backing.name(), "history": trace}));
}

type Refused = (&'static str, Value, Out<()>);

fn other_kind(r: &mut Rng, k: Kind) -> Kind {
    loop {
        // Often one of the same size.
        let o = *r.pick(&KINDS);
        if o != k && (o.size() == k.size() || r.bool()) {
            return o;
        }
    }
}

fn no_fallback(m: &Meta) -> ArrayMetadata {
    let mut d = m.json();
    d["data_type"] = json!({"extension": "https://example.org/ext/1.0", "type": "<X9[zz]", "fallback": null});
    serde_json::from_value(d).expect("HARNESS: extended type")
}

/// A chunk that does not fit its array.
fn bad_chunk<H: Store>(h: &H, w: &World, r: &mut Rng) -> Option<Refused> {
    let paths = w.paths(true);
    if paths.is_empty() {
        return None;
    }
    let path = r.pick(&paths).clone();
    let (m, z) = w.nodes[&path].array.clone().unwrap();
    let pos = w.gen_pos(r, &path);
    let stored = w.nodes[&path].chunks.contains_key(&pos);
    let n = m.chunk_elems();
    let shown = gen::decorate(r, &path);
    Some(match r.below(6) {
        0..=2 => {
            let k = match r.below(6) {
                0 => 0,
                1 => n - 1,
                2 => n + 1,
                3 => 2 * n,
                4 => r.usize(n),
                _ => n + 1 + r.usize(300),
            };
            let d = gen_data(r, m.kind, k);
            let what = json!(["write_chunk with a wrong number of elements", shown, pos, m.describe(), k, if stored { "stored" } else { "absent" }]);
            (if stored { "wrong_count_overwrite" } else { "wrong_count_absent" }, what, write_chunk(h, &shown, &z, m.kind, &pos, &d))
        }
        3 | 4 => {
            let kind = other_kind(r, m.kind);
            // The same number of elements, or of bytes.
            let k = if r.bool() { n } else { (m.chunk_bytes() / kind.size()).max(1) };
            let d = gen_data(r, kind, k);
            let what = json!(["write_chunk with a wrong element type", shown, pos, m.describe(), format!("{:?}", kind), k]);
            (if stored { "wrong_type_overwrite" } else { "wrong_type_absent" }, what, write_chunk(h, &shown, &z, kind, &pos, &d))
        }
        _ => {
            let z = no_fallback(&m);
            let kind = if r.bool() { m.kind } else { *r.pick(&KINDS) };
            let d = gen_data(r, kind, n);
            let what = json!(["write_chunk of an extended type without fallback", shown, pos, m.describe(), format!("{:?}", kind)]);
            ("no_fallback", what, write_chunk(h, &shown, &z, kind, &pos, &d))
        }
    })
}

/// A region that shares elements with the array.
fn region(r: &mut Rng, m: &Meta) -> (Vec<u64>, Vec<u64>) {
    let offset: Vec<u64> = m.shape.iter().map(|&s| r.below(s)).collect();
    let mut left = 300;
    let shape = m
        .shape
        .iter()
        .zip(&offset)
        .map(|(&s, &o)| {
            let more = r.below(2);
            let n = r.range(1, (s - o + more).min(left).max(1));
            left = (left / n).max(1);
            n
        })
        .collect();
    (offset, shape)
}

/// A value that no element of the kind can have.
fn unusable_fill(r: &mut Rng, kind: Kind) -> Value {
    let any = [json!("x"), json!([]), json!({}), json!([1]), json!("")];
    let mut v: Vec<Value> = any.to_vec();
    if kind == Kind::Bool {
        v.extend([json!(0), json!(1), json!("NaN"), json!(0.5)]);
    } else if let Some((lo, hi)) = kind.int_range() {
        v.extend([json!(true), json!("NaN"), json!(0.5)]);
        if hi < i64::MAX as i128 {
            v.push(json!((hi + 1) as i64));
        }
        if lo > i64::MIN as i128 {
            v.push(json!((lo - 1) as i64));
        }
    } else {
        v.extend([json!(false), json!("nan"), json!("1.0")]);
    }
    r.pick(&v).clone()
}

fn bad_region<H: Store>(h: &H, w: &World, r: &mut Rng) -> Option<Refused> {
    let paths = w.paths(true);
    if paths.is_empty() {
        return None;
    }
    let path = r.pick(&paths).clone();
    let (m, z) = w.nodes[&path].array.clone().unwrap();
    let (offset, shape) = region(r, &m);
    let count: u64 = shape.iter().product();
    let touched = w.touched(&path, &offset, &shape);
    let some_stored = touched.iter().any(|c| w.nodes[&path].chunks.contains_key(c));
    let data = gen_data(r, m.kind, count as usize);
    let layout = *r.pick(&LAYOUTS);
    Some(match r.below(8) {
        // Wrong rank.
        0 | 1 => {
            let (mut o2, mut s2) = (offset.clone(), shape.clone());
            if r.bool() || o2.is_empty() {
                o2.push(0);
                s2.push(1);
            } else {
                o2.pop();
                s2.pop();
            }
            let (o, s) = match r.below(3) {
                0 => (offset.clone(), s2),
                1 => (o2, shape.clone()),
                _ => (o2, s2),
            };
            let n: u64 = s.iter().product();
            let d = gen_data(r, m.kind, n as usize);
            if r.bool() {
                let what = json!(["write_ndarray of a wrong rank", path, o, s, m.describe()]);
                ("wrong_rank", what, write_region(h, &path, &z, m.kind, &o, &s, &d, layout))
            } else {
                let what = json!(["read_ndarray of a wrong rank", path, o, s, m.describe()]);
                // Boxes of mixed rank can not be made.
                let s = if o.len() == s.len() { s } else { vec![1; o.len()] };
                if s.len() == m.rank() {
                    return None;
                }
                ("wrong_rank", what, read_region(h, &path, &z, m.kind, &o, &s).map(drop))
            }
        }
        // A target of another shape or rank.
        2 | 3 => {
            let mut t: Vec<u64> = shape.clone();
            if t.is_empty() || r.chance(1, 4) {
                t.push(1);
            } else if r.chance(1, 4) {
                t.pop();
            } else if t.len() > 1 && r.chance(1, 3) {
                t.reverse();
            } else {
                let i = r.usize(t.len());
                t[i] = if r.bool() { t[i] + 1 } else { t[i] - 1 };
            }
            if t == shape {
                return None;
            }
            let buffered = r.bool();
            let what = json!(["read_ndarray_into a wrong shape", path, offset, shape, t, m.describe(), buffered]);
            let sh: Vec<usize> = t.iter().map(|&x| x as usize).collect();
            let got = with_kind!(m.kind, T => {
                let mut arr = ndarray::ArrayD::<T>::from_elem(ndarray::IxDyn(&sh), T::default());
                let b = bbox(&offset, &shape);
                if buffered {
                    let mut buf = None;
                    lib(|| h.read_ndarray_into_with_buffer::<T>(&path, &z, &b, arr.view_mut(), &mut buf))
                } else {
                    lib(|| h.read_ndarray_into::<T>(&path, &z, &b, arr.view_mut()))
                }
            });
            ("wrong_target", what, got)
        }
        // A wrong element type.
        4 | 5 => {
            let kind = other_kind(r, m.kind);
            let d = gen_data(r, kind, count as usize);
            if touched.is_empty() {
                return None;
            }
            if r.bool() || !some_stored {
                let what = json!(["write_ndarray of a wrong element type", path, offset, shape, m.describe(), format!("{:?}", kind)]);
                ("wrong_type_region", what, write_region(h, &path, &z, kind, &offset, &shape, &d, layout))
            } else {
                let what = json!(["read_ndarray of a wrong element type", path, offset, shape, m.describe(), format!("{:?}", kind)]);
                ("wrong_type_read", what, read_region(h, &path, &z, kind, &offset, &shape).map(drop))
            }
        }
        // A fill value that is none.
        _ => {
            let mut bad = m.clone();
            bad.fill = Some(unusable_fill(r, m.kind));
            let bz = bad.zarr();
            if r.bool() {
                let what = json!(["write_ndarray with an unusable fill value", path, offset, shape, bad.describe()]);
                ("bad_fill", what, write_region(h, &path, &bz, m.kind, &offset, &shape, &data, layout))
            } else {
                let what = json!(["read_ndarray with an unusable fill value", path, offset, shape, bad.describe()]);
                ("bad_fill", what, read_region(h, &path, &bz, m.kind, &offset, &shape).map(drop))
            }
        }
    })
}

fn bad_node<H: Store>(h: &H, w: &World, r: &mut Rng, o: &world::Opts) -> Refused {
    let missing = |r: &mut Rng| loop {
        let p = if r.bool() { r.pick(&w.pool).clone() } else { format!("{}/none{}", r.pick(&w.pool), r.below(9)) };
        if !w.nodes.contains_key(&p) {
            return p;
        }
    };
    let nodes = w.paths(false);
    let arrays = w.paths(true);
    match r.below(5) {
        0 | 1 if !nodes.is_empty() => {
            let p = r.pick(&nodes).clone();
            let shown = gen::decorate(r, &p);
            // Also exactly the same array once more.
            let m = if r.bool() && arrays.contains(&p) { w.meta(&p).clone() } else { w.gen_meta(o, r) };
            let z = m.zarr();
            ("create_array_over", json!(["create_array over a node", shown, m.describe()]), lib(|| h.create_array(&shown, &z)))
        }
        2 if !arrays.is_empty() => {
            let p = r.pick(&arrays).clone();
            let shown = gen::decorate(r, &p);
            ("create_group_over", json!(["create_group over an array", shown]), lib(|| h.create_group(&shown)))
        }
        3 => {
            let p = missing(r);
            let attrs = if r.chance(1, 4) { Map::new() } else { world::gen_attrs(r) };
            ("attributes_of_missing", json!(["set_attributes of a missing node", p, attrs]), lib(|| h.set_attributes(&p, attrs.clone())))
        }
        _ => {
            let p = missing(r);
            if r.bool() {
                ("attributes_of_missing", json!(["list_attributes of a missing node", p]), lib(|| h.list_attributes(&p)).map(drop))
            } else {
                ("metadata_of_missing", json!(["get_array_metadata of a missing node", p]), lib(|| h.get_array_metadata(&p)).map(drop))
            }
        }
    }
}

/// A path or key that leaves the hierarchy.
fn outside<H: Store>(h: &H, w: &World, r: &mut Rng) -> Refused {
    // Nodes are stored two levels deep.
    let up = |r: &mut Rng, levels: u64| {
        let down = r.below(3);
        let mut p: Vec<String> = (0..down).map(|_| r.pick(&["a", "b", "ab"]).to_string()).collect();
        for _ in 0..(down + levels + 1 + r.below(2)) {
            p.push("..".into());
        }
        for _ in 0..r.below(3) {
            p.push(r.pick(&["h", "x", "a", "zv"]).to_string());
        }
        if r.chance(1, 4) {
            p.insert(0, String::new());
        }
        p.join("/")
    };
    let node = up(r, 2);
    let key = up(r, 0);
    let m = Meta::new(&[4], &[2], Kind::U1);
    let z = m.zarr();
    let k = r.below(16);
    let what = |op: &str, p: &str| json!([format!("{} outside of the hierarchy", op), p]);
    let (what, got) = match k {
        0 => (what("create_group", &node), lib(|| h.create_group(&node))),
        1 => (what("create_array", &node), lib(|| h.create_array(&node, &z))),
        2 => (what("remove", &node), lib(|| h.remove(&node))),
        3 => (what("set_attributes", &node), lib(|| h.set_attributes(&node, world::gen_attrs(r)))),
        4 => (what("list_attributes", &node), lib(|| h.list_attributes(&node)).map(drop)),
        5 => (what("write_chunk", &node), write_chunk(h, &node, &z, m.kind, &[r.below(2)], &[1, 2])),
        6 => (what("delete_chunk", &node), lib(|| h.delete_chunk(&node, &z, &[0])).map(drop)),
        7 => (what("read_chunk", &node), read_chunk(h, &node, &z, m.kind, &[1]).map(drop)),
        8 => (what("write_ndarray", &node), write_region(h, &node, &z, m.kind, &[1], &[2], &[1, 2], Layout::C)),
        9 => (what("list_nodes", &node), lib(|| h.list_nodes(&node)).map(drop)),
        10 => (what("set", &key), lib(|| h.set(&key, |mut w| w.write_all(b"x")))),
        11 => (what("erase", &key), lib(|| h.erase(&key)).map(drop)),
        12 => (what("erase_prefix", &key), lib(|| h.erase_prefix(&key)).map(drop)),
        13 => (
            what("get", &key),
            lib(|| {
                let mut v = vec![];
                match h.get(&key)? {
                    Some(mut x) => x.read_to_end(&mut v).map(drop),
                    None => Ok(()),
                }
            }),
        ),
        14 => (what("list_dir", &key), lib(|| h.list_dir(&key)).map(drop)),
        _ => (what("get_array_metadata", &node), lib(|| h.get_array_metadata(&node)).map(drop)),
    };
    let _ = w;
    ("outside", what, got)
}
