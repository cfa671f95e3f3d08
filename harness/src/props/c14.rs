//! C14: which files each operation changes.

use serde_json::{json, Value};
use zarr::prelude::*;

use crate::arena::{self, Arena, Backing, Store};
use crate::gen;
use crate::on_arena;
use crate::report::Report;
use crate::rng::Rng;
use crate::sys::{self, Monitor, Op};
use crate::tree;
use crate::types::*;
use crate::world::{self, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    if r.chance(1, 5) {
        on_arena!(cx, r, 7, 2, suffix, a => shadowed(&a, r, rep));
        return;
    }
    on_arena!(cx, r, 7, 2, suffix, a => history(&a, suffix, r, rep));
    if r.chance(1, 4) && !rep.case_violated {
        opening(cx, r, rep);
    }
}

/// Calls that change something in place even if the bytes are the same afterwards.
fn changing(m: &Monitor) -> Option<String> {
    m.log
        .iter()
        .find(|e| {
            e.ret >= 0
                && (matches!(e.op, Op::Write | Op::Truncate | Op::Unlink | Op::Rename | Op::Link)
                    || matches!(e.op, Op::Open | Op::Create) && e.arg & libc::O_TRUNC as i64 != 0)
        })
        .map(|e| format!("{:?} {}", e.op, e.path))
}

fn history<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let o = world::Opts { max_chunk_bytes: 128, ..Default::default() };
    let mut w = World::create(a, suffix, &o, r);
    // A chunk that can not be read, to see failing reads.
    let mut trace: Vec<Value> = vec![];
    rep.case["store"] = json!(a.backing.name());
    rep.case["suffix"] = json!(suffix);
    let on_disk = matches!(a.backing, Backing::Dir(_));
    let mut before = a.files();
    for _ in 0..r.range(4, 16) {
        let act = match r.below(8) {
            0..=3 => w.gen_read(r),
            4..=6 => w.gen_write(r, &o),
            _ => w.gen_store_write(r),
        };
        trace.push(act.show());
        rep.case["history"] = json!(trace);
        let h = a.any(r);
        let (got, m) = sys::monitored(Monitor { logging: on_disk, detect_self_deadlock: true, ..Default::default() }, || world::perform(h, &w, &act));
        rep.evaluations += 1;
        rep.add("calls_observed", m.calls);
        let after = a.files();
        let diff = tree::diff(&before, &after);
        rep.count(if act.is_read() { "reads" } else { "writes" });
        rep.seen("operations", crate::rng::hash_bytes(act.name().as_bytes()));
        if act.is_read() || w.refused(&act) {
            if !diff.is_empty() {
                return rep.violation(format!("{} changed {:?}", act.show(), diff));
            }
            let directories = m.log.iter().find(|e| e.ret >= 0 && matches!(e.op, Op::Mkdir | Op::Rmdir)).map(|e| format!("{:?} {}", e.op, e.path));
            if let Some(c) = changing(&m).or(directories).filter(|_| act.is_read()) {
                return rep.violation(format!("{} made a changing call: {}", act.show(), c));
            }
        }
        if let Some(k) = diff.iter().find(|k| !w.may_change(&act, &k[1..])) {
            return rep.violation(format!("{} also changed {}", act.show(), k));
        }
        rep.add("changed_keys", diff.len() as u64);
        match &got {
            Out::Ok(g) if !w.refused(&act) => {
                if let Err(e) = w.judge(&act, g) {
                    return rep.violation(format!("{}: {}", act.show(), e));
                }
            }
            Out::Err(..) if w.refused(&act) => (),
            o => return rep.violation(format!("{}: {:?}", act.show(), o)),
        }
        w.apply(&act);
        // What is there is what should be.
        let mut have: std::collections::BTreeSet<String> = after.keys().cloned().collect();
        have.remove("zarr.json");
        if have != w.keys() {
            let d: Vec<_> = have.symmetric_difference(&w.keys()).cloned().collect();
            return rep.violation(format!("after {} these keys should or should not be there: {:?}", act.show(), d));
        }
        before = after;
    }
    failing_reads(a, &mut w, r, rep);
    rep.distinct(format!("{}{}{:?}", a.backing.name(), suffix, trace));
    rep.sample(json!({"store": a.backing.name(), "history": trace}));
}

/// Reads of chunks that can not be read change nothing either.
fn failing_reads<H: Store>(a: &Arena<H>, w: &mut World, r: &mut Rng, rep: &mut Report) {
    for p in w.paths(true) {
        let stored: Vec<Vec<u64>> = w.nodes[&p].chunks.keys().cloned().collect();
        if stored.is_empty() {
            continue;
        }
        let pos = r.pick(&stored).clone();
        let key = w.chunk_key(&p, &pos);
        let n = r.usize(6);
        a.backing.put(&key, &r.bytes(n));
        let before = a.files();
        let (m, z) = w.nodes[&p].array.clone().unwrap();
        let h = a.any(r);
        let _ = read_chunk(h, &p, &z, m.kind, &pos);
        let _ = read_chunk_into(h, &p, &z, m.kind, &pos, &[], &pos);
        let _ = read_region(h, &p, &z, m.kind, &vec![0; m.rank()], &m.shape);
        let other = *r.pick(&KINDS);
        let _ = read_chunk(h, &p, &z, other, &pos);
        rep.evaluations += 1;
        rep.count("failing_reads");
        let d = tree::diff(&before, &a.files());
        if !d.is_empty() {
            return rep.violation(format!("a failing read of chunk {:?} of {:?} changed {:?}", pos, p, d));
        }
    }
}

/// Chunk positions of an array whose keys are also the prefix of another node.
fn shadowed<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report) {
    let h = a.any(r);
    let mut m = gen::meta(r, &gen::Opts { max_rank: 3, max_chunk_bytes: 64, codecs: false, ..Default::default() });
    if m.rank() == 0 {
        m = Meta::new(&[5], &[2], m.kind);
    }
    m.sep = r.pick(&["/", "."]).to_string();
    let parent = gen::path(r, 2);
    let z = gen::create_array(h, &parent, &m);
    // Nodes named like a chunk, or like the directory of some.
    let pos = m.positions_some(r, 1).remove(0);
    let name = format!("c{}", pos.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(&m.sep));
    let child = format!("{}/{}{}", parent, name, if r.bool() { "" } else { "/x" });
    let cm = gen::meta(r, &gen::Opts { max_rank: 1, max_chunk_bytes: 64, codecs: false, ..Default::default() });
    let cz = gen::create_array(h, &child, &cm);
    let cpos = cm.positions_some(r, 1).remove(0);
    gen::must("writing a chunk", write_chunk(h, &child, &cz, cm.kind, &cpos, &gen_data(r, cm.kind, cm.chunk_elems())));
    rep.case["shadowed"] = json!({"array": m.describe(), "parent": parent, "child": child, "position": pos});
    let own = format!("data/root/{}/{}", parent, name);
    rep.distinct(format!("{} {} {:?} {}", a.backing.name(), child, pos, m.describe()));
    for _ in 0..r.range(1, 6) {
        let before = a.files();
        let (what, reads) = match r.below(5) {
            0 => (format!("reading: {}", read_chunk(h, &parent, &z, m.kind, &pos).class()), true),
            1 => {
                let (off, shape) = (vec![0; m.rank()], m.shape.clone());
                (format!("reading a region: {}", read_region(h, &parent, &z, m.kind, &off, &shape).class()), true)
            }
            2 => {
                let d = gen_data(r, m.kind, m.chunk_elems());
                (format!("writing: {}", write_chunk(h, &parent, &z, m.kind, &pos, &d).class()), false)
            }
            _ => (format!("deleting: {}", lib(|| h.delete_chunk(&parent, &z, &pos)).class()), false),
        };
        rep.evaluations += 1;
        rep.count("operations_on_a_chunk_whose_key_is_a_prefix");
        let d = tree::diff(&before, &a.files());
        if d.iter().any(|k| reads || k[1..] != own) {
            return rep.violation(format!("chunk {:?} of {:?} with {:?} below: {} changed {:?}", pos, parent, child, what, d));
        }
    }
}

/// Opening a hierarchy leaves its files alone, whoever wrote them.
fn opening(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("open");
    std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
    let mut e = serde_json::to_value(crate::mem::entry_point(r.pick(&arena::SUFFIXES))).unwrap();
    if r.bool() {
        e["unknown"] = json!([1, 2]);
    }
    let ext = json!({"extension": "http://e.org/x", "must_understand": r.chance(1, 4), "configuration": {"a": 1}});
    if r.bool() {
        e["extensions"] = json!([ext]);
    }
    let mut b = if r.bool() { serde_json::to_vec_pretty(&e).unwrap() } else { e.to_string().into_bytes() };
    match r.below(6) {
        0 => b.extend_from_slice(b"\n\n"),
        1 => b.truncate(b.len() / 2),
        2 => b.clear(),
        _ => (),
    }
    std::fs::write(base.join("zarr.json"), &b).expect("HARNESS: write");
    if r.bool() {
        std::fs::write(base.join("notes"), b"x").expect("HARNESS: write");
    }
    let before = tree::files(&base);
    for create in [false, true, false] {
        let (o, m) = sys::monitored(Monitor { logging: true, ..Default::default() }, || {
            lib(|| if create { FilesystemHierarchy::open_or_create(&base) } else { FilesystemHierarchy::open(&base) }).map(drop)
        });
        rep.evaluations += 1;
        rep.count(if o.is_ok() { "opened" } else { "refused_to_open" });
        let d = tree::diff(&before, &tree::files(&base));
        let what = format!("opening{} ({})", if create { " or creating" } else { "" }, o.class());
        if !d.is_empty() {
            return rep.violation(format!("{} changed {:?}", what, d));
        }
        if let Some(c) = changing(&m) {
            return rep.violation(format!("{} made a changing call: {}", what, c));
        }
    }
    // A directory that is no hierarchy stays as it is when it is only opened.
    let empty = cx.sub("empty");
    std::fs::create_dir_all(&empty).expect("HARNESS: mkdir");
    let o = lib(|| FilesystemHierarchy::open(&empty)).map(drop);
    if o.is_ok() || !tree::all(&empty).is_empty() {
        rep.violation(format!("opening a directory that is no hierarchy: {:?}, left {:?}", o, tree::all(&empty).keys()));
    }
    let _ = gen::create(&empty);
}
