//! C21: readers and writers exclude each other, without deadlock.

use serde_json::json;
use std::io::{Read, Write};
use std::sync::Mutex;
use zarr::prelude::*;
use zarr::storage::{ReadableStore, WriteableStore};

use crate::arena::{self, Arena, Backing};
use crate::gen;
use crate::report::Report;
use crate::rng::Rng;
use crate::sched::{self, State};
use crate::sys::{self, Monitor};
use crate::types::*;
use crate::world::{self, Act, Res, World};
use crate::Cx;

type Dir = Arena<FilesystemHierarchy>;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    let base = cx.sub("h");
    let a = arena::directory_with_suffix(&base, 3, suffix);
    let o = world::Opts { max_chunk_bytes: *r.pick(&[100, 100, 30_000]), arrays: 2, ..Default::default() };
    let w = World::create(&a, suffix, &o, r);
    rep.case["suffix"] = json!(suffix);
    match r.below(8) {
        0 | 1 => leaks(&a, &w, &o, r, rep),
        2 => crowd(cx, &a, &w, &o, r, rep),
        _ => {
            let before = a.backing.snapshot();
            for _ in 0..4 {
                held(&a, &w, &o, r, rep);
                if rep.case_violated {
                    return;
                }
                a.backing.restore(&before);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Relation {
    Unrelated,
    Reads,
    Writes,
    /// May or may not access the key.
    Either,
}

/// How an operation relates to the value of an existing key.
fn relation(w: &World, act: &Act, key: &str) -> Relation {
    use Relation::*;
    let doc = |path: &String| w.nodes.get(path).map_or(false, |n| w.doc_key(path, n.array.is_some()) == key);
    let docs = |path: &String| w.doc_key(path, true) == key || w.doc_key(path, false) == key;
    let yes = |b: bool, x: Relation| if b { x } else { Unrelated };
    match act {
        Act::ReadChunk { path, pos } | Act::ReadChunkInto { path, pos, .. } => yes(w.chunk_key(path, pos) == key, Reads),
        Act::ReadRegion { path, offset, shape } => yes(w.touched(path, offset, shape).iter().any(|c| w.chunk_key(path, c) == key), Reads),
        Act::ArrayMeta { path } if w.refused(act) => yes(docs(path), Either),
        Act::ArrayMeta { path } | Act::ListAttributes { path } => yes(docs(path), if doc(path) { Reads } else { Either }),
        Act::ArrayExists { path } => yes(docs(path), Either),
        Act::Exists { path } => yes(docs(path), Either),
        Act::StoreGet { key: k } => yes(k == key, Reads),
        Act::StoreExists { key: k } => yes(k == key, Either),
        Act::ListNodes { .. } | Act::StoreListDir { .. } | Act::StoreListPrefix { .. } => Either,
        Act::SetAttributes { path, .. } => {
            let mut next = w.clone();
            if !w.refused(act) {
                next.apply(act);
            }
            let changes = !w.refused(act) && next.nodes[path].attrs != w.nodes[path].attrs;
            yes(docs(path), if changes { Writes } else { Either })
        }
        Act::CreateGroup { path } | Act::CreateArray { path, .. } => yes(docs(path), Either),
        _ => yes(w.may_change(act, key), Writes),
    }
}

/// An operation on a key, or any operation.
fn gen_act(w: &World, o: &world::Opts, key: &str, related: bool, r: &mut Rng) -> Act {
    if related && r.chance(1, 3) {
        return match r.below(4) {
            0 | 1 => Act::StoreGet { key: key.into() },
            2 => Act::StoreErase { key: key.into() },
            _ => {
                let n = r.usize(300);
                Act::StoreSet { key: key.into(), value: r.bytes(n) }
            }
        };
    }
    let mut act = w.gen_read(r);
    for _ in 0..200 {
        act = match r.below(5) {
            0 | 1 => w.gen_read(r),
            2 | 3 => w.gen_write(r, o),
            _ => w.gen_store_write(r),
        };
        if related == matches!(relation(w, &act, key), Relation::Reads | Relation::Writes) {
            break;
        }
    }
    act
}

#[derive(Clone, Debug)]
enum Hold {
    /// A reader, after this many bytes.
    Reader(usize),
    /// A writer, after this many bytes of a new value, and flushed or not.
    Writer(usize, bool),
}

/// One thread keeps a reader or writer while others operate.
fn held(a: &Dir, w: &World, o: &world::Opts, r: &mut Rng, rep: &mut Report) {
    let base = match &a.backing {
        Backing::Dir(d) => d.clone(),
        _ => unreachable!(),
    };
    let before = a.backing.snapshot();
    let mut keys: Vec<String> = w.keys().into_iter().collect();
    if keys.is_empty() {
        return;
    }
    let key;
    let mut next = w.clone();
    let hold;
    let mut value = vec![];
    if r.bool() {
        key = r.pick(&keys).clone();
        let n = before[&key].len();
        hold = Hold::Reader(match r.below(3) {
            0 => 0,
            1 => n,
            _ => r.usize(n + 1),
        });
    } else {
        // The new value is what an operation would write.
        let mut act = None;
        for _ in 0..50 {
            let c = if r.chance(1, 6) { w.gen_store_write(r) } else { w.gen_write(r, o) };
            let fine = match &c {
                Act::WriteChunk { .. } | Act::StoreSet { .. } => true,
                Act::SetAttributes { .. } => !w.refused(&c),
                _ => false,
            };
            if fine {
                act = Some(c);
                break;
            }
        }
        let act = match act {
            Some(x) => x,
            None => return,
        };
        key = match &act {
            Act::WriteChunk { path, pos, .. } => w.chunk_key(path, pos),
            Act::StoreSet { key, .. } => key.clone(),
            Act::SetAttributes { path, .. } => w.doc_key(path, w.nodes[path].array.is_some()),
            _ => unreachable!(),
        };
        next.must(&a.handles[0], &act);
        value = a.files()[&key].clone();
        a.backing.restore(&before);
        let n = match r.below(3) {
            0 => 0,
            1 => value.len(),
            _ => r.usize(value.len() + 1),
        };
        hold = Hold::Writer(n, r.bool());
    }
    let writer = matches!(hold, Hold::Writer(..));
    keys.retain(|k| *k != key);
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let acts: Vec<Act> = (0..n)
        .map(|_| {
            let related = r.chance(2, 3);
            gen_act(w, o, &key, related, r)
        })
        .collect();
    rep.case["held"] = json!([key, format!("{:?}", hold), value.len()]);
    rep.case["others"] = json!(acts.iter().map(|a| a.show()).collect::<Vec<_>>());
    let seed = r.u64();
    rep.case["schedule"] = json!(seed);
    let mut result = Ok(());
    for _ in 0..3 {
        let (res, external) = hold_once(a, w, &next, &base, &key, &hold, &value, &acts, seed, rep);
        result = res;
        // Threads that were slow may have been taken for blocked ones.
        if result.is_ok() || external == 0 {
            break;
        }
        a.backing.restore(&before);
    }
    if let Err(e) = result {
        return rep.violation(e);
    }
    rep.seen(
        "pairs",
        crate::rng::hash_bytes(format!("{}{:?}", writer, acts.iter().map(|a| (a.name(), format!("{:?}", relation(w, a, &key)))).collect::<Vec<_>>()).as_bytes()),
    );
    rep.distinct(format!("{}{:?}{:?}{}", key, hold, rep.case["others"], seed));
    rep.sample(json!({"held": rep.case["held"], "others": rep.case["others"]}));
}

#[derive(Default)]
struct Watch {
    /// States of the threads when nobody but the holder could go on.
    states: Option<Vec<State>>,
    /// Results of the others, in the order of their completion.
    done: Vec<(usize, Out<Res>)>,
    /// Which of them completed while the key was held.
    early: Vec<usize>,
    held: Option<Result<Vec<u8>, String>>,
}

#[allow(clippy::too_many_arguments)]
fn hold_once(a: &Dir, w: &World, next: &World, base: &std::path::Path, key: &str, hold: &Hold, value: &[u8], acts: &[Act], seed: u64, rep: &mut Report) -> (Result<(), String>, u64) {
    let old = a.files().get(key).cloned();
    let watch = Mutex::new(Watch::default());
    let holder = || {
        let h = &a.handles[0];
        let wait = || {
            sched::open_gate();
            let s = sched::hold();
            let mut g = watch.lock().unwrap();
            g.early = g.done.iter().map(|d| d.0).collect();
            g.states = Some(s);
        };
        let got = match hold {
            Hold::Reader(n) => lib(|| {
                let mut reader = h.get(key)?.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::NotFound, "nothing to read"))?;
                let mut v = vec![0; *n];
                reader.read_exact(&mut v)?;
                wait();
                reader.read_to_end(&mut v)?;
                Ok(v)
            }),
            Hold::Writer(n, flush) => lib(|| {
                h.set(key, |mut writer| {
                    writer.write_all(&value[..*n])?;
                    if *flush {
                        writer.flush()?;
                    }
                    wait();
                    writer.write_all(&value[*n..])?;
                    writer.flush()
                })?;
                Ok(vec![])
            }),
        };
        watch.lock().unwrap().held = Some(match got {
            Out::Ok(v) => Ok(v),
            o => Err(format!("{:?}", o)),
        });
        sched::open_gate();
    };
    let other = |t: usize, act: &Act| {
        sched::pass_gate();
        let o = world::perform(&a.handles[t % a.handles.len()], w, act);
        watch.lock().unwrap().done.push((t, o));
    };
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(holder)];
    for (i, act) in acts.iter().enumerate() {
        let other = &other;
        bodies.push(Box::new(move || other(i + 1, act)));
    }
    let (o, m) = sched::run(seed, Monitor::default(), bodies);
    rep.evaluations += 1;
    rep.count("holds");
    rep.add("externally_blocked", o.external);
    rep.seen("interleavings", crate::rng::hash_bytes(format!("{:?}{:?}", acts.iter().map(|a| a.name()).collect::<Vec<_>>(), o.trace).as_bytes()));
    let g = watch.into_inner().unwrap();
    (judge(a, w, next, base, key, hold, value, acts, &old, g, &o, &m, rep), o.external)
}

#[allow(clippy::too_many_arguments)]
fn judge(a: &Dir, w: &World, next: &World, base: &std::path::Path, key: &str, hold: &Hold, value: &[u8], acts: &[Act], old: &Option<Vec<u8>>, g: Watch, o: &sched::Outcome, m: &Monitor, rep: &mut Report) -> Result<(), String> {
    let writer = matches!(hold, Hold::Writer(..));
    let what = format!("while {} is being {}", key, if writer { "written" } else { "read" });
    if o.deadlock || o.hang {
        return Err(format!("{}: a deadlock; waiting for {:?}", what, o.blocked));
    }
    if let Some(k) = m.locks.iter().next() {
        return Err(format!("{}: a file lock is held after all operations returned (descriptor {}, exclusive {})", what, k.0, k.1));
    }
    match &g.held {
        Some(Ok(v)) if !writer && Some(v) != old.as_ref() => return Err(format!("{}: the reader got {} bytes other than those that were there", what, v.len())),
        Some(Ok(_)) => (),
        e => return Err(format!("{}: holding it failed: {:?}", what, e)),
    }
    if g.states.is_none() || g.done.len() != acts.len() {
        return Err(format!("{}: {} of {} operations completed", what, g.done.len(), acts.len()));
    }
    for (i, act) in acts.iter().enumerate() {
        let rel = relation(w, act, key);
        let early = g.early.contains(&(i + 1));
        let out = &g.done.iter().find(|d| d.0 == i + 1).unwrap().1;
        if let Out::Panic(e) = out {
            return Err(format!("{}: {} panicked: {}", what, act.show(), e));
        }
        let excluded = rel == Relation::Writes || rel == Relation::Reads && writer;
        if excluded && early {
            if out.is_ok() {
                return Err(format!("{}: {} completes", what, act.show()));
            }
            // Removals fail when others store something meanwhile.
            let removal = matches!(act, Act::Remove { .. } | Act::StoreErasePrefix { .. });
            if !(removal && acts.len() > 1) {
                return Err(format!("{}: {} fails instead of waiting: {:?}", what, act.show(), out));
            }
        }
        if !excluded && rel != Relation::Either && !early {
            return Err(format!("{}: {} has to wait ({:?})", what, act.show(), g.states));
        }
        rep.count(match (excluded, rel) {
            (true, _) => "excluded",
            (_, Relation::Reads) => "shared",
            (_, Relation::Unrelated) => "unrelated",
            _ => "either",
        });
        rep.seen("operations", crate::rng::hash_bytes(format!("{}{}{:?}", writer, act.name(), rel).as_bytes()));
    }
    if acts.len() > 1 {
        // All keys are free again.
        let h = gen::open(base);
        for k in w.keys() {
            let _ = lib(|| h.get(&k).map(drop));
        }
        return Ok(());
    }
    // Afterwards all is as after the one and then the other.
    let act = &acts[0];
    let out = &g.done[0].1;
    let raw = matches!(act, Act::StoreSet { .. } | Act::StoreErase { .. }) && !w.extra.contains_key(key) && relation(w, act, key) == Relation::Writes;
    let h = gen::open(base);
    if raw {
        let want = if let Act::StoreSet { value, .. } = act { Some(value.clone()) } else { None };
        let got = stored(&h, key);
        if got != Out::Ok(want) {
            return Err(format!("{}: afterwards {} of {} gives another value: {:?}", what, act.show(), key, got));
        }
        if !out.is_ok() {
            return Err(format!("{}: {} gives {:?}", what, act.show(), out));
        }
        return Ok(());
    }
    let state = if writer { next } else { w };
    if relation(w, act, key) == Relation::Either {
        return Ok(());
    }
    if let Act::StoreGet { .. } = act {
        let got = match out {
            Out::Ok(Res::Bytes(b)) => b.clone(),
            o => return Err(format!("{}: {} gives {:?}", what, act.show(), o)),
        };
        let k = if let Act::StoreGet { key } = act { key } else { unreachable!() };
        let want = if k == key && writer { Some(value.to_vec()) } else { a.files().get(k).cloned() };
        if got != want {
            return Err(format!("{}: {} gives other bytes", what, act.show()));
        }
        return Ok(());
    }
    let refused = state.refused(act);
    let mut last = state.clone();
    match out {
        Out::Ok(x) if !refused => {
            last.judge(act, x).map_err(|e| format!("{}: {} gives {}", what, act.show(), e))?;
            last.apply(act);
        }
        Out::Err(..) if refused => (),
        o => return Err(format!("{}: {} gives {:?}", what, act.show(), o)),
    }
    rep.count("results_checked");
    last.verify(&h, &|_| false).map_err(|e| format!("{}, with {}: afterwards {}", what, act.show(), e))?;
    Ok(())
}

fn stored(h: &FilesystemHierarchy, key: &str) -> Out<Option<Vec<u8>>> {
    lib(|| {
        h.get(key)?
            .map(|mut r| {
                let mut v = vec![];
                r.read_to_end(&mut v).map(|_| v)
            })
            .transpose()
    })
}

/// No operation keeps a lock after it returned.
fn leaks(a: &Dir, w: &World, o: &world::Opts, r: &mut Rng, rep: &mut Report) {
    let before = a.backing.snapshot();
    let keys: Vec<String> = w.keys().into_iter().collect();
    let mut shown = vec![];
    for _ in 0..10 {
        a.backing.restore(&before);
        let act = match r.below(6) {
            0 | 1 => w.gen_read(r),
            2 | 3 => w.gen_write(r, o),
            _ => w.gen_store_write(r),
        };
        let mut what = act.show().to_string();
        let how = r.below(6);
        // Corrupt values, failing and panicking writers.
        if how == 0 && !keys.is_empty() {
            let k = r.pick(&keys).clone();
            let n = r.usize(20);
            let b = r.bytes(n);
            a.backing.put(&k, &b);
            what = format!("{} with garbage at {}", what, k);
        }
        let h = &a.handles[0];
        let k = if keys.is_empty() { "s/k1".to_string() } else { r.pick(&keys).clone() };
        let n = r.usize(10_000);
        let mon = Monitor { detect_self_deadlock: true, ..Default::default() };
        let (out, m) = match how {
            1 => {
                what = format!("a failing writer of {}", k);
                sys::monitored(mon, || {
                    lib(|| {
                        h.set(&k, |mut w| {
                            w.write_all(&vec![1; n])?;
                            Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
                        })
                    })
                    .class()
                })
            }
            2 => {
                what = format!("a panicking writer of {}", k);
                sys::monitored(mon, || {
                    lib(|| {
                        h.set(&k, |mut w| {
                            w.write_all(&vec![1; n])?;
                            panic!("in the writer")
                        })
                    });
                    "panicked as told".to_string()
                })
            }
            3 => {
                what = format!("a reader of {} dropped early", k);
                sys::monitored(mon, || {
                    lib(|| {
                        h.get(&k)?.map(|mut r| {
                            let mut b = [0; 3];
                            r.read(&mut b).map(drop)
                        });
                        Ok(())
                    })
                    .class()
                })
            }
            _ => sys::monitored(mon, || world::perform(h, w, &act).map(drop).class()),
        };
        rep.evaluations += 1;
        rep.count("leak_checks");
        rep.count(if out == "ok" { "operations_succeeded" } else { "operations_failed" });
        rep.case["operation"] = json!(what);
        shown.push(what.clone());
        if out.starts_with("PANIC") && how != 0 {
            return rep.violation(format!("{}: {}", what, out));
        }
        if let Some(p) = m.self_deadlocks.first() {
            return rep.violation(format!("{} waits for its own lock of {}", what, p));
        }
        if !m.locks.is_empty() {
            return rep.violation(format!("{} ({}) keeps a file locked after it returned", what, out));
        }
        // Everything can be read and written by others; waiting would be noticed.
        let other = &a.handles[1];
        for k in keys.iter().chain([&k]) {
            let _ = lib(|| other.get(k).map(drop));
            if r.chance(1, 3) {
                let o = lib(|| other.set(k, |mut w| w.write_all(b"x")));
                if !o.is_ok() {
                    return rep.violation(format!("after {} ({}), storing {} gives {:?}", what, out, k, o));
                }
            }
        }
    }
    rep.distinct(format!("{:?}", shown));
}

/// Any operations at the same time come to an end.
fn crowd(cx: &Cx, a: &Dir, w: &World, o: &world::Opts, r: &mut Rng, rep: &mut Report) {
    let before = a.backing.snapshot();
    let n = r.range(2, 5);
    let threads: Vec<Vec<Act>> = (0..n)
        .map(|_| {
            (0..r.range(1, 3))
                .map(|_| match r.below(8) {
                    0 | 1 => w.gen_read(r),
                    2 => w.gen_store_write(r),
                    3 => Act::Remove { path: w.random_path(r, true) },
                    _ => w.gen_write(r, o),
                })
                .collect()
        })
        .collect();
    rep.case["threads"] = json!(threads.iter().map(|t| t.iter().map(|a| a.show()).collect::<Vec<_>>()).collect::<Vec<_>>());
    for _ in 0..if cx.thorough { 12 } else { 4 } {
        a.backing.restore(&before);
        let seed = r.u64();
        rep.case["schedule"] = json!(seed);
        let panics = Mutex::new(vec![]);
        let body = |t: usize| {
            for act in &threads[t] {
                if let Out::Panic(e) = world::perform(&a.handles[t % a.handles.len()], w, act) {
                    panics.lock().unwrap().push(format!("{}: {}", act.show(), e));
                }
            }
        };
        let body = &body;
        let bodies = (0..threads.len()).map(|t| Box::new(move || body(t)) as Box<dyn FnOnce() + Send>).collect();
        let (out, m) = sched::run(seed, Monitor::default(), bodies);
        rep.evaluations += 1;
        rep.count("crowds");
        rep.add("lock_waits", out.waits);
        rep.seen("interleavings", crate::rng::hash_bytes(format!("{:?}", out.trace).as_bytes()));
        if out.deadlock || out.hang {
            return rep.violation(format!("concurrent operations deadlock, waiting for {:?}", out.blocked));
        }
        if !m.locks.is_empty() {
            return rep.violation("a file lock is held after all operations returned");
        }
        if let Some(p) = panics.into_inner().unwrap().first() {
            return rep.violation(format!("with others at the same time, {}", p));
        }
    }
    rep.distinct(format!("{:?}", rep.case["threads"]));
}
