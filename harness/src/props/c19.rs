//! C19: concurrent operations on one key are linearizable.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use zarr::prelude::*;

use crate::arena::{Arena, Backing};
use crate::gen;
use crate::report::Report;
use crate::rng::Rng;
use crate::sched;
use crate::sys::{Ev, Monitor, Op};
use crate::tree::Tree;
use crate::types::*;
use crate::Cx;

#[derive(Clone, Debug)]
enum Act {
    Write(usize, u64),
    Delete(usize),
    Read(usize),
    ReadInto(usize),
    SetAttributes(usize, Map<String, Value>),
    ListAttributes(usize),
    /// Metadata of the array.
    Metadata,
}

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Done,
    Gone(bool),
    Chunk(Option<Vec<u8>>),
    Attributes(Map<String, Value>),
    Failed(String),
}

#[derive(Clone, Debug)]
struct Rec {
    thread: usize,
    act: Act,
    call: u64,
    ret: u64,
    got: Got,
    /// Where the operation's system calls are in the log.
    log: (usize, usize),
}

struct Scene {
    m: Meta,
    z: ArrayMetadata,
    positions: Vec<Vec<u64>>,
    paths: [&'static str; 2],
    /// Tags of the chunks stored at first.
    initial: Vec<Option<u64>>,
    attributes: [Map<String, Value>; 2],
    threads: Vec<Vec<Act>>,
}

impl Scene {
    fn data(&self, tag: u64) -> Vec<u8> {
        let n = self.m.chunk_elems();
        let sz = self.m.kind.size();
        if tag % 3 == 0 {
            // Compresses well.
            let e = tagged_data(self.m.kind, 8usize.div_ceil(sz), tag);
            e.iter().cycle().take(n * sz).cloned().collect()
        } else {
            tagged_data(self.m.kind, n, tag)
        }
    }
}

fn attrs(r: &mut Rng, tag: u64) -> Map<String, Value> {
    let mut m = Map::new();
    for _ in 0..r.range(1, 2) {
        m.insert(format!("k{}", r.below(3)), json!(tag));
    }
    if r.chance(1, 6) {
        m.insert("long".into(), json!(format!("{} {}", tag, "y".repeat(r.usize(9000)))));
    }
    if r.chance(1, 3) {
        m.insert(format!("u{}", tag), json!({"t": tag}));
    }
    m
}

fn scene(r: &mut Rng) -> Scene {
    let kind = *r.pick(&[Kind::U1, Kind::I2, Kind::U4, Kind::F8, Kind::U8]);
    let n = *r.pick(&[8, 8, 60, 700, 5000]);
    let mut m = Meta::new(&[n as u64 * 2], &[n], kind);
    m.sep = r.pick(&["/", "."]).to_string();
    m.big = r.bool();
    let names = codec_names();
    let codec = if r.bool() { "raw" } else { *r.pick(&names) };
    m.codec = gen_codec(r, codec, false);
    m.attrs = attrs(r, 1);
    let mut tag = 10;
    let mut new = || {
        tag += 1;
        tag
    };
    let initial = (0..2).map(|_| if r.bool() { Some(new()) } else { None }).collect();
    let group = attrs(r, 2);
    let k = r.range(2, 4) as usize;
    // What the case is about: chunks, attributes or everything.
    let theme = r.below(8);
    let threads = (0..k)
        .map(|_| {
            let most = if k == 2 { 4 } else { 3 };
            (0..r.range(1, most))
                .map(|_| {
                    let c = if r.chance(4, 5) { 0 } else { 1 };
                    let about = if theme < 4 { 0 } else if theme < 7 { 1 } else { r.below(2) };
                    if about == 0 {
                        match r.below(6) {
                            0 | 1 => Act::Write(c, new()),
                            2 => Act::Delete(c),
                            3 => Act::ReadInto(c),
                            _ => Act::Read(c),
                        }
                    } else {
                        match r.below(5) {
                            0 | 1 => Act::SetAttributes(c, attrs(r, new())),
                            2 if c == 0 => Act::Metadata,
                            _ => Act::ListAttributes(c),
                        }
                    }
                })
                .collect()
        })
        .collect();
    let z = m.zarr();
    Scene { attributes: [m.attrs.clone(), group], m, z, positions: vec![vec![0], vec![1]], paths: ["a", "g/h"], initial, threads }
}

fn perform(s: &Scene, h: &FilesystemHierarchy, act: &Act) -> Got {
    let fail = |o: String| Got::Failed(o);
    let path = s.paths[0];
    match act {
        Act::Write(c, tag) => match write_chunk(h, path, &s.z, s.m.kind, &s.positions[*c], &s.data(*tag)) {
            Out::Ok(()) => Got::Done,
            o => fail(format!("{:?}", o)),
        },
        Act::Delete(c) => match lib(|| h.delete_chunk(path, &s.z, &s.positions[*c])) {
            Out::Ok(b) => Got::Gone(b),
            o => fail(format!("{:?}", o)),
        },
        Act::Read(c) => match read_chunk(h, path, &s.z, s.m.kind, &s.positions[*c]) {
            Out::Ok(d) => Got::Chunk(d),
            o => fail(format!("{:?}", o)),
        },
        Act::ReadInto(c) => match read_chunk_into(h, path, &s.z, s.m.kind, &s.positions[*c], &[], &[0]) {
            (Out::Ok(Some(())), d, _) => Got::Chunk(Some(d)),
            (Out::Ok(None), ..) => Got::Chunk(None),
            (o, ..) => fail(format!("{:?}", o)),
        },
        Act::SetAttributes(n, a) => match lib(|| h.set_attributes(s.paths[*n], a.clone())) {
            Out::Ok(()) => Got::Done,
            o => fail(format!("{:?}", o)),
        },
        Act::ListAttributes(n) => match lib(|| h.list_attributes(s.paths[*n])) {
            Out::Ok(a) => Got::Attributes(a),
            o => fail(format!("{:?}", o)),
        },
        Act::Metadata => match lib(|| h.get_array_metadata(path)) {
            Out::Ok(z) => {
                let v = serde_json::to_value(&z).expect("HARNESS: metadata");
                let mut want = serde_json::to_value(&s.z).expect("HARNESS: metadata");
                want["attributes"] = v["attributes"].clone();
                if v != want {
                    return fail(format!("other metadata: {}", v));
                }
                Got::Attributes(v["attributes"].as_object().cloned().unwrap_or_default())
            }
            o => fail(format!("{:?}", o)),
        },
    }
}

/// Chunks are keys 0 and 1, attributes of nodes 2 and 3.
fn key(a: &Act) -> usize {
    match a {
        Act::Write(c, _) | Act::Delete(c) | Act::Read(c) | Act::ReadInto(c) => *c,
        Act::SetAttributes(n, _) | Act::ListAttributes(n) => 2 + n,
        Act::Metadata => 2,
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("h");
    let s = scene(r);
    let show: Vec<Vec<String>> = s.threads.iter().map(|t| t.iter().map(|a| format!("{:?}", a).chars().take(60).collect()).collect()).collect();
    rep.case["threads"] = json!(show);
    rep.case["array"] = s.m.describe();
    let h = gen::create(&base);
    gen::must("create", lib(|| h.create_array(s.paths[0], &s.z)));
    gen::must("create", lib(|| h.create_group(s.paths[1])));
    gen::must("attributes", lib(|| h.set_attributes(s.paths[1], s.attributes[1].clone())));
    let mut values: HashMap<Vec<u8>, u64> = HashMap::new();
    for (c, tag) in s.initial.iter().enumerate() {
        if let Some(tag) = tag {
            gen::must("write", write_chunk(&h, s.paths[0], &s.z, s.m.kind, &s.positions[c], &s.data(*tag)));
            values.insert(s.data(*tag), *tag);
        }
    }
    for a in s.threads.iter().flatten() {
        if let Act::Write(_, tag) = a {
            assert!(values.insert(s.data(*tag), *tag).is_none(), "HARNESS: values are not distinct");
        }
    }
    let arena = Arena { handles: vec![h], backing: Backing::Dir(base.clone()) };
    let before = arena.backing.snapshot();
    let shared = r.bool();
    for round in 0..if cx.thorough { 20 } else { 8 } {
        arena.backing.restore(&before);
        let seed = r.u64();
        let free = round == 0 && r.chance(1, 4);
        rep.case["schedule"] = if free { json!("none") } else { json!(seed) };
        if let Err(e) = execute(&arena, &s, &values, seed, shared, free, &before, rep) {
            return rep.violation(e);
        }
    }
    rep.distinct(format!("{:?}", show));
    rep.sample(json!({"threads": show, "array": s.m.describe()}));
}

#[allow(clippy::too_many_arguments)]
fn execute(arena: &Arena<FilesystemHierarchy>, s: &Scene, values: &HashMap<Vec<u8>, u64>, seed: u64, shared: bool, free: bool, before: &Tree, rep: &mut Report) -> Result<(), String> {
    let base = match &arena.backing {
        Backing::Dir(d) => d.clone(),
        _ => unreachable!(),
    };
    let handles: Vec<FilesystemHierarchy> = s.threads.iter().map(|_| if shared { arena.handles[0].clone() } else { gen::open(&base) }).collect();
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let clock = AtomicU64::new(1);
    let now = || if free { clock.fetch_add(1, Ordering::SeqCst) } else { sched::tick() };
    let body = |t: usize| {
        let h = if shared { &arena.handles[0] } else { &handles[t] };
        for act in &s.threads[t] {
            let len = || crate::sys::with_monitor(|m| m.log.len()).unwrap_or(0);
            let call = now();
            let from = len();
            let got = perform(s, h, act);
            let log = (from, len());
            let ret = now();
            recs.lock().unwrap().push(Rec { thread: t, act: act.clone(), call, ret, got, log });
        }
    };
    let mut log: Vec<Ev> = vec![];
    if free {
        crate::sys::MAY_WAIT.store(true, Ordering::SeqCst);
        std::thread::scope(|scope| {
            for t in 0..s.threads.len() {
                let body = &body;
                scope.spawn(move || body(t));
            }
        });
        crate::sys::MAY_WAIT.store(false, Ordering::SeqCst);
        rep.count("free_runs");
    } else {
        let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..s.threads.len()).map(|t| Box::new(move || body(t)) as Box<dyn FnOnce() + Send>).collect::<Vec<_>>();
        let (o, m) = sched::run(seed, Monitor { logging: true, ..Default::default() }, bodies);
        log = m.log;
        if o.deadlock || o.hang {
            return Err(format!("operations do not complete: waiting for {:?}", o.blocked));
        }
        rep.count("scheduled_runs");
        rep.add("steps", o.steps);
        rep.add("switches", o.switches);
        rep.add("lock_waits", o.waits);
        rep.add("externally_blocked", o.external);
        rep.seen("interleavings", crate::rng::hash_bytes(format!("{:?}{:?}", s.threads, o.trace).as_bytes()));
    }
    rep.evaluations += 1;
    let mut recs = recs.into_inner().unwrap();
    recs.sort_by_key(|r| r.call);
    // What is left, read by a new handle.
    let h = gen::open(&base);
    for a in [Act::Read(0), Act::Read(1), Act::ListAttributes(0), Act::ListAttributes(1), Act::Metadata] {
        let t = 1 << 40;
        let n = recs.len() as u64 * 2;
        recs.push(Rec { thread: 99, got: perform(s, &h, &a), act: a, call: t + n, ret: t + n + 1, log: (0, 0) });
    }
    rep.add("operations", recs.len() as u64);
    for k in 0..4 {
        let ops: Vec<&Rec> = recs.iter().filter(|x| key(&x.act) == k).collect();
        judge(s, k, ops, values, &log, free, before, &base, rep).map_err(|e| {
            let h: Vec<String> = recs.iter().filter(|x| key(&x.act) == k).map(|x| show(x, values)).collect();
            format!("{}; operations on that key: {:#?}", e, h)
        })?;
    }
    Ok(())
}

fn show(x: &Rec, values: &HashMap<Vec<u8>, u64>) -> String {
    let got = match &x.got {
        Got::Chunk(Some(d)) => match values.get(d) {
            Some(t) => format!("value {}", t),
            None => "no value that was written".to_string(),
        },
        g => format!("{:?}", g).chars().take(200).collect(),
    };
    format!("{}-{} thread {}: {:?} -> {}", x.call, if x.ret == u64::MAX { 0 } else { x.ret }, x.thread, x.act, got).chars().take(400).collect()
}

#[allow(clippy::too_many_arguments)]
fn judge(s: &Scene, k: usize, ops: Vec<&Rec>, values: &HashMap<Vec<u8>, u64>, log: &[Ev], free: bool, before: &Tree, base: &std::path::Path, rep: &mut Report) -> Result<(), String> {
    let overlapping = |x: &Rec| ops.iter().filter(|y| y.thread != x.thread && y.call < x.ret && x.call < y.ret).cloned().collect::<Vec<&Rec>>();
    let mut kept: Vec<&Rec> = vec![];
    for &x in &ops {
        let o = overlapping(x);
        if !o.is_empty() {
            rep.count("overlapping_operations");
        }
        match &x.got {
            Got::Failed(e) => {
                let read = matches!(x.act, Act::Read(_) | Act::ReadInto(_));
                let writer = o.iter().any(|y| matches!(y.act, Act::Write(..)));
                let created = free || log_shows_creation(log, x, &chunk_file(s, k, base), before, base);
                if read && writer && created {
                    rep.known_finding("C19-CREATE-RACE", format!("read_chunk fails while the chunk's file is created: {}", e));
                    continue;
                }
                return Err(format!("{:?} failed: {}", x.act, e).chars().take(600).collect());
            }
            Got::Chunk(Some(d)) if !values.contains_key(d) => {
                return Err(format!("{:?} of thread {} gave data that nobody wrote", x.act, x.thread));
            }
            Got::Gone(false) if !o.iter().any(|y| matches!(y.act, Act::Write(..))) => {
                return Err(format!("{:?} of thread {} reported that the chunk is still there", x.act, x.thread));
            }
            _ => (),
        }
        kept.push(x);
    }
    if kept.iter().filter(|x| x.thread != 99).count() < 2 {
        return Ok(());
    }
    rep.count("histories_checked");
    if k < 2 {
        let init = s.initial[k];
        if !linearizable(&kept, init, |st, x| match (&x.act, &x.got) {
            (Act::Write(_, t), _) => Some(Some(*t)),
            (Act::Delete(_), _) => Some(None),
            (_, Got::Chunk(d)) if d.as_ref().map(|d| values[d]) == *st => Some(*st),
            _ => None,
        }) {
            return Err(format!("no order of the operations on chunk {} explains their results", k));
        }
    } else {
        let init: BTreeMap<String, Value> = s.attributes[k - 2].clone().into_iter().collect();
        let step = |st: &BTreeMap<String, Value>, x: &Rec| match (&x.act, &x.got) {
            (Act::SetAttributes(_, a), _) => {
                let mut n = st.clone();
                n.extend(a.clone());
                Some(n)
            }
            (_, Got::Attributes(a)) if a.len() == st.len() && a.iter().all(|(k, v)| st.get(k) == Some(v)) => Some(st.clone()),
            _ => None,
        };
        if !linearizable(&kept, init.clone(), step) {
            // Two overlapping updates that both read the document before one of them wrote it.
            if two_step_linearizable(&kept, init) {
                rep.known_finding("C19-LOST-UPDATE", "an attribute update is lost to another one that overlaps it".into());
            } else {
                return Err(format!("no order of the operations on the attributes of {} explains their results", s.paths[k - 2]));
            }
        }
    }
    Ok(())
}

fn chunk_file(s: &Scene, k: usize, base: &std::path::Path) -> String {
    let key = crate::props::c03::chunk_key(s.paths[0], &s.positions[k.min(1)], &s.m.sep);
    base.join(key).to_string_lossy().into_owned()
}

/// Whether a read locked a file that another thread had created and not locked yet.
fn log_shows_creation(log: &[Ev], x: &Rec, file: &str, before: &Tree, base: &std::path::Path) -> bool {
    let rel = file.strip_prefix(&*base.to_string_lossy()).unwrap_or("").trim_start_matches('/').to_string();
    // Files that were at the path one after the other, and which of them the descriptors are of.
    let mut file_now = if before.contains_key(&rel) { Some(0) } else { None };
    let mut files = 0;
    let mut of: HashMap<i32, i32> = HashMap::new();
    let mut fresh: HashMap<i32, usize> = HashMap::new();
    for (i, e) in log.iter().enumerate().filter(|(_, e)| e.path == file && e.ret >= 0) {
        match e.op {
            Op::Open | Op::Create => {
                if file_now.is_none() {
                    files += 1;
                    file_now = Some(files);
                    fresh.insert(files, e.thread);
                }
                of.insert(e.ret as i32, file_now.unwrap());
            }
            Op::Unlink => file_now = None,
            Op::Flock => {
                if let Some(f) = of.get(&e.fd) {
                    if e.arg as i32 & libc::LOCK_EX != 0 {
                        fresh.remove(f);
                    } else if e.arg as i32 & libc::LOCK_SH != 0 && e.thread == x.thread && (x.log.0..x.log.1).contains(&i) && fresh.get(f).map_or(false, |t| *t != x.thread) {
                        return true;
                    }
                }
            }
            _ => (),
        }
    }
    false
}

/// Whether some order of the operations that respects real time explains the results.
fn linearizable<S: Clone + Eq + std::hash::Hash>(ops: &[&Rec], init: S, step: impl Fn(&S, &Rec) -> Option<S>) -> bool {
    let n = ops.len();
    assert!(n < 30, "HARNESS: history");
    let full = (1u32 << n) - 1;
    let mut seen: HashSet<(u32, S)> = HashSet::new();
    let mut stack = vec![(0u32, init)];
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return true;
        }
        if !seen.insert((done, st.clone())) {
            continue;
        }
        let first_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in (0..n).filter(|i| done >> i & 1 == 0) {
            if ops[i].call < first_ret {
                if let Some(s) = step(&st, ops[i]) {
                    stack.push((done | 1 << i, s));
                }
            }
        }
    }
    false
}

type Attrs = BTreeMap<String, Value>;

/// The same with updates that read the attributes and write them back in two steps.
fn two_step_linearizable(ops: &[&Rec], init: Attrs) -> bool {
    let n = ops.len();
    let full = (1u32 << n) - 1;
    #[allow(clippy::type_complexity)]
    let mut seen: HashSet<(u32, Attrs, Vec<Option<Attrs>>)> = HashSet::new();
    let mut stack = vec![(0u32, init, vec![None; n])];
    while let Some((done, st, snap)) = stack.pop() {
        if done == full {
            return true;
        }
        if !seen.insert((done, st.clone(), snap.clone())) {
            continue;
        }
        let first_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in (0..n).filter(|i| done >> i & 1 == 0) {
            if ops[i].call > first_ret {
                continue;
            }
            match (&ops[i].act, &snap[i]) {
                (Act::SetAttributes(..), None) => {
                    let mut s2 = snap.clone();
                    s2[i] = Some(st.clone());
                    stack.push((done, st.clone(), s2));
                }
                (Act::SetAttributes(_, a), Some(old)) => {
                    let mut merged = old.clone();
                    merged.extend(a.clone());
                    let next = if merged == *old { st.clone() } else { merged };
                    let mut s2 = snap.clone();
                    s2[i] = None;
                    stack.push((done | 1 << i, next, s2));
                }
                _ => {
                    if let Got::Attributes(a) = &ops[i].got {
                        if a.len() == st.len() && a.iter().all(|(k, v)| st.get(k) == Some(v)) {
                            stack.push((done | 1 << i, st.clone(), snap.clone()));
                        }
                    }
                }
            }
        }
    }
    false
}

