//! C17: a crash harms only the target of the interrupted operation.

use serde_json::{json, Value};
use zarr::prelude::*;

use crate::arena::{self, Arena, Backing};
use crate::props::c16;
use crate::report::Report;
use crate::rng::Rng;
use crate::sys::{self, Monitor, CRASH_STATUS};
use crate::tree::Tree;
use crate::types::*;
use crate::world::{self, Act, Res, World};
use crate::Cx;

type Dir = Arena<FilesystemHierarchy>;

#[derive(Clone, Copy, Debug)]
struct Crash {
    at: u64,
    partial: bool,
}

/// Perform an operation in a process that dies; false if it came to its end instead.
fn crashing(a: &Dir, w: &World, act: &Act, c: Crash) -> Result<bool, String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "HARNESS: fork");
        if pid == 0 {
            let m = Monitor { crash_at: Some(c.at), crash_partial: c.partial, ..Default::default() };
            let (o, _) = sys::monitored(m, || world::perform(&a.handles[0], w, act));
            libc::_exit(match o {
                Out::Ok(_) => 0,
                Out::Err(..) => 1,
                Out::Panic(_) => 3,
            });
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if libc::WIFSIGNALED(status) {
            return Err(format!("killed by signal {}", libc::WTERMSIG(status)));
        }
        match libc::WEXITSTATUS(status) {
            CRASH_STATUS => Ok(true),
            0 => Ok(false),
            s => Err(format!("ended with {}", if s == 1 { "an error" } else { "a panic" })),
        }
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let suffix = *r.pick(&arena::SUFFIXES);
    let base = cx.sub("h");
    let a = arena::directory_with_suffix(&base, 1, suffix);
    let big = r.chance(1, 4);
    let o = world::Opts { max_chunk_bytes: if big { 40_000 } else { 200 }, arrays: if big { 1 } else { 3 }, ..Default::default() };
    let mut w = World::create(&a, suffix, &o, r);
    let mut trace: Vec<Value> = vec![];
    for _ in 0..3 {
        let act = if r.chance(1, 8) { w.gen_store_write(r) } else { w.gen_write(r, &o) };
        if w.refused(&act) {
            continue;
        }
        trace.push(act.show());
        rep.case["suffix"] = json!(suffix);
        rep.case["history"] = json!(trace);
        let before = a.backing.snapshot();
        let mut next = w.clone();
        next.apply(&act);
        let (dry, m) = sys::monitored(Monitor::default(), || world::perform(&a.handles[0], &w, &act));
        if !dry.is_ok() {
            return rep.violation(format!("{}: {:?}", act.show(), dry));
        }
        for at in c16::points(r, m.mutating, if big { 24 } else { 40 }) {
            a.backing.restore(&before);
            let c = Crash { at, partial: r.bool() };
            rep.case["crash"] = json!(format!("{:?}", c));
            if let Err(e) = crash(&a, &w, &next, &act, c, &before, r, rep) {
                return rep.violation(e);
            }
        }
        a.backing.restore(&before);
        w.clone().must(&a.handles[0], &act);
        w = next;
    }
    rep.distinct(format!("{}{:?}", suffix, trace));
    rep.sample(json!({"suffix": suffix, "history": trace}));
}

/// What a targeted chunk may read as, and whether one of those that the operation
/// covers only partly is unreadable.
fn targets(h: &FilesystemHierarchy, w: &World, next: &World, act: &Act, rep: &mut Report) -> Result<bool, String> {
    let mut unreadable = false;
    for (path, pos) in target_chunks(w, act) {
        let read = Act::ReadChunk { path: path.clone(), pos: pos.clone() };
        match world::perform(h, w, &read) {
            Out::Ok(x) => {
                if matches!(x, Res::Chunk(None)) {
                    rep.count("target_absent");
                    continue;
                }
                let old = w.judge(&read, &x);
                let new = if next.nodes.contains_key(&path) { next.judge(&read, &x) } else { Err(String::new()) };
                match (&old, &new) {
                    (Ok(()), Ok(())) => rep.count("target_same"),
                    (Ok(()), _) => rep.count("target_old"),
                    (_, Ok(())) => rep.count("target_new"),
                    (Err(e), _) => return Err(format!("{} is neither the old nor the new value: {}", read.show(), e)),
                }
            }
            Out::Err(..) => {
                rep.count("target_error");
                if let Act::WriteRegion { offset, shape, .. } = act {
                    let m = w.meta(&path);
                    let whole = (0..m.rank()).all(|d| {
                        let lo = pos[d] * m.chunk[d] as u64;
                        offset[d] <= lo && lo + m.chunk[d] as u64 <= offset[d] + shape[d]
                    });
                    unreadable |= !whole;
                }
            }
            Out::Panic(m) => return Err(format!("{} panics: {}", read.show(), m)),
        }
    }
    Ok(unreadable)
}

fn target_chunks(w: &World, act: &Act) -> Vec<(String, Vec<u64>)> {
    match act {
        Act::WriteChunk { path, pos, .. } | Act::DeleteChunk { path, pos } => vec![(path.clone(), pos.clone())],
        Act::WriteRegion { path, offset, shape, .. } => w.touched(path, offset, shape).into_iter().map(|c| (path.clone(), c)).collect(),
        Act::Remove { path } => {
            let mut v = vec![];
            for (p, n) in w.nodes.iter().filter(|(p, _)| world::is_below(p, path)) {
                v.extend(n.chunks.keys().map(|c| (p.clone(), c.clone())));
            }
            v
        }
        _ => vec![],
    }
}

fn repeatable(act: &Act) -> bool {
    matches!(
        act,
        Act::WriteChunk { .. } | Act::DeleteChunk { .. } | Act::WriteRegion { .. } | Act::Remove { .. } | Act::StoreSet { .. } | Act::StoreErase { .. } | Act::StoreErasePrefix { .. }
    )
}

#[allow(clippy::too_many_arguments)]
fn crash(a: &Dir, w: &World, next: &World, act: &Act, c: Crash, before: &Tree, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let mut what = format!("{} in a process dying at its changing call {}{}", act.show(), c.at, if c.partial { " (half way)" } else { "" });
    let crashed = crashing(a, w, act, c).map_err(|e| format!("{}: {}", what, e))?;
    rep.evaluations += 1;
    if !crashed {
        // The number of calls may depend on what the directory was like.
        rep.count("not_reached");
        return Ok(());
    }
    rep.count("crashes");
    rep.seen("operation_and_point", crate::rng::hash_bytes(format!("{}{:?}", act.name(), c).as_bytes()));
    let mut unreadable = examine(a, w, next, act, before, rep).map_err(|e| format!("{}: afterwards {}", what, e))?;
    if !repeatable(act) {
        return Ok(());
    }
    if r.chance(1, 4) {
        // The repetition dies, too.
        let c2 = Crash { at: r.below(c.at + 2), partial: r.bool() };
        match crashing(a, w, act, c2) {
            Ok(true) => {
                rep.count("repeated_crashes");
                what = format!("{}, and again at {:?}", what, c2);
                unreadable |= examine(a, w, next, act, before, rep).map_err(|e| format!("{}: afterwards {}", what, e))?;
            }
            Ok(false) => rep.count("not_reached"),
            Err(_) if unreadable => (),
            Err(e) => return Err(format!("{}; repeating it: {}", what, e)),
        }
    }
    let base = match &a.backing {
        Backing::Dir(d) => d,
        _ => unreachable!(),
    };
    let h = FilesystemHierarchy::open(base).map_err(|e| format!("{}: the hierarchy does not open: {}", what, e))?;
    match world::perform(&h, w, act) {
        Out::Ok(x) => next.judge_after(w, act, &x).map_err(|e| format!("{}; repeating it: {}", what, e))?,
        Out::Err(k, m) => {
            if unreadable {
                rep.known_finding(
                    "C17-PARTIAL-CHUNK",
                    format!("{}: the chunk it covers partly is lost, so that repeating it fails: {:?} {}", act.name(), k, m),
                );
                // Writing the chunks as a whole is possible all the same.
                for (path, pos) in target_chunks(w, act) {
                    let m = w.meta(&path);
                    let data = vec![0u8; m.chunk_elems() * m.kind.size()];
                    let whole = Act::WriteChunk { path: path.clone(), pos: pos.clone(), data };
                    if !world::perform(&h, w, &whole).is_ok() {
                        return Err(format!("{}: {} fails", what, whole.show()));
                    }
                }
                return Ok(());
            }
            return Err(format!("{}; repeating it: {:?} {}", what, k, m));
        }
        Out::Panic(m) => return Err(format!("{}; repeating it panicked: {}", what, m)),
    }
    rep.count("repeated");
    next.verify(&h, &|_| false).map_err(|e| format!("{}; after repeating it {}", what, e))?;
    c16::complete(a, next).map_err(|e| format!("{}; after repeating it {}", what, e))
}

fn examine(a: &Dir, w: &World, next: &World, act: &Act, before: &Tree, rep: &mut Report) -> Result<bool, String> {
    let base = match &a.backing {
        Backing::Dir(d) => d,
        _ => unreachable!(),
    };
    let h = match lib(|| FilesystemHierarchy::open(base)) {
        Out::Ok(h) => h,
        o => return Err(format!("the hierarchy does not open: {:?}", o.map(drop))),
    };
    let skip = |k: &str| w.may_change(act, k);
    let n = w.verify(&h, &skip)?;
    rep.add("others_checked", n);
    c16::others(a, before, &skip)?;
    targets(&h, w, next, act, rep)
}
