//! C16: failures of the storage are reported.

use serde_json::{json, Value};
use std::io::ErrorKind;
use zarr::prelude::*;

use crate::arena::{self, Arena, Backing, Store};
use crate::gen;
use crate::mem::Faults;
use crate::on_arena;
use crate::report::Report;
use crate::rng::Rng;
use crate::sys::{self, Fault, FaultKind, Monitor};
use crate::tree::{self, Tree};
use crate::types::*;
use crate::world::{self, Act, Res, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    if r.chance(1, 12) {
        return opening(cx, r, rep);
    }
    let suffix = *r.pick(&arena::SUFFIXES);
    on_arena!(cx, r, 7, 1, suffix, a => history(&a, suffix, r, rep));
}

#[derive(Clone, Debug)]
enum Injected {
    Sys(Fault),
    Mem { at: u64, sticky: bool, kind: ErrorKind },
}

/// Errors that do not mean that something is not there.
const ERRNOS: [i32; 17] = [
    libc::EIO,
    libc::ENOSPC,
    libc::EACCES,
    libc::EMFILE,
    libc::EDQUOT,
    libc::EROFS,
    libc::ENOLCK,
    libc::EPERM,
    libc::EINTR,
    libc::ESTALE,
    libc::EBUSY,
    libc::ETIMEDOUT,
    libc::ENFILE,
    libc::ENOMEM,
    libc::EFBIG,
    libc::ELOOP,
    libc::EOPNOTSUPP,
];
const KINDS_OF_ERRORS: [ErrorKind; 6] =
    [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::StorageFull, ErrorKind::WriteZero];

fn gen_fault(r: &mut Rng, b: &Backing, at: u64) -> Injected {
    match b {
        Backing::Dir(_) => Injected::Sys(gen_sys_fault(r, at)),
        Backing::Mem(_) => Injected::Mem { at, sticky: r.bool(), kind: *r.pick(&KINDS_OF_ERRORS) },
    }
}

fn gen_sys_fault(r: &mut Rng, at: u64) -> Fault {
    let kind = if r.chance(1, 5) { FaultKind::Short } else { FaultKind::Errno(*r.pick(&ERRNOS)) };
    // A call interrupted again and again may be repeated forever.
    let sticky = r.bool() && !matches!(kind, FaultKind::Errno(libc::EINTR));
    Fault { at, kind, sticky }
}

struct Observed {
    out: Out<Res>,
    /// Calls that could have been made to fail.
    eligible: u64,
    /// Which one was.
    fired: Option<String>,
    monitor: Monitor,
}

fn run<H: Store>(a: &Arena<H>, w: &World, act: &Act, inject: Option<&Injected>) -> Observed {
    let mut m = Monitor { detect_self_deadlock: true, ..Default::default() };
    let mut f = Faults::default();
    match inject {
        Some(Injected::Sys(s)) => m.fault = Some(s.clone()),
        Some(Injected::Mem { at, sticky, kind }) => f = Faults { at: Some(*at), sticky: *sticky, kind: Some(*kind), ..f },
        None => (),
    }
    if let Backing::Mem(h) = &a.backing {
        h.set_faults(f);
    }
    let (out, m) = sys::monitored(m, || world::perform(&a.handles[0], w, act));
    let (mut eligible, mut fired) = (m.eligible, m.fired.map(|o| format!("{:?}", o)));
    if let Backing::Mem(h) = &a.backing {
        let f = h.set_faults(Faults::default());
        eligible = f.count;
        fired = f.fired.map(|o| format!("store {:?}", o));
    }
    Observed { out, eligible, fired, monitor: m }
}

/// Which of n points to take.
pub fn points(r: &mut Rng, n: u64, most: u64) -> Vec<u64> {
    if n <= most {
        return (0..n).collect();
    }
    let k = most / 3;
    let mut v: Vec<u64> = (0..k).chain(n - k..n).collect();
    v.extend((0..k).map(|_| r.range(k, n - k - 1)));
    v.sort();
    v.dedup();
    v
}

fn history<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let big = r.chance(1, 6);
    let o = world::Opts {
        max_chunk_bytes: if big { 40_000 } else { 200 },
        arrays: if big { 1 } else { 3 },
        ..Default::default()
    };
    let mut w = World::create(a, suffix, &o, r);
    rep.case["store"] = json!(a.backing.name());
    rep.case["suffix"] = json!(suffix);
    let mut trace: Vec<Value> = vec![];
    for _ in 0..3 {
        let act = match r.below(8) {
            0..=2 => w.gen_read(r),
            3..=6 => w.gen_write(r, &o),
            _ => w.gen_store_write(r),
        };
        trace.push(act.show());
        rep.case["history"] = json!(trace);
        let before = a.backing.snapshot();
        let dry = run(a, &w, &act, None);
        let mut next = w.clone();
        next.apply(&act);
        if !act.is_read() {
            a.backing.restore(&before);
        }
        let expected_err = w.refused(&act);
        if dry.out.is_ok() == expected_err || dry.out.is_panic() {
            return rep.violation(format!("{}: {:?}", act.show(), dry.out));
        }
        for at in points(r, dry.eligible, if big { 30 } else { 60 }) {
            let f = gen_fault(r, &a.backing, at);
            rep.case["fault"] = json!(format!("{:?}", f));
            if let Err(e) = attempt(a, &w, &next, &act, &f, &before, r, rep) {
                return rep.violation(e);
            }
            a.backing.restore(&before);
        }
        // Go on from the state after it.
        let again = run(a, &w, &act, None);
        if again.out.is_ok() == expected_err {
            return rep.violation(format!("{} without failures: {:?}", act.show(), again.out));
        }
        w = next;
    }
    rep.distinct(format!("{}{}{:?}", a.backing.name(), suffix, trace));
    rep.sample(json!({"store": a.backing.name(), "history": trace}));
}

#[allow(clippy::too_many_arguments)]
fn attempt<H: Store>(a: &Arena<H>, w: &World, next: &World, act: &Act, f: &Injected, before: &Tree, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let got = run(a, w, act, Some(f));
    let what = format!("{} with a failing {} ({:?})", act.show(), got.fired.as_deref().unwrap_or("nothing"), f);
    rep.evaluations += 1;
    match &got.fired {
        None => rep.count("faults_not_reached"),
        Some(k) => {
            rep.count("faults_injected");
            rep.seen("operation_and_failing_call", crate::rng::hash_bytes(format!("{}{}", act.name(), k).as_bytes()));
            if let Injected::Sys(s) = f {
                rep.seen("failures", crate::rng::hash_bytes(format!("{}{:?}", k, s.kind).as_bytes()));
            }
        }
    }
    if let Some(p) = got.monitor.self_deadlocks.first() {
        return Err(format!("{}: waits for its own lock of {}", what, p));
    }
    if !got.monitor.locks.is_empty() {
        return Err(format!("{}: still holds a file lock after it returned", what));
    }
    if !got.monitor.fds.is_empty() {
        return Err(format!("{}: left {} files open", what, got.monitor.fds.len()));
    }
    match &got.out {
        Out::Panic(m) => return Err(format!("{}: panicked: {}", what, m)),
        Out::Ok(x) => {
            rep.count("ok_despite_fault");
            if w.refused(act) {
                return Err(format!("{}: succeeded, though it must be refused", what));
            }
            w.judge(act, x).map_err(|e| format!("{}: {}", what, e))?;
            if act.is_read() {
                unchanged(a, before).map_err(|e| format!("{}: {}", what, e))?;
            } else {
                next.verify(&a.handles[0], &|_| false).map_err(|e| format!("{}: reported success, but {}", what, e))?;
                complete(a, next).map_err(|e| format!("{}: reported success, but {}", what, e))?;
            }
        }
        Out::Err(..) => {
            rep.count("reported");
            if act.is_read() || w.refused(act) {
                unchanged(a, before).map_err(|e| format!("{}: {}", what, e))?;
                // The failure does not last.
                let again = run(a, w, act, None);
                let fine = match &again.out {
                    Out::Ok(x) if !w.refused(act) => w.judge(act, x),
                    Out::Err(..) if w.refused(act) => Ok(()),
                    o => Err(format!("{:?}", o)),
                };
                return fine.map_err(|e| format!("{} failed; the same again: {}", what, e));
            }
            let skip = |k: &str| w.may_change(act, k);
            w.verify(&a.handles[0], &skip).map_err(|e| format!("{} failed, and {}", what, e))?;
            others(a, before, &skip).map_err(|e| format!("{} failed, and {}", what, e))?;
            if matches!(act, Act::WriteChunk { .. } | Act::DeleteChunk { .. } | Act::Remove { .. } | Act::StoreSet { .. } | Act::StoreErase { .. } | Act::StoreErasePrefix { .. }) {
                let n = r.below(4);
                if n == 0 {
                    // Fails once more, somewhere else.
                    let at = r.below(got.eligible.max(1));
                    let f2 = gen_fault(r, &a.backing, at);
                    let o = run(a, w, act, Some(&f2));
                    if o.out.is_panic() {
                        return Err(format!("{}, then {:?}: {:?}", what, f2, o.out));
                    }
                    rep.count("failed_retries");
                }
                rep.count("retries");
                let again = run(a, w, act, None);
                match &again.out {
                    Out::Ok(x) => next.judge_after(w, act, x).map_err(|e| format!("{} failed; retrying it: {}", what, e))?,
                    o => return Err(format!("{} failed; retrying it without failures: {:?}", what, o)),
                }
                next.verify(&a.handles[0], &|_| false).map_err(|e| format!("{} failed and was retried, then {}", what, e))?;
                complete(a, next).map_err(|e| format!("{} failed and was retried, then {}", what, e))?;
            }
        }
    }
    Ok(())
}

fn unchanged<H: Store>(a: &Arena<H>, before: &Tree) -> Result<(), String> {
    let d = tree::diff(before, &a.backing.snapshot());
    if d.is_empty() {
        Ok(())
    } else {
        Err(format!("changed {:?}", d))
    }
}

/// Files that the operation does not target are as they were.
pub fn others<H: Store>(a: &Arena<H>, before: &Tree, skip: &dyn Fn(&str) -> bool) -> Result<(), String> {
    let now = a.files();
    let files: Tree = before.iter().filter(|(k, _)| !k.ends_with('/')).map(|(k, v)| (k.clone(), v.clone())).collect();
    match tree::diff_names(&files, &now).iter().find(|k| !skip(k)) {
        Some(k) => Err(format!("{} was changed too", k)),
        None => Ok(()),
    }
}

/// Exactly the keys of the model are stored.
pub fn complete<H: Store>(a: &Arena<H>, w: &World) -> Result<(), String> {
    let mut have: std::collections::BTreeSet<String> = a.files().keys().cloned().collect();
    have.remove("zarr.json");
    let want = w.keys();
    if have == want {
        return Ok(());
    }
    let d: Vec<_> = have.symmetric_difference(&want).cloned().collect();
    Err(format!("these keys should or should not be there: {:?}", d))
}

/// Opening and creating hierarchies.
fn opening(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let base = cx.sub("o");
    let suffix = *r.pick(&arena::SUFFIXES);
    let exists = r.chance(2, 3);
    if exists {
        gen::create_with_suffix(&base, suffix);
    } else if r.bool() {
        std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
    }
    let before = tree::all(&base);
    let create = !exists || r.bool();
    let call = |m: Monitor| sys::monitored(m, || lib(|| if create { FilesystemHierarchy::open_or_create(&base) } else { FilesystemHierarchy::open(&base) }));
    let what = format!("{} {} hierarchy", if create { "open_or_create" } else { "open" }, if exists { "an existing" } else { "a new" });
    rep.case["what"] = json!(what);
    let reset = || {
        let _ = std::fs::remove_dir_all(&base);
        if !before.is_empty() || exists {
            std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
        }
        for (k, v) in &before {
            std::fs::write(base.join(k), v).expect("HARNESS: write");
        }
    };
    let (o, m) = call(Monitor::default());
    if !o.is_ok() {
        return rep.violation(format!("{}: {:?}", what, o.map(drop)));
    }
    for at in points(r, m.eligible, 60) {
        reset();
        let f = gen_sys_fault(r, at);
        let (o, m) = call(Monitor { fault: Some(f.clone()), detect_self_deadlock: true, ..Default::default() });
        let what = format!("{} with a failing {:?} ({:?})", what, m.fired, f);
        rep.evaluations += 1;
        rep.count("openings");
        if exists {
            let d = tree::diff(&before, &tree::all(&base));
            if !d.is_empty() {
                return rep.violation(format!("{} ({}): changed {:?}", what, o.class(), d));
            }
        }
        match o {
            Out::Panic(m) => return rep.violation(format!("{}: panicked: {}", what, m)),
            Out::Ok(h) => {
                let z = Meta::new(&[2], &[2], Kind::U1).zarr();
                let done = lib(|| h.create_array("x", &z));
                let again = lib(|| FilesystemHierarchy::open(&base)).map(|h| lib(|| h.get_array_metadata("x")));
                let sfx = if exists { suffix } else { ".json" };
                let there = base.join(format!("meta/root/x.array{}", sfx)).is_file();
                if !done.is_ok() || !matches!(&again, Out::Ok(Out::Ok(m)) if *m == z) || !there {
                    return rep.violation(format!("{}: succeeded, but then {:?}, {:?}, key {}", what, done, again, there));
                }
            }
            Out::Err(..) => (),
        }
    }
    rep.distinct(format!("{}{}{}", what, suffix, before.len()));
}
