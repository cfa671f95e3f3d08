//! C13: containment of every operation in the hierarchy's directory.

use serde_json::{json, Map};
use std::io::{Read, Write};
use std::path::Path;
use zarr::ndarray::ZarrNdarrayReader;
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

use crate::gen;
use crate::report::Report;
use crate::rng::Rng;
use crate::sys::{self, Monitor};
use crate::tree;
use crate::types::*;
use crate::Cx;

/// Components that count, and the smallest depth reached.
fn walk(start: i64, path: &str) -> (Vec<String>, i64, i64) {
    let mut stack: Vec<String> = vec![];
    let (mut depth, mut least) = (start, start);
    for c in path.split('/') {
        match c {
            "" | "." => continue,
            ".." => {
                depth -= 1;
                stack.pop();
            }
            c => {
                depth += 1;
                stack.push(c.to_string());
            }
        }
        least = least.min(depth);
    }
    (stack, depth, least)
}

fn hostile(r: &mut Rng, base: &Path) -> String {
    let abs = base.to_str().unwrap();
    let name = base.file_name().unwrap().to_str().unwrap();
    let mut parts: Vec<String> = vec![];
    let ups = r.below(6);
    match r.below(6) {
        // Up and elsewhere.
        0 | 1 => {
            for _ in 0..r.below(3) {
                parts.push(r.pick(&["a", "b", ".", "meta", "é"]).to_string());
            }
            for _ in 0..ups {
                parts.push("..".into());
            }
            for _ in 0..r.below(3) {
                parts.push(r.pick(&[name, "h", "h2", "secret", "a", "x", "h/..", "."]).to_string());
            }
        }
        // Out and back in.
        2 => {
            for _ in 0..r.range(1, 4) {
                parts.push("..".into());
            }
            parts.push(r.pick(&[name, "x/h", &format!("{}/data/root", name), "h/meta/root"]).to_string());
            parts.push("a".into());
        }
        3 => {
            parts.push(r.pick(&[abs.to_string(), format!("{}/../secret", abs), format!("{}/../h2/zarr.json", abs), "etc/passwd".into()]).clone());
        }
        // Names that only look like dots.
        4 => {
            for _ in 0..r.range(1, 4) {
                parts.push(r.pick(&["...", "..a", "a..", "....", "a", ". .", "\\..", "..\\..", "%2e%2e", "．．"]).to_string());
            }
            if r.bool() {
                parts.push("..".into());
                parts.push("k".into());
            }
        }
        _ => {
            for _ in 0..r.range(1, 8) {
                parts.push(r.pick(&["..", "..", ".", "a", "b", "", "secret", name]).to_string());
            }
        }
    }
    let mut s = parts.join("/");
    match r.below(8) {
        0 => s = format!("/{}", s),
        1 => s = format!("//{}", s),
        2 => s = format!("./{}", s),
        3 => s.push('/'),
        4 => s.push_str("/.."),
        5 => s = format!("/{}", s).replace("/../", "/.././"),
        _ => (),
    }
    s
}

struct Env<'a> {
    parent: &'a Path,
    base: &'a Path,
    h: FilesystemHierarchy,
    outside: tree::Tree,
}

fn outside(parent: &Path, base: &Path) -> tree::Tree {
    let own = format!("{}/", base.file_name().unwrap().to_str().unwrap());
    let mut t = tree::all(parent);
    t.retain(|k, _| !k.starts_with(&own));
    t
}

fn setup<'a>(parent: &'a Path, base: &'a Path) -> Env<'a> {
    std::fs::create_dir_all(base).expect("HARNESS: mkdir");
    let h = gen::create(base);
    gen::create_array(&h, "a", &Meta::new(&[4], &[2], Kind::U1));
    Env { parent, base, h, outside: outside(parent, base) }
}

impl Env<'_> {
    /// Run an operation with everything outside of the base directory out of reach.
    fn run<T>(&self, rep: &mut Report, what: &str, f: impl FnOnce() -> Result<T, std::io::Error>) -> Option<Out<T>> {
        let m = Monitor { root: Some(self.base.to_str().unwrap().to_string()), detect_self_deadlock: true, ..Default::default() };
        let (o, m) = sys::monitored(m, || lib(f));
        rep.evaluations += 1;
        rep.count("operations");
        rep.add("calls_observed", m.calls);
        if let Some(e) = m.escapes.first() {
            rep.violation(format!("{} reaches outside of the hierarchy: {:?} {}", what, e.op, e.path));
            return None;
        }
        let now = outside(self.parent, self.base);
        if now != self.outside {
            rep.violation(format!("{} changed files outside of the hierarchy: {:?}", what, tree::diff(&self.outside, &now)));
            return None;
        }
        Some(o)
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let parent = cx.sub("x");
    // Names that parts can be cut from.
    let name = *r.pick(&["h", "h", "q.array.json", "x.group", "c0.h", "h."]);
    let base = parent.join(name);
    std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
    std::fs::write(parent.join("secret"), b"secret").expect("HARNESS: write");
    std::fs::write(cx.sub("secret"), b"secret").expect("HARNESS: write");
    gen::create(&parent.join("h2"));
    // Nodes and keys next to the hierarchy, which escaping operations would find.
    for f in ["x.group.json", "secret.array.json", "a.array.json", "a", "q", "x", "c0", "h"] {
        if f == name {
            continue;
        }
        std::fs::write(parent.join(f), b"{\"attributes\": {}}").expect("HARNESS: write");
    }
    let mut env = setup(&parent, &base);
    if opening(&env, rep).is_none() {
        return;
    }
    if r.chance(1, 8) && deep(&env, r, rep).is_none() {
        return;
    }
    for _ in 0..r.range(4, 10) {
        let p = hostile(r, &base);
        rep.case["path"] = json!(p);
        let ok = if r.bool() { store(&env, &p, r, rep) } else { nodes(&env, &p, r, rep) };
        if ok.is_none() || rep.case_violated {
            return;
        }
        rep.distinct(p.replace(base.to_str().unwrap(), "BASE"));
        rep.sample(json!({"path": p.replace(base.to_str().unwrap(), "BASE")}));
        if !base.join("zarr.json").exists() || r.chance(1, 6) {
            // The hierarchy itself was removed.
            tree::remove(&base, &parent);
            env = setup(&parent, &base);
        }
    }
}

/// Keys that go down and up more often than small counters can count.
fn deep(env: &Env, r: &mut Rng, rep: &mut Report) -> Option<()> {
    let h = &env.h;
    let down = *r.pick(&[100, 126, 127, 128, 129, 200, 255, 256, 257, 400]);
    let up = match r.below(4) {
        0 => down + r.usize(2) + 1,
        1 => down,
        _ => down - r.usize(down),
    };
    let key = format!("{}{}k", "a/".repeat(down), "../".repeat(up));
    let outs = [
        ("uri", env.run(rep, "uri", || h.uri(&key).map(drop))?),
        ("get", env.run(rep, "get", || h.get(&key).map(drop))?),
        ("exists", env.run(rep, "exists", || ReadableStore::exists(h, &key).map(drop))?),
        ("list_dir", env.run(rep, "list_dir", || h.list_dir(&key).map(drop))?),
    ];
    rep.count(if up > down { "deep_leaving" } else { "deep_staying" });
    for (what, o) in outs {
        if (up > down) != o.is_err() {
            rep.violation(format!("{} of a key with {} names, {} dot-dots and one more name gave {:?}", what, down, up, o));
            return None;
        }
    }
    Some(())
}

fn opening(env: &Env, rep: &mut Report) -> Option<()> {
    let base = env.base;
    env.run(rep, "opening", || FilesystemHierarchy::open(base))?;
    env.run(rep, "opening or creating", || FilesystemHierarchy::open_or_create(base))?;
    Some(())
}

fn store(env: &Env, key: &str, r: &mut Rng, rep: &mut Report) -> Option<()> {
    let h = &env.h;
    let (stack, _, least) = walk(0, key);
    let leaves = least < 0;
    let value = r.bytes(9);
    if leaves {
        rep.count("leaving");
        let outs = [
            ("get", env.run(rep, "get", || h.get(key).map(drop))?),
            ("exists", env.run(rep, "exists", || ReadableStore::exists(h, key).map(drop))?),
            ("uri", env.run(rep, "uri", || h.uri(key).map(drop))?),
            ("list_dir", env.run(rep, "list_dir", || h.list_dir(key).map(drop))?),
            ("list_prefix", env.run(rep, "list_prefix", || h.list_prefix(key).map(drop))?),
            ("set", env.run(rep, "set", || h.set(key, |mut w| w.write_all(&value)))?),
            ("erase", env.run(rep, "erase", || h.erase(key).map(drop))?),
            ("erase_prefix", env.run(rep, "erase_prefix", || h.erase_prefix(key).map(drop))?),
            ("get_attributes", env.run(rep, "get_attributes", || h.get_attributes(key).map(drop))?),
        ];
        for (what, o) in outs {
            if !o.is_err() {
                rep.violation(format!("{}({:?}), which leaves the hierarchy, gave {:?}", what, key, o));
                return None;
            }
        }
        return Some(());
    }
    rep.count("staying");
    let target = stack.iter().fold(env.base.to_path_buf(), |p, c| p.join(c));
    let last = key.rsplit('/').next().unwrap();
    let plain = !stack.is_empty() && !["", ".", ".."].contains(&last) && !target.is_dir() && !passes(env.base, key, |p| p.is_file() || p == target);
    let o = env.run(rep, "set", || h.set(key, |mut w| w.write_all(&value).and_then(|()| w.flush())))?;
    if plain {
        rep.count("keys_with_dots");
        if !o.is_ok() {
            rep.violation(format!("set({:?}), which stays inside, gave {:?}", key, o));
            return None;
        }
        if std::fs::read(&target).ok().as_ref() != Some(&value) {
            rep.violation(format!("set({:?}) did not store at {:?}", key, stack));
            return None;
        }
        let e = env.run(rep, "exists", || ReadableStore::exists(h, key))?;
        let g = env.run(rep, "get", || {
            let mut b = vec![];
            match h.get(key)? {
                Some(mut x) => x.read_to_end(&mut b).map(|_| Some(b)),
                None => Ok(None),
            }
        })?;
        let u = env.run(rep, "uri", || h.uri(key))?;
        if e != Out::Ok(true) || g != Out::Ok(Some(value.clone())) || !u.is_ok() {
            rep.violation(format!("after set({:?}): exists {:?}, get {:?}, uri {:?}", key, e, g, u));
            return None;
        }
        let d = env.run(rep, "erase", || h.erase(key))?;
        if d != Out::Ok(true) || target.exists() {
            rep.violation(format!("erase({:?}) gave {:?}, file still there: {}", key, d, target.exists()));
            return None;
        }
    }
    env.run(rep, "get_attributes", || h.get_attributes(key).map(drop))?;
    env.run(rep, "list_dir", || h.list_dir(key).map(drop))?;
    env.run(rep, "list_prefix", || h.list_prefix(key).map(drop))?;
    env.run(rep, "exists", || ReadableStore::exists(h, key).map(drop))?;
    env.run(rep, "get", || h.get(key).map(drop))?;
    if r.chance(1, 3) {
        env.run(rep, "erase_prefix", || h.erase_prefix(key).map(drop))?;
    }
    Some(())
}

fn passes_file(base: &Path, path: &str) -> bool {
    passes(base, path, |p| p.is_file())
}

/// Whether the way to a path passes something.
fn passes(base: &Path, path: &str, f: impl Fn(&Path) -> bool) -> bool {
    let mut p = base.to_path_buf();
    let comps: Vec<&str> = path.split('/').collect();
    for c in &comps[..comps.len() - 1] {
        match *c {
            "" | "." => (),
            ".." => {
                p.pop();
            }
            c => p.push(c),
        }
        if f(&p) {
            return true;
        }
    }
    false
}

fn nodes(env: &Env, path: &str, r: &mut Rng, rep: &mut Report) -> Option<()> {
    let h = &env.h;
    let (stack, _, data_least) = walk(2, path);
    let comps: Vec<&str> = path.split('/').filter(|c| !["", "."].contains(c)).collect();
    let dir = comps[..comps.len().saturating_sub(1)].join("/");
    let (_, _, dir_least) = walk(2, &dir);
    let last_up = comps.last() == Some(&"..");
    let m = Meta::new(&[4], &[2], Kind::U1);
    let z = m.zarr();
    let mut attrs = Map::new();
    attrs.insert("k".into(), json!(1));
    if data_least < 0 {
        rep.count("leaving");
        let mut outs = vec![
            ("write_chunk", env.run(rep, "write_chunk", || h.write_chunk(path, &z, &SliceDataChunk::<u8, _>::new(gc(&[0]), &[1u8, 2][..])))?),
            ("read_chunk", env.run(rep, "read_chunk", || h.read_chunk::<u8>(path, &z, gc(&[0])).map(drop))?),
            ("delete_chunk", env.run(rep, "delete_chunk", || h.delete_chunk(path, &z, &[0]).map(drop))?),
            ("get_chunk_uri", env.run(rep, "get_chunk_uri", || h.get_chunk_uri(path, &z, &[0]).map(drop))?),
            ("write_ndarray", {
                let f = || match write_region(h, path, &z, m.kind, &[1], &[2], &[1, 2], Layout::C) {
                    Out::Ok(()) => Ok(()),
                    Out::Err(k, m) => Err(std::io::Error::new(k, m)),
                    Out::Panic(p) => panic!("{}", p),
                };
                env.run(rep, "write_ndarray", f)?
            }),
            ("read_ndarray", {
                let f = || match read_region(h, path, &z, m.kind, &[1], &[2]) {
                    Out::Ok(_) => Ok(()),
                    Out::Err(k, m) => Err(std::io::Error::new(k, m)),
                    Out::Panic(p) => panic!("{}", p),
                };
                env.run(rep, "read_ndarray", f)?
            }),
            ("list_nodes", env.run(rep, "list_nodes", || h.list_nodes(path).map(drop))?),
            ("remove", env.run(rep, "remove", || h.remove(path))?),
        ];
        if dir_least < 0 || !last_up {
            outs.extend([
                ("get_array_metadata", env.run(rep, "get_array_metadata", || h.get_array_metadata(path).map(drop))?),
                ("exists", env.run(rep, "exists", || HierarchyReader::exists(h, path).map(drop))?),
                ("array_exists", env.run(rep, "array_exists", || h.array_exists(path).map(drop))?),
                ("list_attributes", env.run(rep, "list_attributes", || h.list_attributes(path).map(drop))?),
                ("set_attributes", env.run(rep, "set_attributes", || h.set_attributes(path, attrs.clone()))?),
                ("create_group", env.run(rep, "create_group", || h.create_group(path))?),
                ("create_array", env.run(rep, "create_array", || h.create_array(path, &z))?),
            ]);
        }
        for (what, o) in outs {
            if !o.is_err() {
                rep.violation(format!("{}({:?}), which leaves the hierarchy, gave {:?}", what, path, o));
                return None;
            }
        }
        return Some(());
    }
    rep.count("staying");
    // Where the node is if dots are resolved.
    let full: Vec<String> = walk(0, &format!("meta/root/{}", path)).0;
    let data = walk(0, &format!("data/root/{}", path)).0;
    let array = r.bool();
    let ends = path.trim_end_matches('/').rsplit('/').next().unwrap().to_string();
    let at = full.iter().fold(env.base.to_path_buf(), |p, c| p.join(c));
    let data_at = data.iter().fold(env.base.to_path_buf(), |p, c| p.join(c));
    // Nothing may be in the way: neither another node nor a file among the directories.
    let plain = !stack.is_empty()
        && ![".", ".."].contains(&ends.as_str())
        && !full.is_empty()
        && !at.is_file()
        && !data_at.is_file()
        && !passes_file(env.base, &format!("meta/root/{}", path.trim_matches('/')))
        && !passes_file(env.base, &format!("data/root/{}", path.trim_matches('/')))
        && !["array", "group"].iter().any(|k| at.with_file_name(format!("{}.{}.json", ends, k)).exists())
        // Overlapping places of documents and data.
        && data_at.file_name().is_some()
        && !data_at.join("c0").exists();
    let o = env.run(rep, "create", || if array { h.create_array(path, &z) } else { h.create_group(path) })?;
    if plain {
        rep.count("nodes_with_dots");
        let e = env.run(rep, "exists", || HierarchyReader::exists(h, path))?;
        let s = env.run(rep, "set_attributes", || h.set_attributes(path, attrs.clone()))?;
        let l = env.run(rep, "list_attributes", || h.list_attributes(path))?;
        if !o.is_ok() || e != Out::Ok(true) || !s.is_ok() || l != Out::Ok(attrs.clone()) {
            rep.violation(format!("node {:?} stays inside, but: create {:?}, exists {:?}, set_attributes {:?}, list_attributes {:?}", path, o, e, s, l));
            return None;
        }
        if array {
            let w = env.run(rep, "write_chunk", || h.write_chunk(path, &z, &SliceDataChunk::<u8, _>::new(gc(&[0]), &[1u8, 2][..])))?;
            let g = env.run(rep, "read_chunk", || h.read_chunk::<u8>(path, &z, gc(&[0])).map(|c| c.map(|c| c.get_data().to_vec())))?;
            if !w.is_ok() || g != Out::Ok(Some(vec![1, 2])) {
                rep.violation(format!("array {:?} stays inside, but: write {:?}, read {:?}", path, w, g));
                return None;
            }
            let file = data_at.join("c0");
            if !file.is_file() {
                rep.violation(format!("the chunk of {:?} is not at {:?}", path, file));
                return None;
            }
            env.run(rep, "read_ndarray", || h.read_ndarray::<u8>(path, &z, &bbox(&[0], &[4])).map(drop))?;
            env.run(rep, "delete_chunk", || h.delete_chunk(path, &z, &[0]).map(drop))?;
        }
    } else {
        env.run(rep, "exists", || HierarchyReader::exists(h, path).map(drop))?;
        env.run(rep, "list_attributes", || h.list_attributes(path).map(drop))?;
        env.run(rep, "set_attributes", || h.set_attributes(path, attrs.clone()).map(drop))?;
        env.run(rep, "get_array_metadata", || h.get_array_metadata(path).map(drop))?;
        env.run(rep, "read_chunk", || h.read_chunk::<u8>(path, &z, gc(&[0])).map(drop))?;
        env.run(rep, "write_chunk", || h.write_chunk(path, &z, &SliceDataChunk::<u8, _>::new(gc(&[0]), &[1u8, 2][..])))?;
        env.run(rep, "delete_chunk", || h.delete_chunk(path, &z, &[0]).map(drop))?;
    }
    env.run(rep, "list_nodes", || h.list_nodes(path).map(drop))?;
    if r.chance(1, 2) {
        env.run(rep, "remove", || h.remove(path))?;
        if plain && HierarchyReader::exists(h, path).ok() == Some(true) {
            rep.violation(format!("node {:?} still exists after it was removed", path));
            return None;
        }
    }
    Some(())
}
