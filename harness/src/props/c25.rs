//! C25: a hierarchy opens as what it was created as, and is independent of others.

use serde_json::{json, Value};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use zarr::prelude::*;

use crate::arena::{self, Arena, Backing};
use crate::report::Report;
use crate::rng::Rng;
use crate::tree::{self, Tree};
use crate::types::*;
use crate::world::{self, Act, World};
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let mut dir = cx.dir();
    if r.chance(1, 6) {
        // Directory names are not text, and need not be trimmed.
        dir = dir.join(OsStr::from_bytes(*r.pick(&[b"\xff\xfe" as &[u8], b"\xe9t\xe9 ", b" x ", b"\xed\xa0\x80", b"~"])));
        std::fs::create_dir(&dir).expect("HARNESS: mkdir");
        rep.count("unusual_parents");
    }
    // Relative paths, if any, start here.
    let before = std::env::current_dir().expect("HARNESS: current directory");
    let o = if r.chance(1, 3) { nothing(&dir, r, rep) } else { several(&dir, r, rep) };
    std::env::set_current_dir(before).expect("HARNESS: chdir");
    if let Err(e) = o {
        rep.violation(e);
    }
}

const URI: &str = "https://purl.org/zarr/spec/protocol/core/3.0";

fn go(create: bool, p: &Path) -> Out<FilesystemHierarchy> {
    lib(|| if create { FilesystemHierarchy::open_or_create(p) } else { FilesystemHierarchy::open(p) })
}

/// Another name of a directory, in the current directory or from the root.
fn spelling(dir: &Path, name: &str, links: &[(String, String)], r: &mut Rng, rep: &mut Report) -> PathBuf {
    let mut name = name.to_string();
    if let Some((l, t)) = links.iter().find(|l| l.1 == name || name.starts_with(&format!("{}/", l.1))).filter(|_| r.chance(1, 3)) {
        rep.count("through_symlinks");
        name = format!("{}{}", l, &name[t.len()..]);
    }
    let p = match r.below(6) {
        0 | 1 => {
            rep.count("relative_paths");
            let cwd = match name.rfind('/') {
                Some(i) if r.bool() => {
                    let c = dir.join(&name[..i]);
                    name = name[i + 1..].to_string();
                    c
                }
                _ => dir.to_path_buf(),
            };
            if r.chance(1, 4) {
                // From within.
                std::env::set_current_dir(cwd.join(&name)).expect("HARNESS: chdir");
                name = r.pick(&["", ".", "./"]).to_string();
            } else {
                std::env::set_current_dir(cwd).expect("HARNESS: chdir");
            }
            OsString::new()
        }
        _ => glue(&[dir.as_os_str(), "/".as_ref()]),
    };
    if name.is_empty() {
        return PathBuf::from(p);
    }
    let rest = match r.below(8) {
        0 => format!("{}/", name),
        1 => format!("./{}", name),
        2 => format!("{}//", name.replace('/', "//")),
        3 => format!("{}/.", name),
        4 if !p.is_empty() => {
            return PathBuf::from(glue(&[&p, "../".as_ref(), dir.file_name().unwrap(), "/".as_ref(), name.as_ref()]));
        }
        // The parent of a symbolic link's target.
        5 | 6 if !p.is_empty() && dir.join("up").is_symlink() => {
            rep.count("above_symlinks");
            format!("up/../../{}", name)
        }
        _ => name,
    };
    PathBuf::from(glue(&[&p, rest.as_ref()]))
}

fn glue(parts: &[&OsStr]) -> OsString {
    parts.iter().copied().collect()
}

fn entry_point(doc: &[u8], suffix: &str) -> Result<(), String> {
    let v: Value = serde_json::from_slice(doc).map_err(|e| format!("the entry point is not JSON: {}", e))?;
    let want = json!({"zarr_format": URI, "metadata_encoding": URI, "metadata_key_suffix": suffix, "extensions": []});
    if v != want {
        return Err(format!("the entry point is {}", v));
    }
    Ok(())
}

/// What a handle says about its hierarchy.
fn version<H: HierarchyReader>(h: &H) -> Result<(), String> {
    match lib(|| h.get_version()) {
        Out::Ok(v) if v.matches(&"3.0.0".parse().unwrap()) && v.matches(&zarr::VERSION) && !v.matches(&"2.0.0".parse().unwrap()) && !v.matches(&"4.0.0".parse().unwrap()) => {
            Ok(())
        }
        o => Err(format!("get_version: {:?}", o)),
    }
}

/// Directories without a hierarchy, and what makes them one.
fn nothing(dir: &Path, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let name = *r.pick(&["h", "a/b/c", "h.json", "zarr.json", "meta/root", "é x/%41", "data", "..h", "h.", " h", "h ", "h\t/ ", "~", "$HOME", "a\nb", "\u{3000}", "C:\\x", "file:", "*"]);
    let base = dir.join(name);
    let mkdir = |p: &Path| std::fs::create_dir_all(p).expect("HARNESS: mkdir");
    let file = |p: PathBuf, b: &[u8]| {
        mkdir(p.parent().unwrap());
        std::fs::write(p, b).expect("HARNESS: write");
    };
    let state = *r.pick(&["missing", "empty", "values", "other entry point", "file", "below a file", "directory as entry point", "empty entry point", "parents"]);
    let mut creatable = true;
    match state {
        "missing" => (),
        "parents" => mkdir(base.parent().unwrap()),
        "empty" => mkdir(&base),
        "values" => {
            let doc = Meta::new(&[2], &[2], Kind::U1).json().to_string();
            file(base.join("meta/root/x.array.json"), doc.as_bytes());
            file(base.join("data/root/x/c0"), &[1, 2]);
            file(base.join("README"), b"?");
        }
        "other entry point" => {
            file(base.join(*r.pick(&["zarr", ".zgroup", "zarr.JSON", "zarr.json.bak", "meta/zarr.json", "data/zarr.json"])), doc_text(r, ".json").as_bytes())
        }
        "file" => {
            file(base.clone(), doc_text(r, ".json").as_bytes());
            creatable = false;
        }
        "below a file" => {
            file(base.clone(), doc_text(r, ".json").as_bytes());
            creatable = false;
        }
        "directory as entry point" => {
            mkdir(&base.join("zarr.json"));
            creatable = false;
        }
        _ => {
            file(base.join("zarr.json"), b"");
            creatable = false;
        }
    }
    if name != "zarr.json" && r.chance(1, 3) {
        // In the directory of another hierarchy, or beside one.
        file(dir.join("zarr.json"), doc_text(r, ".json").as_bytes());
        file(dir.join("g/zarr.json"), doc_text(r, ".json").as_bytes());
        rep.count("inside_another");
    }
    let base = if state == "below a file" { base.join("x") } else { base };
    rep.case["state"] = json!(state);
    rep.case["name"] = json!(name);
    rep.evaluations += 1;
    rep.count(&format!("from_{}", state.replace(' ', "_")));
    rep.distinct(format!("{}{}", state, name));
    let before = tree::all(dir);
    let o = go(false, &base);
    if !o.is_err() {
        return Err(format!("open ({}): {:?}", state, o.map(|_| "a hierarchy")));
    }
    let after = tree::all(dir);
    if after != before {
        return Err(format!("open ({}) changed {:?}", state, tree::diff(&before, &after)));
    }
    let o = go(true, &base);
    let after = tree::all(dir);
    let h = match o {
        Out::Ok(h) if creatable => h,
        Out::Err(..) if !creatable => {
            if after != before {
                return Err(format!("open_or_create ({}) failed and changed {:?}", state, tree::diff(&before, &after)));
            }
            rep.count("refused");
            return Ok(());
        }
        o => return Err(format!("open_or_create ({}): {:?}", state, o.map(|_| "a hierarchy"))),
    };
    version(&h)?;
    let mut want = before.clone();
    let mut at = String::new();
    for c in name.split('/') {
        at = format!("{}{}/", at, c);
        want.insert(at.clone(), vec![]);
    }
    let key = format!("{}/zarr.json", name);
    let doc = after.get(&key).cloned().ok_or("open_or_create made no entry point")?;
    entry_point(&doc, ".json")?;
    want.insert(key, doc);
    if after != want {
        return Err(format!("open_or_create ({}) made {:?}", state, tree::diff(&want, &after)));
    }
    rep.count("created");
    // What there was belongs to it now.
    if state == "values" {
        let m = Meta::new(&[2], &[2], Kind::U1);
        for h in [&h, &world_open(&base)?] {
            match lib(|| h.get_array_metadata("x")) {
                Out::Ok(x) if serde_json::to_value(&x).unwrap() == m.json() => (),
                o => return Err(format!("metadata that was there before: {:?}", o)),
            }
            match read_chunk(h, "x", &m.zarr(), Kind::U1, &[0]) {
                Out::Ok(Some(d)) if d == [1, 2] => (),
                o => return Err(format!("a chunk that was there before: {:?}", o)),
            }
        }
        rep.count("adopted");
    }
    let after = tree::all(dir);
    for i in 0..3 {
        let p = spelling(dir, name, &[], r, rep);
        match go(i == 0, &p) {
            Out::Ok(h) => version(&h)?,
            o => return Err(format!("opening {:?}: {:?}", p, o.map(|_| "a hierarchy"))),
        }
        if tree::all(dir) != after {
            return Err(format!("opening {:?} changed {:?}", p, tree::diff(&after, &tree::all(dir))));
        }
        rep.count("reopened");
    }
    Ok(())
}

fn world_open(p: &Path) -> Result<FilesystemHierarchy, String> {
    match go(false, p) {
        Out::Ok(h) => Ok(h),
        o => Err(format!("opening {:?}: {:?}", p, o.map(|_| "a hierarchy"))),
    }
}

/// An entry point as other software may have written it.
fn doc_text(r: &mut Rng, suffix: &str) -> String {
    let mut fields = vec![
        format!("\"zarr_format\": \"{}\"", URI),
        format!("\"metadata_encoding\": \"{}\"", URI),
        format!("\"metadata_key_suffix\": {}", Value::from(suffix)),
        match r.below(3) {
            0 => "\"extensions\": [{\"extension\": \"https://example.org/e\", \"must_understand\": false, \"configuration\": {\"a\": 1}}]".to_string(),
            1 => "\"extensions\": [ ]".to_string(),
            _ => "\"extensions\":[]".to_string(),
        },
    ];
    r.shuffle(&mut fields);
    match r.below(3) {
        0 => format!("{{{}}}", fields.join(",")),
        1 => format!("{{\n    {}\n}}\n", fields.join(",\n    ")),
        _ => format!("\t{{\r\n{} }}", fields.join(" , ")),
    }
}

struct One {
    name: String,
    world: World,
    /// Where meta or data is if it is elsewhere, through a symbolic link.
    elsewhere: Vec<(&'static str, String)>,
    /// A handle that stays open.
    arena: Arena<FilesystemHierarchy>,
}

fn copy(a: &Path, b: &Path) {
    std::fs::create_dir(b).expect("HARNESS: mkdir");
    for (k, v) in tree::all(a) {
        if k.ends_with('/') {
            std::fs::create_dir(b.join(k)).expect("HARNESS: mkdir");
        } else {
            std::fs::write(b.join(k), v).expect("HARNESS: write");
        }
    }
}

/// Hierarchies beside and in each other.
fn several(dir: &Path, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let mut names = vec!["h".to_string()];
    for _ in 0..r.range(1, 3) {
        let b = r.pick(&names).clone();
        let n = match r.below(8) {
            0 => format!("{}x", b),
            1 => format!("{}/inner", b),
            2 => format!("{}/zarr_json", b),
            3 => format!("{}.json", b),
            4 => format!("{}/datas/meta", b),
            5 => "g".to_string(),
            6 => "meta".to_string(),
            _ => r.pick(&["é x/%41#?", " h", "~", "$h", "a\nb", "h*"]).to_string(),
        };
        // Names that differ in what is easily overlooked.
        let n = match r.below(8) {
            0 => format!("{} ", n),
            1 => format!("{}\n", n),
            _ => n,
        };
        names.push(n);
    }
    names.sort();
    names.dedup();
    r.shuffle(&mut names);
    let o = world::Opts { max_chunk_bytes: 100, arrays: 2, groups: 1, extra: false, ..Default::default() };
    let mut all: Vec<One> = vec![];
    for n in &names {
        let base = dir.join(n);
        let suffix = *r.pick(&arena::SUFFIXES);
        let own = r.bool();
        if own {
            std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
            std::fs::write(base.join("zarr.json"), doc_text(r, suffix)).expect("HARNESS: write");
        }
        let suffix = if own { suffix } else { ".json" };
        let h = match go(true, &base) {
            Out::Ok(h) => h,
            o => return Err(format!("open_or_create {}: {:?}", n, o.map(|_| "a hierarchy"))),
        };
        let arena = Arena { handles: vec![h], backing: Backing::Dir(base) };
        let world = World::create(&arena, suffix, &o, r);
        let mut elsewhere = vec![];
        if r.chance(1, 4) {
            for top in ["meta", "data"] {
                let to = format!("store{}{}", all.len(), top);
                if r.bool() && dir.join(n).join(top).is_dir() {
                    std::fs::rename(dir.join(n).join(top), dir.join(&to)).expect("HARNESS: rename");
                    std::os::unix::fs::symlink(dir.join(&to), dir.join(n).join(top)).expect("HARNESS: symlink");
                    rep.count("elsewhere");
                    elsewhere.push((top, to));
                }
            }
        }
        all.push(One { name: n.clone(), world, elsewhere, arena });
    }
    let mut links = vec![];
    for (i, n) in names.iter().enumerate() {
        if r.bool() {
            let l = format!("link{}", i);
            let to = if r.bool() { PathBuf::from(n) } else { dir.join(n) };
            std::os::unix::fs::symlink(to, dir.join(&l)).expect("HARNESS: symlink");
            links.push((l, n.clone()));
        }
    }
    if r.bool() {
        std::fs::create_dir_all(dir.join("deep/er")).expect("HARNESS: mkdir");
        std::os::unix::fs::symlink("deep/er", dir.join("up")).expect("HARNESS: symlink");
    }
    rep.case["hierarchies"] = json!(all.iter().map(|a| json!([a.name, a.world.suffix])).collect::<Vec<_>>());
    rep.evaluations += 1;
    rep.add("hierarchies", all.len() as u64);
    let mut trace: Vec<Value> = vec![];
    let mut now: Tree = tree::all(dir);
    let mut moves = 0;
    for _ in 0..r.range(4, 14) {
        let k = r.usize(all.len());
        let mut name = all[k].name.clone();
        // Directories are hierarchies wherever they are. (Inner ones and links do not follow.)
        let alone = all.iter().all(|x| x.name == name || !world::is_below(&x.name, &name) && !world::is_below(&name, &x.name));
        if alone && r.chance(1, 8) && std::env::set_current_dir(dir).is_ok() {
            moves += 1;
            let to = format!("moved{}", moves);
            let what = match r.below(3) {
                1 if !all[k].elsewhere.is_empty() => 0,
                x => x,
            };
            let (a, b) = (dir.join(&name), dir.join(&to));
            match what {
                0 => std::fs::rename(&a, &b).expect("HARNESS: rename"),
                1 => copy(&a, &b),
                _ => {
                    // Another hierarchy takes its place, and it that one's.
                    let mut others: Vec<usize> = (0..all.len()).filter(|&j| j != k).collect();
                    others.retain(|&j| all.iter().enumerate().all(|(i, x)| i == j || !world::is_below(&x.name, &all[j].name) && !world::is_below(&all[j].name, &x.name)));
                    if let Some(&j) = others.first() {
                        let c = dir.join(&all[j].name);
                        std::fs::rename(&a, &b).expect("HARNESS: rename");
                        std::fs::rename(&c, &a).expect("HARNESS: rename");
                        std::fs::rename(&b, &c).expect("HARNESS: rename");
                        let other = all[j].name.clone();
                        for (i, n) in [(k, other), (j, name.clone())] {
                            let base = dir.join(&n);
                            all[i].arena = Arena { handles: vec![world_open(&base)?], backing: Backing::Dir(base) };
                            all[i].name = n;
                        }
                        rep.count("swapped");
                    }
                }
            }
            if what < 2 {
                links.retain(|l| what == 1 || l.1 != name);
                let one = One {
                    name: to.clone(),
                    world: all[k].world.clone(),
                    elsewhere: all[k].elsewhere.clone(),
                    arena: Arena { handles: vec![world_open(&b)?], backing: Backing::Dir(b) },
                };
                if what == 0 {
                    all[k] = one;
                } else {
                    all.push(one);
                }
                rep.count(if what == 0 { "moved" } else { "copied" });
            }
            trace.push(json!(format!("{} {}", ["moved", "copied", "swapped"][what as usize], name)));
            now = tree::all(dir);
            name = all[k].name.clone();
        }
        let act = loop {
            let x = if r.chance(1, 3) { all[k].world.gen_read(r) } else { all[k].world.gen_write(r, &o) };
            match x {
                // They see the directories of inner hierarchies.
                Act::StoreGet { .. } | Act::StoreExists { .. } | Act::StoreListDir { .. } | Act::StoreListPrefix { .. } => (),
                x => break x,
            }
        };
        // By which handle.
        let One { world: w, arena: a, elsewhere, .. } = &mut all[k];
        let fresh;
        let h = match r.below(5) {
            0 => &a.handles[0],
            1 => {
                fresh = a.handles[0].clone();
                rep.count("by_clones");
                &fresh
            }
            _ => {
                let create = r.bool();
                let p = spelling(dir, &name, &links, r, rep);
                rep.case["opened"] = json!(p.to_string_lossy());
                fresh = match go(create, &p) {
                    Out::Ok(h) => h,
                    o => return Err(format!("opening {:?}: {:?}", p, o.map(|_| "a hierarchy"))),
                };
                version(&fresh)?;
                let t = tree::all(dir);
                if t != now {
                    return Err(format!("opening {:?} changed {:?}", p, tree::diff(&now, &t)));
                }
                rep.count("reopened");
                &fresh
            }
        };
        trace.push(json!([name, act.show()]));
        rep.case["history"] = json!(trace);
        rep.count(act.name());
        match world::perform(h, w, &act) {
            Out::Ok(g) if !w.refused(&act) => w.judge(&act, &g).map_err(|e| format!("{} of {} gives {}", act.show(), name, e))?,
            Out::Err(..) if w.refused(&act) => rep.count("refused"),
            o => return Err(format!("{} of {}: {:?}", act.show(), name, o)),
        }
        w.apply(&act);
        // Where it went.
        let t = tree::all(dir);
        for d in tree::diff(&now, &t) {
            let mut key = d[1..].to_string();
            if let Some((top, to)) = elsewhere.iter().find(|e| d[1..].starts_with(&format!("{}/", e.1))) {
                key = format!("{}/{}{}", name, top, &key[to.len()..]);
            }
            let ok = !act.is_read() && key.strip_prefix(&format!("{}/", name)).map_or(false, |k| k.starts_with("meta/") || k.starts_with("data/"));
            if !ok {
                return Err(format!("{} of {} changed {}", act.show(), name, d));
            }
        }
        now = t;
        if r.chance(1, 3) {
            // What other handles see.
            let j = r.usize(all.len());
            let x = &all[j];
            rep.add("reads_after", x.world.verify(&x.arena.handles[0], &|_| false).map_err(|e| format!("in {}: {}", x.name, e))?);
        }
    }
    for x in &all {
        let p = spelling(dir, &x.name, &links, r, rep);
        let h = world_open(&p)?;
        rep.add("reads_after", x.world.verify(&h, &|_| false).map_err(|e| format!("in {} in the end: {}", x.name, e))?);
        // All documents have the declared suffix, and keys are those of the nodes and chunks.
        let base = dir.join(&x.name);
        let mut have: Vec<String> = vec![];
        for top in ["meta", "data"] {
            have.extend(tree::files(&base.join(top)).into_keys().map(|k| format!("{}/{}", top, k)));
        }
        have.retain(|k| all.iter().all(|y| !format!("{}/{}", x.name, k).starts_with(&format!("{}/", y.name)) || y.name == x.name || !y.name.starts_with(&x.name)));
        have.sort();
        let want: Vec<String> = x.world.keys().into_iter().filter(|k| k != "zarr.json").collect();
        if have != want {
            return Err(format!("{} has the keys {:?}, not {:?}", x.name, have, want));
        }
        rep.add("keys_compared", want.len() as u64);
    }
    rep.distinct(format!("{:?}{:?}", names, trace));
    rep.sample(json!({"hierarchies": rep.case["hierarchies"].clone(), "history": trace}));
    Ok(())
}
