//! C12: listings against the set of nodes and the map of keys.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use zarr::storage::ReadableStore;

use crate::arena::{self, Arena, Backing, Store};
use crate::gen;
use crate::on_arena;
use crate::props::c03::{array_key, group_key};
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

pub const EMPTY_DIR: &str = "C12-EMPTY-DIR";

/// Directories that had keys below them and were not removed themselves since.
#[derive(Default)]
pub struct Lingering {
    dirs: BTreeSet<String>,
}

impl Lingering {
    pub fn stored<'a>(&mut self, keys: impl Iterator<Item = &'a String>) {
        for k in keys {
            for (i, _) in k.match_indices('/') {
                self.dirs.insert(k[..i].to_string());
            }
        }
    }

    pub fn prefix_removed(&mut self, prefix: &str) {
        let below = format!("{}/", prefix);
        self.dirs.retain(|d| !(prefix.is_empty() || d == prefix || d.starts_with(&below)));
    }

    /// Whether a surplus prefix is the listed finding.
    pub fn excuses(&self, backing: &Backing, dir: &str, keys: &BTreeSet<String>) -> bool {
        let below = format!("{}/", dir);
        let on_disk = match backing {
            Backing::Dir(b) => b.join(dir).is_dir(),
            Backing::Mem(_) => false,
        };
        on_disk && self.dirs.contains(dir) && !keys.iter().any(|k| k.starts_with(&below))
    }
}

fn gen_name(r: &mut Rng) -> String {
    const NAMES: [&str; 26] = [
        "a", "b", "ab", "a.b", "a.array", "a.group", "a.json", "array", "group", "json", ".a", "..a", "...", "é", "日本", "a b", "A",
        "data", "meta", "root", "a.array.x", "x.group.json5", "-", "%2f", crate::gen::MEDIUM, crate::gen::LONG
];
    NAMES[r.usize(NAMES.len())].to_string()
}

fn gen_path(r: &mut Rng, depth: u64) -> String {
    let n = r.range(1, depth);
    (0..n).map(|_| gen_name(r)).collect::<Vec<_>>().join("/")
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    if r.chance(1, 3) {
        return store_level(cx, r, rep);
    }
    let suffix = *r.pick(&arena::SUFFIXES);
    rep.case["suffix"] = json!(suffix);
    on_arena!(cx, r, 7, 2, suffix, a => nodes(&a, suffix, r, rep))
}

/// Names ending like a metadata document of this hierarchy are ambiguous as file names.
fn usable(path: &str, suffix: &str) -> bool {
    path.split('/').all(|n| !n.ends_with(&format!(".array{}", suffix)) && !n.ends_with(&format!(".group{}", suffix)))
}

fn nodes<H: Store>(a: &Arena<H>, suffix: &str, r: &mut Rng, rep: &mut Report) {
    let mut explicit: BTreeMap<String, bool> = BTreeMap::new();
    let mut linger = Lingering::default();
    let mut trace: Vec<Value> = vec![];
    let mut pool: Vec<String> = (0..r.range(2, 8)).map(|_| gen_path(r, 4)).collect();
    for _ in 0..3 {
        let p = r.pick(&pool).clone();
        pool.push(match r.below(4) {
            0 => format!("{}/{}", p, gen_name(r)),
            1 => format!("{}b", p),
            2 => p.split('/').next().unwrap().to_string(),
            _ => format!("{}.array", p),
        });
    }
    if r.chance(1, 4) {
        pool.push(String::new());
    }
    pool.retain(|p| usable(p, suffix));
    pool.sort();
    pool.dedup();
    if pool.is_empty() {
        return;
    }
    rep.case["store"] = json!(a.backing.name());
    // Other files next to the documents.
    let mut strays = vec![];
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let dir = if r.bool() { String::new() } else { r.pick(&pool).clone() };
            let name = r.pick(&["notes.txt", "x.array", "y.group", "w.arrayjson", "v.array.bak", "json", "groups.gz", "u.array.JSON", "t.GROUP.json", "s.array.json~", "r.array..json", "q.arrays.json", "p.array.json.lock", "array.json5"]).to_string();
            if [".array", ".group"].iter().any(|k| name.ends_with(&format!("{}{}", k, suffix))) {
                continue;
            }
            let key = if dir.is_empty() { format!("meta/root/{}", name) } else { format!("meta/root/{}/{}", dir, name) };
            // Nor may it stand in the way of a node.
            if a.files().keys().any(|k| k.starts_with(&format!("{}/", key))) || pool.iter().any(|p| format!("meta/root/{}/", p).starts_with(&format!("{}/", key))) {
                continue;
            }
            a.backing.put(&key, b"{}");
            strays.push(key);
        }
        rep.count("with_stray_files");
    }
    if let (Backing::Dir(base), true) = (&a.backing, r.chance(1, 8)) {
        use std::os::unix::ffi::OsStrExt;
        let d = base.join("meta/root");
        std::fs::create_dir_all(&d).expect("HARNESS: mkdir");
        std::fs::write(d.join(std::ffi::OsStr::from_bytes(b"no\xffname.array.json")), b"{}").expect("HARNESS: write");
        std::os::unix::fs::symlink("nowhere", d.join("dangling.array.json")).expect("HARNESS: symlink");
        rep.count("with_unreadable_names");
        // Removing dangling links is not specified.
        pool.retain(|p| !p.is_empty());
    }
    if pool.is_empty() {
        return;
    }
    // Prefixes that contain a stray file but no node.
    let stray_dirs: BTreeSet<String> = strays
        .iter()
        .flat_map(|k| {
            let p = k["meta/root/".len()..].to_string();
            p.match_indices('/').map(|(i, _)| p[..i].to_string()).collect::<Vec<_>>()
        })
        .collect();
    linger.stored(a.files().keys());
    for _ in 0..r.range(2, 14) {
        let path = r.pick(&pool).clone();
        let shown = gen::decorate(r, &path);
        let h = a.any(r);
        match r.below(8) {
            0..=5 => {
                if explicit.contains_key(&path) {
                    continue;
                }
                let array = r.bool();
                trace.push(json!([if array { "create_array" } else { "create_group" }, shown]));
                rep.case["history"] = json!(trace);
                let m = Meta::new(&[4, 4], &[2, 2], Kind::U1);
                if array {
                    gen::create_array(h, &shown, &m);
                } else {
                    gen::must("creating a group", lib(|| h.create_group(&shown)));
                }
                explicit.insert(path.clone(), array);
                if array && r.chance(1, 3) {
                    gen::must("writing a chunk", write_chunk(h, &shown, &m.zarr(), m.kind, &[1, 0], &[1, 2, 3, 4]));
                }
                if r.chance(1, 12) && !array {
                    // A second document of the same name is no second node.
                    a.backing.put(&array_key(&path, suffix), m.json().to_string().as_bytes());
                    rep.count("two_documents");
                }
            }
            _ => {
                trace.push(json!(["remove", shown]));
                rep.case["history"] = json!(trace);
                gen::must("removing a node", lib(|| h.remove(&shown)));
                let below = format!("{}/", path);
                explicit.retain(|p, _| !(path.is_empty() || *p == path || p.starts_with(&below)));
                let meta = if path.is_empty() { "meta/root".into() } else { format!("meta/root/{}", path) };
                linger.prefix_removed(&meta);
                linger.prefix_removed(&meta.replacen("meta", "data", 1));
                rep.count("removals");
            }
        }
        let files = a.files();
        linger.stored(files.keys());
        for p in explicit.keys() {
            let k = [array_key(p, suffix), group_key(p, suffix)];
            if !k.iter().any(|k| files.contains_key(k)) {
                panic!("node {:?} has no document", p);
            }
        }
        let v = View { files: &files, explicit: &explicit, stray_dirs: &stray_dirs, pool: &pool, linger: &linger };
        if !node_listings(a, &v, &path, r, rep) || !store_listings(a, r, rep, &linger) {
            return;
        }
    }
    if let (Backing::Dir(base), true) = (&a.backing, r.chance(1, 6)) {
        // The same with parts of the hierarchy elsewhere, behind symbolic links.
        let mut files = a.files();
        files.retain(|k, v| !k.contains('\u{fffd}') && !v.starts_with(b"-> "));
        let moved = base.with_file_name("elsewhere");
        std::fs::create_dir_all(&moved).expect("HARNESS: mkdir");
        for i in 0..r.range(1, 4) {
            let Some(k) = files.keys().filter(|k| *k != "zarr.json").nth(r.usize(files.len())).cloned() else { continue };
            // A file or a directory on the way to it.
            let ends: Vec<usize> = k.match_indices('/').map(|(i, _)| i).chain([k.len()]).collect();
            let at = base.join(&k[..*r.pick(&ends)]);
            let to = moved.join(format!("{}", i));
            if at.is_symlink() {
                continue;
            }
            std::fs::rename(&at, &to).expect("HARNESS: rename");
            let to = if r.chance(1, 3) {
                let second = moved.join(format!("link{}", i));
                std::os::unix::fs::symlink(&to, &second).expect("HARNESS: symlink");
                second
            } else {
                to
            };
            std::os::unix::fs::symlink(&to, &at).expect("HARNESS: symlink");
            rep.count(if to.is_dir() { "linked_directories" } else { "linked_files" });
        }
        rep.case["history"] = json!([trace, "moved behind links"]);
        for _ in 0..3 {
            let path = r.pick(&pool).clone();
            let v = View { files: &files, explicit: &explicit, stray_dirs: &stray_dirs, pool: &pool, linger: &linger };
            if !node_listings(a, &v, &path, r, rep) || !key_listings(a, &files, r, rep, &linger) {
                return;
            }
        }
    }
    rep.distinct(format!("{}{}{:?}", a.backing.name(), suffix, trace));
    rep.count(a.backing.name());
    rep.sample(json!({"store": a.backing.name(), "suffix": suffix, "history": trace}));
}

/// What a hierarchy should look like.
struct View<'a> {
    files: &'a BTreeMap<String, Vec<u8>>,
    explicit: &'a BTreeMap<String, bool>,
    stray_dirs: &'a BTreeSet<String>,
    pool: &'a Vec<String>,
    linger: &'a Lingering,
}

fn bad(rep: &mut Report, message: String) -> bool {
    rep.violation(message);
    false
}

/// Compare listings of nodes with the nodes there are.
fn node_listings<H: Store>(a: &Arena<H>, v: &View, path: &str, r: &mut Rng, rep: &mut Report) -> bool {
    let keys: BTreeSet<String> = v.files.keys().cloned().collect();
    let mut queries: Vec<String> = vec![String::new(), path.to_string(), gen_path(r, 2)];
    queries.extend((0..3).map(|_| r.pick(v.pool).rsplitn(2, '/').last().unwrap().to_string()));
    for q in queries {
        let shown = if q.is_empty() { r.pick(&["", "/", "//"]).to_string() } else { gen::decorate(r, &q) };
        let below = if q.is_empty() { q.clone() } else { format!("{}/", q) };
        let want: BTreeSet<String> = v.explicit
            .keys()
            .filter(|p| !p.is_empty())
            .filter_map(|p| p.strip_prefix(&below))
            .map(|p| p.split('/').next().unwrap().to_string())
            .collect();
        let got = lib(|| a.any(r).list_nodes(&shown));
        rep.evaluations += 1;
        rep.add("entries", want.len() as u64);
        let mut got = match got {
            Out::Ok(g) => g,
            o => return bad(rep, format!("listing {:?}: {:?}", shown, o)),
        };
        got.sort();
        let n = got.len();
        got.dedup();
        if got.len() != n {
            return bad(rep, format!("listing {:?} has duplicates: {:?}", shown, got));
        }
        for w in &want {
            if !got.contains(w) {
                return bad(rep, format!("listing {:?} lacks {:?}: {:?}", shown, w, got));
            }
        }
        for g in &got {
            let full = format!("{}{}", below, g);
            if want.contains(g) || v.stray_dirs.contains(&full) {
                continue;
            }
            let dir = format!("meta/root/{}", full);
            if v.linger.excuses(&a.backing, &dir, &keys) {
                rep.known_finding(EMPTY_DIR, format!("listing {:?} gives {:?}, of which only an empty directory is left", shown, g));
                continue;
            }
            return bad(rep, format!("listing {:?} gives {:?}, which is neither a node nor contains one (nodes {:?})", shown, g, v.explicit.keys()));
        }
    }
    true
}

fn trim(k: &str) -> String {
    k.trim_start_matches('/').to_string()
}

/// Compare store-level listings with the files there are.
pub fn store_listings<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report, linger: &Lingering) -> bool {
    let mut files = a.files();
    // Files that are no keys.
    files.retain(|k, v| !k.contains('\u{fffd}') && !v.starts_with(b"-> "));
    key_listings(a, &files, r, rep, linger)
}

fn key_listings<H: Store>(a: &Arena<H>, files: &BTreeMap<String, Vec<u8>>, r: &mut Rng, rep: &mut Report, linger: &Lingering) -> bool {
    let keys: BTreeSet<String> = files.keys().cloned().collect();
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    dirs.insert(String::new());
    for k in &keys {
        for (i, _) in k.match_indices('/') {
            dirs.insert(k[..i].to_string());
        }
    }
    let dirs: Vec<String> = dirs.into_iter().collect();
    let mut queries: Vec<String> = (0..3).map(|_| r.pick(&dirs).clone()).collect();
    queries.extend([String::new(), "nothing".into(), "meta/nothing/x".into()]);
    for q in queries {
        let shown = match r.below(5) {
            0 => format!("/{}", q),
            1 if !q.is_empty() => format!("{}/", q),
            2 => format!("/{}/", q).replace("//", "/"),
            _ => q.clone(),
        };
        let below = if q.is_empty() { q.clone() } else { format!("{}/", q) };
        let h = a.any(r);
        let all: Vec<String> = keys.iter().filter(|k| k.starts_with(&below)).cloned().collect();
        let want_keys: Vec<String> = all.iter().filter(|k| !k[below.len()..].contains('/')).cloned().collect();
        let want_dirs: BTreeSet<String> = all
            .iter()
            .filter_map(|k| k[below.len()..].find('/').map(|i| k[..below.len() + i].to_string()))
            .collect();
        rep.evaluations += 2;
        let (got_keys, got_dirs) = match lib(|| h.list_dir(&shown)) {
            Out::Ok((k, d)) => (k, d),
            o => {
                rep.violation(format!("list_dir({:?}): {:?}", shown, o));
                return false;
            }
        };
        let mut k: Vec<String> = got_keys.iter().map(|k| trim(k)).collect();
        k.sort();
        let mut d: Vec<String> = got_dirs.iter().map(|k| trim(k).trim_end_matches('/').to_string()).collect();
        d.sort();
        let mut extra = 0;
        for g in &d {
            if !want_dirs.contains(g) {
                if linger.excuses(&a.backing, g, &keys) {
                    rep.known_finding(EMPTY_DIR, format!("list_dir({:?}) gives the prefix {:?}, of which only an empty directory is left", shown, g));
                    extra += 1;
                    continue;
                }
                rep.violation(format!("list_dir({:?}) gives the prefix {:?}, but no key is below it", shown, g));
                return false;
            }
        }
        if k != want_keys || d.len() != want_dirs.len() + extra || want_dirs.iter().any(|w| !d.contains(w)) {
            rep.violation(format!("list_dir({:?}) gives {:?} and {:?}, expected {:?} and {:?}", shown, k, d, want_keys, want_dirs));
            return false;
        }
        let got = match lib(|| if q.is_empty() && r.bool() { h.list() } else { h.list_prefix(&shown) }) {
            Out::Ok(g) => g,
            o => {
                rep.violation(format!("list_prefix({:?}): {:?}", shown, o));
                return false;
            }
        };
        let mut g: Vec<String> = got.iter().map(|k| trim(k)).collect();
        g.sort();
        if g != all {
            rep.violation(format!("list_prefix({:?}) gives {:?}, expected {:?}", shown, g, all));
            return false;
        }
        rep.add("keys_listed", g.len() as u64);
        // They can be fetched as they were given.
        for key in got.iter().take(6) {
            let v = lib(|| {
                use std::io::Read;
                let mut b = vec![];
                match ReadableStore::get(h, key)? {
                    Some(mut x) => x.read_to_end(&mut b).map(|_| Some(b)),
                    None => Ok(None),
                }
            });
            if v != Out::Ok(files.get(&trim(key)).cloned()) {
                rep.violation(format!("the listed key {:?} can not be fetched: {}", key, v.class()));
                return false;
            }
        }
    }
    true
}

/// Random keys set and erased at store level.
fn store_level(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    on_arena!(cx, r, 7, 2, a => keys(&a, r, rep))
}

fn keys<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report) {
    let mut linger = Lingering::default();
    let mut trace: Vec<Value> = vec![];
    rep.case["store"] = json!(a.backing.name());
    for _ in 0..r.range(2, 12) {
        let h = a.any(r);
        let files = a.files();
        match r.below(6) {
            0..=3 => {
                let key = gen_path(r, 5);
                let path = PathBuf::from(&key);
                // No key is also a prefix of another.
                let conflict = files.keys().any(|k| {
                    let k = PathBuf::from(k);
                    k != path && (k.starts_with(&path) || path.starts_with(&k))
                });
                let below = format!("{}/", key);
                if conflict || linger.dirs.contains(&key) || linger.dirs.iter().any(|d| d.starts_with(&below)) {
                    continue;
                }
                let v = r.usize(40);
                let v = r.bytes(v);
                trace.push(json!(["set", key]));
                rep.case["history"] = json!(trace);
                gen::must("setting a key", lib(|| h.set(&key, |mut w| std::io::Write::write_all(&mut w, &v).and_then(|()| std::io::Write::flush(&mut w)))));
            }
            4 => {
                if let Some(k) = files.keys().nth(r.usize(files.len().max(1))).cloned() {
                    trace.push(json!(["erase", k]));
                    rep.case["history"] = json!(trace);
                    gen::must("erasing a key", lib(|| h.erase(&k)));
                }
            }
            _ => {
                if let Some(k) = files.keys().nth(r.usize(files.len().max(1))).cloned() {
                    if let Some(i) = k.rfind('/') {
                        trace.push(json!(["erase_prefix", k[..i]]));
                        rep.case["history"] = json!(trace);
                        gen::must("erasing a prefix", lib(|| h.erase_prefix(&k[..i])));
                        linger.prefix_removed(&k[..i]);
                    }
                }
            }
        }
        linger.stored(a.files().keys());
        if !store_listings(a, r, rep, &linger) {
            return;
        }
    }
    rep.count("store_level");
    rep.distinct(format!("{}{:?}", a.backing.name(), trace));
}
