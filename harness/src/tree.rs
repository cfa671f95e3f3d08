//! Snapshots of directory trees.

use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

/// Relative path to file content; directories end in a slash and have none.
pub type Tree = BTreeMap<String, Vec<u8>>;

/// Files only.
pub fn files(base: &Path) -> Tree {
    let mut t = Tree::new();
    walk(base, "", &mut t, false);
    t
}

/// Files, directories and symlinks.
pub fn all(base: &Path) -> Tree {
    let mut t = Tree::new();
    walk(base, "", &mut t, true);
    t
}

fn walk(base: &Path, rel: &str, t: &mut Tree, dirs: bool) {
    let dir = base.join(rel);
    let mut entries: Vec<_> = match fs::read_dir(&dir) {
        Ok(e) => e.map(|e| e.expect("entry")).collect(),
        Err(_) => return,
    };
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name } else { format!("{}/{}", rel, name) };
        let ty = e.file_type().expect("type");
        if ty.is_dir() {
            if dirs {
                t.insert(format!("{}/", r), vec![]);
            }
            walk(base, &r, t, dirs);
        } else if ty.is_symlink() {
            let target = fs::read_link(e.path()).expect("link");
            t.insert(r, format!("-> {}", target.display()).into_bytes());
        } else {
            t.insert(r, fs::read(e.path()).expect("read"));
        }
    }
}

/// Paths that differ between two trees.
pub fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut d = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => d.push(format!("-{}", k)),
            Some(w) if w != v => d.push(format!("~{}", k)),
            _ => (),
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            d.push(format!("+{}", k));
        }
    }
    d
}

/// Bare names of differing paths.
pub fn diff_names(a: &Tree, b: &Tree) -> Vec<String> {
    diff(a, b).into_iter().map(|d| d[1..].to_owned()).collect()
}

/// Remove a directory tree below the scratch directory.
pub fn remove(base: &Path, scratch: &Path) {
    assert!(base.starts_with(scratch) && base != scratch);
    let _ = fs::remove_dir_all(base);
}
