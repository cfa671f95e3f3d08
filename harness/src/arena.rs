//! The same hierarchy code over a directory or an in-memory store, with the stored
//! bytes accessible to the oracle.

use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

use crate::gen;
use crate::mem::{Hostility, MemHierarchy};
use crate::rng::Rng;
use crate::tree::{self, Tree};
use crate::types::*;

pub trait Store: HierarchyReader + HierarchyWriter + HierarchyLister + ReadableStore + WriteableStore + ListableStore + Send + Sync {}
impl<T: HierarchyReader + HierarchyWriter + HierarchyLister + ReadableStore + WriteableStore + ListableStore + Send + Sync> Store for T {}

pub enum Backing {
    Dir(PathBuf),
    Mem(MemHierarchy),
}

impl Backing {
    pub fn files(&self) -> Tree {
        match self {
            Backing::Dir(d) => tree::files(d),
            Backing::Mem(m) => m.snapshot(),
        }
    }

    /// Store a value without the library.
    pub fn put(&self, key: &str, value: &[u8]) {
        match self {
            Backing::Dir(d) => {
                let f = d.join(key);
                std::fs::create_dir_all(f.parent().unwrap()).expect("HARNESS: mkdir");
                std::fs::write(f, value).expect("HARNESS: write");
            }
            Backing::Mem(m) => m.put(key, value.to_vec()),
        }
    }

    /// Make a value inaccessible.
    pub fn break_key(&self, key: &str) {
        match self {
            Backing::Dir(d) => {
                let f = d.join(key);
                std::fs::create_dir_all(f.parent().unwrap()).expect("HARNESS: mkdir");
                let _ = std::fs::remove_file(&f);
                // A symbolic link to itself.
                std::os::unix::fs::symlink(f.file_name().unwrap(), &f).expect("HARNESS: symlink");
            }
            Backing::Mem(m) => {
                m.inner.lock().unwrap().broken.insert(key.into());
            }
        }
    }

    /// Undo that, with a value or none.
    pub fn mend_key(&self, key: &str, value: Option<&[u8]>) {
        match self {
            Backing::Dir(d) => std::fs::remove_file(d.join(key)).expect("HARNESS: unlink"),
            Backing::Mem(m) => {
                let mut i = m.inner.lock().unwrap();
                i.broken.remove(key);
                i.data.remove(key);
            }
        }
        if let Some(v) = value {
            self.put(key, v);
        }
    }

    pub fn is_broken(&self, key: &str) -> bool {
        match self {
            Backing::Dir(d) => d.join(key).symlink_metadata().map_or(false, |m| m.file_type().is_symlink()),
            Backing::Mem(m) => m.inner.lock().unwrap().broken.contains(key),
        }
    }

    /// Remove a value without the library.
    pub fn delete(&self, key: &str) {
        match self {
            Backing::Dir(d) => std::fs::remove_file(d.join(key)).expect("HARNESS: unlink"),
            Backing::Mem(m) => {
                m.inner.lock().unwrap().data.remove(key);
            }
        }
    }

    /// Everything that is there, directories included.
    pub fn snapshot(&self) -> Tree {
        match self {
            Backing::Dir(d) => tree::all(d),
            b => b.files(),
        }
    }

    /// Bring back a snapshot, without the library.
    pub fn restore(&self, t: &Tree) {
        match self {
            Backing::Mem(m) => {
                let mut i = m.inner.lock().unwrap();
                i.data = t.iter().map(|(k, v)| (k.clone(), Arc::new(Mutex::new(v.clone())))).collect();
            }
            Backing::Dir(d) => {
                let now = tree::all(d);
                // Deeper entries come later.
                for k in now.keys().rev().filter(|k| !t.contains_key(*k)) {
                    if k.ends_with('/') {
                        std::fs::remove_dir(d.join(k)).expect("HARNESS: rmdir");
                    } else {
                        std::fs::remove_file(d.join(k)).expect("HARNESS: unlink");
                    }
                }
                for (k, v) in t.iter().filter(|(k, v)| now.get(*k) != Some(v)) {
                    if k.ends_with('/') {
                        std::fs::create_dir_all(d.join(k)).expect("HARNESS: mkdir");
                    } else {
                        self.put(k, v);
                    }
                }
            }
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Backing::Dir(_) => "directory",
            Backing::Mem(_) => "memory",
        }
    }
}

/// Several handles of one hierarchy.
pub struct Arena<H> {
    pub handles: Vec<H>,
    pub backing: Backing,
}

impl<H: Store> Arena<H> {
    pub fn any<'a>(&'a self, r: &mut Rng) -> &'a H {
        r.pick(&self.handles)
    }
    pub fn files(&self) -> Tree {
        self.backing.files()
    }
}

pub fn directory(base: &Path, n: usize) -> Arena<FilesystemHierarchy> {
    let mut handles = vec![gen::create(base)];
    for i in 1..n {
        handles.push(if i % 2 == 0 { gen::create(base) } else { gen::open(base) });
    }
    Arena { handles, backing: Backing::Dir(base.to_path_buf()) }
}

pub fn hostility(r: &mut Rng) -> Option<Hostility> {
    if r.chance(1, 3) {
        return None;
    }
    Some(Hostility {
        rng: Rng::new(r.u64()),
        max_io: *r.pick(&[0, 1, 2, 7, 100]),
        interrupt: *r.pick(&[0, 0, 5]),
        buffer: *r.pick(&[0, 0, 1, 16, 8192]),
    })
}

pub fn memory(r: &mut Rng, n: usize) -> Arena<MemHierarchy> {
    let m = MemHierarchy::new(hostility(r));
    Arena { handles: vec![m.clone(); n], backing: Backing::Mem(m) }
}

/// Metadata key suffixes of hierarchies.
pub const SUFFIXES: [&str; 7] = [".json", ".json", ".json", ".meta", ".zmeta.json", ".x", ".array"];

pub fn directory_with_suffix(base: &Path, n: usize, suffix: &str) -> Arena<FilesystemHierarchy> {
    gen::create_with_suffix(base, suffix);
    directory(base, n)
}

pub fn memory_with_suffix(r: &mut Rng, n: usize, suffix: &str) -> Arena<MemHierarchy> {
    let m = MemHierarchy::with_suffix(suffix, hostility(r));
    Arena { handles: vec![m.clone(); n], backing: Backing::Mem(m) }
}

/// Run a generic body over one of the two.
#[macro_export]
macro_rules! on_arena {
    ($cx:expr, $r:expr, $dir_chance:expr, $handles:expr, $a:ident => $body:expr) => {
        if $r.chance($dir_chance, 10) {
            let base = $cx.sub("h");
            let $a = $crate::arena::directory(&base, $handles);
            $body
        } else {
            let $a = $crate::arena::memory($r, $handles);
            $body
        }
    };
    ($cx:expr, $r:expr, $dir_chance:expr, $handles:expr, $suffix:expr, $a:ident => $body:expr) => {
        if $r.chance($dir_chance, 10) {
            let base = $cx.sub("h");
            let $a = $crate::arena::directory_with_suffix(&base, $handles, $suffix);
            $body
        } else {
            let $a = $crate::arena::memory_with_suffix($r, $handles, $suffix);
            $body
        }
    };
}

pub fn exists<H: Store>(h: &H, path: &str) -> Out<bool> {
    lib(|| HierarchyReader::exists(h, path))
}
