//! A model of a whole hierarchy: random worlds, operations on them, their expected
//! results and the keys they may change.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use zarr::prelude::*;
use zarr::storage::ReadableStore;

use crate::arena::{Arena, Store};
use crate::gen;
use crate::props::c03::{array_key, chunk_key, group_key};
use crate::props::c04::{gen_box, offset_in_chunk};
use crate::props::c08::gen_json;
use crate::rng::Rng;
use crate::types::*;

#[derive(Clone)]
pub struct Node {
    /// `None` for groups.
    pub array: Option<(Meta, ArrayMetadata)>,
    pub attrs: Map<String, Value>,
    /// Elements; those outside of the array's shape are unspecified after region writes.
    pub chunks: BTreeMap<Vec<u64>, Vec<u8>>,
}

#[derive(Clone)]
pub struct World {
    pub suffix: String,
    pub nodes: BTreeMap<String, Node>,
    /// Keys that belong to no node.
    pub extra: BTreeMap<String, Vec<u8>>,
    /// Paths to draw from.
    pub pool: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Act {
    WriteChunk { path: String, pos: Vec<u64>, data: Vec<u8> },
    DeleteChunk { path: String, pos: Vec<u64> },
    WriteRegion { path: String, offset: Vec<u64>, shape: Vec<u64>, data: Vec<u8>, layout: Layout },
    SetAttributes { path: String, attrs: Map<String, Value> },
    CreateGroup { path: String },
    CreateArray { path: String, meta: Box<Meta> },
    Remove { path: String },
    StoreSet { key: String, value: Vec<u8> },
    StoreErase { key: String },
    StoreErasePrefix { prefix: String },
    ReadChunk { path: String, pos: Vec<u64> },
    ReadChunkInto { path: String, pos: Vec<u64>, before: Vec<u8> },
    ReadRegion { path: String, offset: Vec<u64>, shape: Vec<u64> },
    ArrayMeta { path: String },
    Exists { path: String },
    ArrayExists { path: String },
    ListAttributes { path: String },
    ListNodes { path: String },
    StoreGet { key: String },
    StoreExists { key: String },
    StoreListDir { prefix: String },
    StoreListPrefix { prefix: String },
}
use Act::*;

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Unit,
    Bool(bool),
    Chunk(Option<Vec<u8>>),
    Region(Vec<u64>, Vec<u8>),
    Json(Value),
    Names(BTreeSet<String>, BTreeSet<String>),
    Bytes(Option<Vec<u8>>),
}

fn describe_bytes(d: &[u8]) -> String {
    if d.len() <= 24 {
        d.iter().map(|b| format!("{:02x}", b)).collect()
    } else {
        format!("{} bytes, hash {:x}", d.len(), crate::rng::hash_bytes(d))
    }
}

impl Act {
    pub fn is_read(&self) -> bool {
        matches!(
            self,
            ReadChunk { .. } | ReadChunkInto { .. } | ReadRegion { .. } | ArrayMeta { .. } | Exists { .. } | ArrayExists { .. }
                | ListAttributes { .. } | ListNodes { .. } | StoreGet { .. } | StoreExists { .. } | StoreListDir { .. } | StoreListPrefix { .. }
        )
    }

    pub fn name(&self) -> &'static str {
        match self {
            WriteChunk { .. } => "write_chunk",
            DeleteChunk { .. } => "delete_chunk",
            WriteRegion { .. } => "write_ndarray",
            SetAttributes { .. } => "set_attributes",
            CreateGroup { .. } => "create_group",
            CreateArray { .. } => "create_array",
            Remove { .. } => "remove",
            StoreSet { .. } => "set",
            StoreErase { .. } => "erase",
            StoreErasePrefix { .. } => "erase_prefix",
            ReadChunk { .. } => "read_chunk",
            ReadChunkInto { .. } => "read_chunk_into",
            ReadRegion { .. } => "read_ndarray",
            ArrayMeta { .. } => "get_array_metadata",
            Exists { .. } => "exists",
            ArrayExists { .. } => "array_exists",
            ListAttributes { .. } => "list_attributes",
            ListNodes { .. } => "list_nodes",
            StoreGet { .. } => "get",
            StoreExists { .. } => "store exists",
            StoreListDir { .. } => "list_dir",
            StoreListPrefix { .. } => "list_prefix",
        }
    }

    pub fn show(&self) -> Value {
        let n = self.name();
        match self {
            WriteChunk { path, pos, data } => json!([n, path, pos, describe_bytes(data)]),
            DeleteChunk { path, pos } | ReadChunk { path, pos } => json!([n, path, pos]),
            ReadChunkInto { path, pos, before } => json!([n, path, pos, describe_bytes(before)]),
            WriteRegion { path, offset, shape, data, layout } => json!([n, path, offset, shape, describe_bytes(data), format!("{:?}", layout)]),
            ReadRegion { path, offset, shape } => json!([n, path, offset, shape]),
            SetAttributes { path, attrs } => json!([n, path, attrs]),
            CreateArray { path, meta } => json!([n, path, meta.describe()]),
            CreateGroup { path } | Remove { path } | ArrayMeta { path } | Exists { path } | ArrayExists { path } | ListAttributes { path } | ListNodes { path } => {
                json!([n, path])
            }
            StoreSet { key, value } => json!([n, key, describe_bytes(value)]),
            StoreErase { key } | StoreGet { key } | StoreExists { key } => json!([n, key]),
            StoreErasePrefix { prefix } | StoreListDir { prefix } | StoreListPrefix { prefix } => json!([n, prefix]),
        }
    }
}

/// The path without its last component.
pub fn parent(p: &str) -> String {
    p.rfind('/').map_or(String::new(), |i| p[..i].to_string())
}

pub fn trim(p: &str) -> &str {
    p.trim_matches('/')
}

fn names(v: Vec<String>) -> BTreeSet<String> {
    v.into_iter().map(|k| trim(&k).to_string()).collect()
}

/// Whether `path` is `root` or below it.
pub fn is_below(path: &str, root: &str) -> bool {
    root.is_empty() || path == root || path.strip_prefix(root).map_or(false, |r| r.starts_with('/'))
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub arrays: u64,
    pub groups: u64,
    pub max_chunk_bytes: usize,
    pub extra: bool,
    pub codecs: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { arrays: 3, groups: 2, max_chunk_bytes: 256, extra: true, codecs: true }
    }
}

// Names do not begin with "c": a node's data must not meet its parent's chunks.
const NAMES: [&str; 16] = ["a", "b", "ab", "a.b", "a.array", "a.group", "A", "x.json", "é", "a b", "group", "..a", "data", "B", crate::gen::MEDIUM, crate::gen::LONG];

impl World {
    /// A random world, stored with the library.
    pub fn create<H: Store>(a: &Arena<H>, suffix: &str, o: &Opts, r: &mut Rng) -> World {
        let depth = 3;
        let path = |r: &mut Rng| -> String {
            let k = if r.bool() { 4 } else { NAMES.len() };
            (0..r.range(1, depth)).map(|_| NAMES[r.usize(k)]).collect::<Vec<_>>().join("/")
        };
        let mut pool: Vec<String> = (0..r.range(3, 6)).map(|_| path(r)).collect();
        for _ in 0..3 {
            let p = r.pick(&pool).clone();
            pool.push(match r.below(4) {
                0 => format!("{}/a", p),
                1 => format!("{}b", p),
                2 => p.split('/').next().unwrap().to_string(),
                _ => format!("{}.b", p),
            });
        }
        if r.chance(1, 5) {
            pool.push(String::new());
        }
        pool.sort();
        pool.dedup();
        let mut w = World { suffix: suffix.to_string(), nodes: BTreeMap::new(), extra: BTreeMap::new(), pool };
        r.shuffle(&mut w.pool);
        let paths = w.pool.clone();
        let h = &a.handles[0];
        let mut it = paths.into_iter();
        for i in 0..(r.range(1, o.arrays) + r.range(0, o.groups)) {
            let p = match it.next() {
                Some(p) => p,
                None => break,
            };
            let array = i == 0 || r.chance(o.arrays, o.arrays + o.groups);
            let act = if array { CreateArray { path: p, meta: Box::new(w.gen_meta(o, r)) } } else { CreateGroup { path: p } };
            w.must(h, &act);
        }
        for p in w.paths(true) {
            for pos in w.meta(&p).positions_some(r, 4) {
                let data = w.gen_chunk(r, &p);
                w.must(h, &WriteChunk { path: p.clone(), pos, data });
            }
        }
        for p in w.paths(false) {
            if r.bool() {
                let attrs = gen_attrs(r);
                w.must(h, &SetAttributes { path: p, attrs });
            }
        }
        if o.extra {
            for _ in 0..r.below(4) {
                let key = match r.below(5) {
                    0 => "README".to_string(),
                    1 => "meta/root/notes.txt".to_string(),
                    2 => "data/root/stray".to_string(),
                    3 => "data/other/key".to_string(),
                    _ => "other/key".to_string(),
                };
                w.extra.insert(key.clone(), r.bytes(5));
                a.backing.put(&key, &w.extra[&key]);
            }
        }
        w
    }

    pub fn gen_meta(&self, o: &Opts, r: &mut Rng) -> Meta {
        let g = gen::Opts { max_rank: 3, max_chunk_bytes: o.max_chunk_bytes, max_chunks: 8, codecs: o.codecs, odd: false, extended: true };
        let mut m = gen::meta(r, &g);
        if let Some(Value::String(_)) = m.fill {
            m.fill = None;
        }
        m
    }

    /// Perform an operation that must succeed.
    pub fn must<H: Store>(&mut self, h: &H, act: &Act) {
        let o = perform(h, self, act);
        if !o.is_ok() {
            panic!("{}: {:?}", act.show(), o);
        }
        self.apply(act);
    }

    /// Paths of the arrays, or of all nodes.
    pub fn paths(&self, arrays: bool) -> Vec<String> {
        self.nodes.iter().filter(|(_, n)| !arrays || n.array.is_some()).map(|(p, _)| p.clone()).collect()
    }

    pub fn meta(&self, path: &str) -> &Meta {
        &self.nodes[path].array.as_ref().expect("HARNESS: array").0
    }

    pub fn gen_chunk(&self, r: &mut Rng, path: &str) -> Vec<u8> {
        let m = self.meta(path);
        gen_data(r, m.kind, m.chunk_elems())
    }

    pub fn doc_key(&self, path: &str, array: bool) -> String {
        if array {
            array_key(path, &self.suffix)
        } else {
            group_key(path, &self.suffix)
        }
    }

    pub fn chunk_key(&self, path: &str, pos: &[u64]) -> String {
        chunk_key(path, pos, &self.meta(path).sep)
    }

    /// All keys there should be, except for the entry point.
    pub fn keys(&self) -> BTreeSet<String> {
        let mut k: BTreeSet<String> = self.extra.keys().cloned().collect();
        for (p, n) in &self.nodes {
            k.insert(self.doc_key(p, n.array.is_some()));
            k.extend(n.chunks.keys().map(|c| self.chunk_key(p, c)));
        }
        k
    }

    pub fn random_path(&self, r: &mut Rng, existing: bool) -> String {
        let p = self.paths(false);
        if existing && !p.is_empty() && r.chance(4, 5) {
            r.pick(&p).clone()
        } else {
            r.pick(&self.pool).clone()
        }
    }

    pub fn gen_read(&self, r: &mut Rng) -> Act {
        let arrays = self.paths(true);
        let k = r.below(14);
        if k < 6 && !arrays.is_empty() {
            let path = r.pick(&arrays).clone();
            let m = self.meta(&path);
            let pos = self.gen_pos(r, &path);
            return match k {
                0 | 1 => ReadChunk { path, pos },
                2 => {
                    let n = r.usize(m.chunk_elems() * 2 + 1);
                    let before = gen_data(r, m.kind, n);
                    ReadChunkInto { path, pos, before }
                }
                _ => {
                    let (offset, shape) = gen_box(r, &m.shape, 400, true);
                    ReadRegion { path, offset, shape }
                }
            };
        }
        let path = self.random_path(r, true);
        let keys: Vec<String> = self.keys().into_iter().collect();
        let key = if r.chance(1, 5) || keys.is_empty() { "no/such/key".to_string() } else { r.pick(&keys).clone() };
        let prefix = match r.below(4) {
            0 => String::new(),
            1 => "meta/root".into(),
            2 => "data".into(),
            _ => parent(&key),
        };
        match r.below(9) {
            0 => ArrayMeta { path },
            1 => Exists { path },
            2 => ArrayExists { path },
            3 => ListAttributes { path },
            4 => ListNodes { path: if r.bool() { path } else { parent(&path) } },
            5 => StoreGet { key },
            6 => StoreExists { key },
            7 => StoreListDir { prefix },
            _ => StoreListPrefix { prefix },
        }
    }

    pub fn gen_pos(&self, r: &mut Rng, path: &str) -> Vec<u64> {
        let m = self.meta(path);
        let stored: Vec<&Vec<u64>> = self.nodes[path].chunks.keys().collect();
        if !stored.is_empty() && r.bool() {
            return (*r.pick(&stored)).clone();
        }
        m.grid().iter().map(|&g| r.below(g)).collect()
    }

    pub fn gen_write(&self, r: &mut Rng, o: &Opts) -> Act {
        let arrays = self.paths(true);
        let k = r.below(16);
        if k < 10 && !arrays.is_empty() {
            let path = r.pick(&arrays).clone();
            let m = self.meta(&path);
            return match k {
                0..=3 => WriteChunk { pos: self.gen_pos(r, &path), data: self.gen_chunk(r, &path), path },
                4..=5 => DeleteChunk { pos: self.gen_pos(r, &path), path },
                _ => {
                    let (offset, shape) = gen_box(r, &m.shape, 400, true);
                    let n: u64 = shape.iter().product();
                    let data = gen_data(r, m.kind, n as usize);
                    WriteRegion { offset, shape, data, layout: *r.pick(&LAYOUTS), path }
                }
            };
        }
        match r.below(10) {
            0..=3 => SetAttributes { path: self.random_path(r, true), attrs: gen_attrs(r) },
            4 => CreateGroup { path: self.random_path(r, false) },
            5..=6 => CreateArray { path: self.random_path(r, false), meta: Box::new(self.gen_meta(o, r)) },
            _ => Remove { path: self.random_path(r, true) },
        }
    }

    /// Whether a key can be stored without being or having a prefix that is a key.
    pub fn free(&self, key: &str) -> bool {
        !self.keys().iter().any(|k| k != key && (is_below(k, key) || is_below(key, k)))
    }

    pub fn gen_store_write(&self, r: &mut Rng) -> Act {
        let keys: Vec<&String> = self.extra.keys().collect();
        let key = if keys.is_empty() || r.bool() {
            format!("{}/{}", r.pick(&["s", "s/t", "data/other", "meta/other"]), r.pick(&["k1", "k2", "k3.x"]))
        } else {
            (*r.pick(&keys)).clone()
        };
        match r.below(6) {
            0..=3 if self.free(&key) => {
                let n = r.usize(300);
                StoreSet { key, value: r.bytes(n) }
            }
            4 => StoreErasePrefix { prefix: r.pick(&["s", "s/t", "data/other", "nothing", "s/"]).to_string() },
            _ => StoreErase { key },
        }
    }

    /// The chunks that share an element with a box and the array.
    pub fn touched(&self, path: &str, offset: &[u64], shape: &[u64]) -> Vec<Vec<u64>> {
        let m = self.meta(path);
        let mut ranges = vec![];
        for d in 0..m.rank() {
            let (lo, hi) = (offset[d].min(m.shape[d]), (offset[d] + shape[d]).min(m.shape[d]));
            if lo >= hi {
                return vec![];
            }
            let c = m.chunk[d] as u64;
            ranges.push((lo / c, (hi - 1) / c));
        }
        let ext: Vec<u64> = ranges.iter().map(|(a, b)| b - a + 1).collect();
        coords(&ext).into_iter().map(|c| c.iter().zip(&ranges).map(|(c, r)| c + r.0).collect()).collect()
    }

    /// Keys whose value an operation may change, which it may create or remove.
    pub fn may_change(&self, act: &Act, key: &str) -> bool {
        match act {
            WriteChunk { path, pos, .. } | DeleteChunk { path, pos } => key == self.chunk_key(path, pos),
            WriteRegion { path, offset, shape, .. } => self.touched(path, offset, shape).iter().any(|c| key == self.chunk_key(path, c)),
            SetAttributes { path, .. } => self.nodes.get(path).map_or(false, |n| key == self.doc_key(path, n.array.is_some())),
            CreateGroup { path } => !self.nodes.contains_key(path) && key == self.doc_key(path, false),
            CreateArray { path, .. } => !self.nodes.contains_key(path) && key == self.doc_key(path, true),
            Remove { path } => {
                let below = |root: &str| is_below(key, &if path.is_empty() { root.to_string() } else { format!("{}/{}", root, path) });
                key == self.doc_key(path, true) || key == self.doc_key(path, false) || below("meta/root") || below("data/root")
            }
            StoreSet { key: k, .. } | StoreErase { key: k } => key == k,
            StoreErasePrefix { prefix } => is_below(key, trim(prefix)),
            _ => false,
        }
    }

    /// Whether the operation must be refused.
    pub fn refused(&self, act: &Act) -> bool {
        match act {
            SetAttributes { path, .. } | ListAttributes { path } => !self.nodes.contains_key(path),
            CreateArray { path, .. } => self.nodes.contains_key(path),
            CreateGroup { path } => self.nodes.get(path).map_or(false, |n| n.array.is_some()),
            ArrayMeta { path } => self.nodes.get(path).map_or(true, |n| n.array.is_none()),
            _ => false,
        }
    }

    pub fn element(&self, path: &str, at: &[u64]) -> Vec<u8> {
        let n = &self.nodes[path];
        let m = self.meta(path);
        let sz = m.kind.size();
        let pos: Vec<u64> = at.iter().zip(&m.chunk).map(|(x, &c)| x / c as u64).collect();
        let local: Vec<u64> = at.iter().zip(&m.chunk).map(|(x, &c)| x % c as u64).collect();
        match n.chunks.get(&pos) {
            Some(d) => {
                let i = offset_in_chunk(m, &local) * sz;
                d[i..i + sz].to_vec()
            }
            None => gen::fill_bytes(m.kind, &m.fill),
        }
    }

    /// Apply an operation that had its full effect.
    pub fn apply(&mut self, act: &Act) {
        if self.refused(act) {
            return;
        }
        match act {
            WriteChunk { path, pos, data } => {
                self.nodes.get_mut(path).unwrap().chunks.insert(pos.clone(), data.clone());
            }
            DeleteChunk { path, pos } => {
                self.nodes.get_mut(path).unwrap().chunks.remove(pos);
            }
            WriteRegion { path, offset, shape, data, .. } => {
                let m = self.meta(path).clone();
                let sz = m.kind.size();
                let fill: Vec<u8> = gen::fill_bytes(m.kind, &m.fill).into_iter().cycle().take(m.chunk_bytes()).collect();
                let touched = self.touched(path, offset, shape);
                let chunks = &mut self.nodes.get_mut(path).unwrap().chunks;
                for c in &touched {
                    chunks.entry(c.clone()).or_insert_with(|| fill.clone());
                }
                for (i, c) in coords(shape).into_iter().enumerate() {
                    let at: Vec<u64> = c.iter().zip(offset).map(|(a, b)| a + b).collect();
                    if at.iter().zip(&m.shape).any(|(a, s)| a >= s) {
                        continue;
                    }
                    let pos: Vec<u64> = at.iter().zip(&m.chunk).map(|(x, &c)| x / c as u64).collect();
                    let local: Vec<u64> = at.iter().zip(&m.chunk).map(|(x, &c)| x % c as u64).collect();
                    let j = offset_in_chunk(&m, &local) * sz;
                    chunks.get_mut(&pos).unwrap()[j..j + sz].copy_from_slice(&data[i * sz..(i + 1) * sz]);
                }
            }
            SetAttributes { path, attrs } => {
                self.nodes.get_mut(path).unwrap().attrs.extend(attrs.clone());
            }
            CreateGroup { path } => {
                self.nodes.entry(path.clone()).or_insert(Node { array: None, attrs: Map::new(), chunks: BTreeMap::new() });
            }
            CreateArray { path, meta } => {
                let n = Node { array: Some(((**meta).clone(), meta.zarr())), attrs: meta.attrs.clone(), chunks: BTreeMap::new() };
                self.nodes.insert(path.clone(), n);
            }
            Remove { path } => {
                self.nodes.retain(|p, _| !is_below(p, path));
                let root = |b: &str| if path.is_empty() { b.to_string() } else { format!("{}/{}", b, path) };
                let (m, d) = (root("meta/root"), root("data/root"));
                self.extra.retain(|k, _| !is_below(k, &m) && !is_below(k, &d));
            }
            StoreSet { key, value } => {
                self.extra.insert(key.clone(), value.clone());
            }
            StoreErase { key } => {
                self.extra.remove(key);
            }
            StoreErasePrefix { prefix } => self.extra.retain(|k, _| !is_below(k, trim(prefix))),
            _ => (),
        }
    }

    /// Whether a result is the expected one of a successful operation.
    pub fn judge(&self, act: &Act, got: &Res) -> Result<(), String> {
        let want = match act {
            ReadChunk { path, pos } | ReadChunkInto { path, pos, .. } => {
                let want = self.nodes[path].chunks.get(pos).cloned();
                if let (Some(w), Res::Chunk(Some(g))) = (&want, got) {
                    return if self.same_chunk(path, pos, w, g) { Ok(()) } else { Err(format!("other data than was written: {} instead of {}", describe_bytes(g), describe_bytes(w))) };
                }
                Res::Chunk(want)
            }
            ReadRegion { path, offset, shape } => {
                let m = self.meta(path);
                let sz = m.kind.size();
                if let Res::Region(s, b) = got {
                    if s != shape || b.len() as u64 != shape.iter().product::<u64>() * sz as u64 {
                        return Err(format!("a region of shape {:?}", s));
                    }
                    for (i, c) in coords(shape).into_iter().enumerate() {
                        let at: Vec<u64> = c.iter().zip(offset).map(|(a, b)| a + b).collect();
                        if at.iter().zip(&m.shape).all(|(a, s)| a < s) {
                            let e = self.element(path, &at);
                            if !gen::same_fill(m.kind, &e, &b[i * sz..(i + 1) * sz]) {
                                return Err(format!("element {:?} is {}, expected {}", at, describe_bytes(&b[i * sz..(i + 1) * sz]), describe_bytes(&e)));
                            }
                        }
                    }
                    return Ok(());
                }
                return Err("no region".into());
            }
            ArrayMeta { path } => {
                let mut m = self.meta(path).clone();
                m.attrs = self.nodes[path].attrs.clone();
                Res::Json(serde_json::to_value(m.zarr()).unwrap())
            }
            Exists { path } => Res::Bool(self.nodes.contains_key(path)),
            ArrayExists { path } => Res::Bool(self.nodes.get(path).map_or(false, |n| n.array.is_some())),
            ListAttributes { path } => Res::Json(Value::Object(self.nodes[path].attrs.clone())),
            DeleteChunk { .. } | StoreErase { .. } | StoreErasePrefix { .. } => Res::Bool(true),
            ListNodes { path } => {
                let want: BTreeSet<String> = self
                    .nodes
                    .keys()
                    .filter(|p| !p.is_empty() && *p != path && is_below(p, path))
                    .map(|p| trim(&p[path.len()..]).split('/').next().unwrap().to_string())
                    .collect();
                return match got {
                    // Directories without descendants: see C12.
                    Res::Names(g, _) if g.is_superset(&want) => Ok(()),
                    _ => Err(format!("{:?}, expected {:?}", got, want)),
                };
            }
            StoreListPrefix { prefix } | StoreListDir { prefix } => {
                let all: BTreeSet<String> = self.keys().into_iter().filter(|k| is_below(k, trim(prefix))).collect();
                return match got {
                    Res::Names(g, _) => {
                        let g: BTreeSet<String> = g.iter().filter(|k| *k != "zarr.json").cloned().collect();
                        let direct = matches!(act, StoreListDir { .. });
                        let n = if trim(prefix).is_empty() { 0 } else { trim(prefix).len() + 1 };
                        let want: BTreeSet<String> = all.into_iter().filter(|k| !direct || !k[n..].contains('/')).collect();
                        if g == want {
                            Ok(())
                        } else {
                            Err(format!("{:?}, expected {:?}", g, want))
                        }
                    }
                    _ => Err("no list".into()),
                };
            }
            StoreGet { key } => {
                return match (self.keys().contains(key), got) {
                    (true, Res::Bytes(Some(b))) => match self.extra.get(key) {
                        Some(v) if v != b => Err("other bytes than were set".into()),
                        _ => Ok(()),
                    },
                    (false, Res::Bytes(None)) => Ok(()),
                    (e, g) => Err(format!("{:?}, though exists is {}", g, e)),
                };
            }
            StoreExists { key } => Res::Bool(self.keys().contains(key)),
            _ => Res::Unit,
        };
        if *got == want {
            Ok(())
        } else {
            Err(format!("{:?}, expected {:?}", got, want))
        }
    }

    /// Judge the result of repeating an operation that had part of its effect, where
    /// `self` is the state that it leads to.
    pub fn judge_after(&self, before: &World, act: &Act, got: &Res) -> Result<(), String> {
        before.judge(act, got)
    }

    pub fn same_chunk(&self, path: &str, pos: &[u64], a: &[u8], b: &[u8]) -> bool {
        let m = self.meta(path);
        if a.len() != b.len() {
            return false;
        }
        if a == b {
            return true;
        }
        let sz = m.kind.size();
        let ext: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
        coords(&ext).iter().all(|c| {
            let inside = c.iter().zip(pos).zip(&ext).zip(&m.shape).all(|(((c, p), e), s)| p * e + c < *s);
            let i = offset_in_chunk(m, c) * sz;
            !inside || gen::same_fill(m.kind, &a[i..i + sz], &b[i..i + sz])
        })
    }

    /// Read everything back and compare it, except for what `skip` selects.
    pub fn verify<H: Store>(&self, h: &H, skip: &dyn Fn(&str) -> bool) -> Result<u64, String> {
        let mut n = 0;
        for (p, node) in &self.nodes {
            let doc = self.doc_key(p, node.array.is_some());
            if !skip(&doc) {
                let mut acts = vec![Exists { path: p.clone() }, ArrayExists { path: p.clone() }, ListAttributes { path: p.clone() }];
                if node.array.is_some() {
                    acts.push(ArrayMeta { path: p.clone() });
                }
                for a in acts {
                    self.check_one(h, &a)?;
                    n += 1;
                }
            }
            if node.array.is_some() {
                let mut pos = self.meta(p).positions();
                if pos.len() > 24 {
                    let keep: BTreeSet<&Vec<u64>> = node.chunks.keys().collect();
                    let mut i = 0;
                    pos.retain(|p| {
                        i += 1;
                        i < 16 || keep.contains(p)
                    });
                }
                for c in pos {
                    if !skip(&self.chunk_key(p, &c)) {
                        self.check_one(h, &ReadChunk { path: p.clone(), pos: c })?;
                        n += 1;
                    }
                }
            }
        }
        for k in self.extra.keys() {
            if !skip(k) {
                self.check_one(h, &StoreGet { key: k.clone() })?;
                n += 1;
            }
        }
        Ok(n)
    }

    fn check_one<H: Store>(&self, h: &H, a: &Act) -> Result<(), String> {
        match perform(h, self, a) {
            Out::Ok(g) => self.judge(a, &g).map_err(|e| format!("{} gives {}", a.show(), e)),
            o => Err(format!("{}: {:?}", a.show(), o)),
        }
    }
}

pub fn gen_attrs(r: &mut Rng) -> Map<String, Value> {
    let mut m: Map<String, Value> = (0..r.range(1, 3)).map(|_| (format!("k{}", r.below(5)), gen_json(r, 2))).collect();
    if r.chance(1, 8) {
        m.insert("long".into(), json!("x".repeat(r.range(1, 3000) as usize)));
    }
    m
}

/// Perform an operation with the library.
pub fn perform<H: Store>(h: &H, w: &World, act: &Act) -> Out<Res> {
    let array = |p: &String| w.nodes[p].array.as_ref().expect("HARNESS: array");
    match act {
        WriteChunk { path, pos, data } => {
            let (m, z) = array(path);
            write_chunk(h, path, z, m.kind, pos, data).map(|_| Res::Unit)
        }
        DeleteChunk { path, pos } => lib(|| h.delete_chunk(path, &array(path).1, pos)).map(Res::Bool),
        WriteRegion { path, offset, shape, data, layout } => {
            let (m, z) = array(path);
            write_region(h, path, z, m.kind, offset, shape, data, *layout).map(|_| Res::Unit)
        }
        SetAttributes { path, attrs } => lib(|| h.set_attributes(path, attrs.clone())).map(|_| Res::Unit),
        CreateGroup { path } => lib(|| h.create_group(path)).map(|_| Res::Unit),
        CreateArray { path, meta } => {
            let z = meta.zarr();
            lib(|| h.create_array(path, &z)).map(|_| Res::Unit)
        }
        Remove { path } => lib(|| h.remove(path)).map(|_| Res::Unit),
        StoreSet { key, value } => lib(|| h.set(key, |mut w| w.write_all(value).and_then(|()| w.flush()))).map(|_| Res::Unit),
        StoreErase { key } => lib(|| h.erase(key)).map(Res::Bool),
        StoreErasePrefix { prefix } => lib(|| h.erase_prefix(prefix)).map(Res::Bool),
        ReadChunk { path, pos } => {
            let (m, z) = array(path);
            read_chunk(h, path, z, m.kind, pos).map(Res::Chunk)
        }
        ReadChunkInto { path, pos, before } => {
            let (m, z) = array(path);
            let other: Vec<u64> = pos.iter().map(|p| p + 1).collect();
            let (o, d, _) = read_chunk_into(h, path, z, m.kind, pos, before, &other);
            o.map(|o| Res::Chunk(o.map(|()| d)))
        }
        ReadRegion { path, offset, shape } => {
            let (m, z) = array(path);
            read_region(h, path, z, m.kind, offset, shape).map(|(s, b)| Res::Region(s, b))
        }
        ArrayMeta { path } => lib(|| h.get_array_metadata(path)).map(|m| Res::Json(serde_json::to_value(m).unwrap())),
        Exists { path } => lib(|| HierarchyReader::exists(h, path)).map(Res::Bool),
        ArrayExists { path } => lib(|| h.array_exists(path)).map(Res::Bool),
        ListAttributes { path } => lib(|| h.list_attributes(path)).map(|m| Res::Json(Value::Object(m))),
        ListNodes { path } => lib(|| h.list_nodes(path)).map(|n| Res::Names(names(n), BTreeSet::new())),
        StoreGet { key } => lib(|| {
            let mut b = vec![];
            match h.get(key)? {
                Some(mut x) => x.read_to_end(&mut b).map(|_| Some(b)),
                None => Ok(None),
            }
        })
        .map(Res::Bytes),
        StoreExists { key } => lib(|| ReadableStore::exists(h, key)).map(Res::Bool),
        StoreListDir { prefix } => lib(|| h.list_dir(prefix)).map(|(k, p)| Res::Names(names(k), names(p))),
        StoreListPrefix { prefix } => lib(|| h.list_prefix(prefix)).map(|k| Res::Names(names(k), BTreeSet::new())),
    }
}
