//! Random arrays, node paths and hierarchies.

use serde_json::{json, Value};
use std::path::Path;
use zarr::prelude::*;

use crate::rng::Rng;
use crate::types::*;

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_rank: u64,
    pub max_chunk_bytes: usize,
    pub max_chunks: u64,
    pub codecs: bool,
    /// Codec settings out of their range.
    pub odd: bool,
    pub extended: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { max_rank: 4, max_chunk_bytes: 1 << 12, max_chunks: 64, codecs: true, odd: true, extended: true }
    }
}

pub fn kind(r: &mut Rng) -> Kind {
    *r.pick(&KINDS)
}

/// Array metadata with small grids.
pub fn meta(r: &mut Rng, o: &Opts) -> Meta {
    let kind = kind(r);
    let rank = match r.below(12) {
        0 => 0,
        1..=3 => 1,
        4..=7 => 2.min(o.max_rank),
        _ => r.range(1, o.max_rank.max(1)),
    };
    let max_elems = (o.max_chunk_bytes / kind.size()).max(1) as u64;
    let mut chunk: Vec<u32> = vec![];
    let mut left = match r.below(4) {
        0 => max_elems,
        1 => max_elems.min(600),
        _ => max_elems.min(64),
    };
    for _ in 0..rank {
        let c = match r.below(5) {
            0 => 1,
            1 => r.range(1, left),
            2 => r.range(1, left.min(3)),
            _ => r.range(1, left.min(12)),
        };
        chunk.push(c as u32);
        left = (left / c).max(1);
    }
    r.shuffle(&mut chunk);
    let mut grid_left = r.range(1, o.max_chunks);
    let mut shape = vec![];
    for &c in &chunk {
        let g = r.range(1, grid_left.min(6));
        grid_left = (grid_left / g).max(1);
        let c = c as u64;
        // Whole multiples, partial last chunks, arrays smaller than a chunk.
        shape.push(match r.below(3) {
            0 => g * c,
            1 => (g - 1) * c + r.range(1, c),
            _ => r.range(1, g * c),
        });
    }
    let mut m = Meta::new(&shape, &chunk, kind);
    m.big = r.bool();
    m.c_order = r.bool();
    m.sep = r.pick(&["/", "/", "/", ".", ".", "-", "_", ",", "--", "ab"]).to_string();
    m.fill = fill(r, kind);
    if o.codecs {
        let names = codec_names();
        let name = *r.pick(&names);
        let odd = o.odd && r.chance(1, 4);
        m.codec = gen_codec(r, name, odd);
    }
    m.extended = o.extended && r.chance(1, 10);
    if r.chance(1, 4) {
        m.attrs.insert("k".into(), json!([1, null, "x"]));
    }
    m
}

/// A fill value the kind can represent.
pub fn fill(r: &mut Rng, kind: Kind) -> Option<Value> {
    match r.below(5) {
        0 => return None,
        1 => return Some(Value::Null),
        _ => (),
    }
    Some(fill_value(r, kind))
}

pub fn fill_value(r: &mut Rng, kind: Kind) -> Value {
    if kind == Kind::Bool {
        return json!(r.bool());
    }
    if let Some((lo, hi)) = kind.int_range() {
        let x = match r.below(4) {
            0 => lo,
            1 => hi,
            2 => 1,
            _ => lo + (r.u64() as i128).rem_euclid(hi - lo + 1),
        };
        return if x < 0 { json!(x as i64) } else { json!(x as u64) };
    }
    match r.below(8) {
        0 => json!("NaN"),
        1 => json!("Infinity"),
        2 => json!("-Infinity"),
        3 => json!(0.5),
        4 => json!(-3.25),
        5 => json!(1.0),
        6 => json!(r.range(0, 1000) as f64 / 8.0),
        _ => json!(-(r.range(0, 2000) as i64)),
    }
}

/// The element of a fill value, in little-endian bytes.
pub fn fill_bytes(kind: Kind, fill: &Option<Value>) -> Vec<u8> {
    let v = match fill {
        None | Some(Value::Null) => return vec![0; kind.size()],
        Some(v) => v,
    };
    if kind == Kind::Bool {
        return vec![v.as_bool().expect("HARNESS: bool fill") as u8];
    }
    if kind.int_range().is_some() {
        let x = v.as_i64().map(|x| x as u64).or_else(|| v.as_u64()).expect("HARNESS: int fill");
        return x.to_le_bytes()[..kind.size()].to_vec();
    }
    let x: f64 = match v {
        Value::String(s) => match s.as_str() {
            "NaN" => f64::NAN,
            "Infinity" => f64::INFINITY,
            "-Infinity" => f64::NEG_INFINITY,
            _ => panic!("HARNESS: float fill"),
        },
        v => v.as_f64().expect("HARNESS: float fill"),
    };
    match kind {
        Kind::F2 => half::f16::from_f64(x).to_bits().to_le_bytes().to_vec(),
        Kind::F4 => (x as f32).to_bits().to_le_bytes().to_vec(),
        _ => x.to_bits().to_le_bytes().to_vec(),
    }
}

/// Equality of elements, except that any NaN fill equals any other.
pub fn same_fill(kind: Kind, a: &[u8], b: &[u8]) -> bool {
    a == b || (is_nan(kind, a) && is_nan(kind, b))
}

pub fn is_nan(kind: Kind, e: &[u8]) -> bool {
    match kind {
        Kind::F2 => half::f16::take(e).is_nan(),
        Kind::F4 => f32::take(e).is_nan(),
        Kind::F8 => f64::take(e).is_nan(),
        _ => false,
    }
}

/// Node names, some of which resemble the storage layout.
/// Long, but not longer than files may be named with the extensions of documents.
pub const LONG: &str = "a_name_of_two_hundred_characters________________________________________________________________________\
________________________________________________________________________________________________and_one";

pub const MEDIUM: &str = "a-name-of-seventy-characters-which-is-longer-than-most-names-are-in-the-y";

pub const NAMES: [&str; 50] = [
    "a", "b", "foo", "a.b", "a.array", "a.group", "group", "array", "x.json", "json", ".hidden", "..x", "x..", "...", "with space",
    "ünï", "日本", "data", "meta", "root", "zarr.json", "A", "1", "c", "a~b", "-", "%2e", "a\\b", "a:b", "a.b.c",
    " a", "a ", " ", "\ta", "a\n", "a.", "á", "a\u{301}", "Foo", "q.array.json", "\u{a0}a", "0", "\u{1}a", "*", "?b", "{}", "#", "\"", MEDIUM, LONG
];

pub fn name(r: &mut Rng) -> String {
    if r.chance(1, 5) {
        format!("n{}", r.below(100))
    } else {
        r.pick(&NAMES).to_string()
    }
}

/// A node path without leading or trailing slashes.
pub fn path(r: &mut Rng, max_depth: u64) -> String {
    let n = r.range(1, max_depth);
    (0..n).map(|_| name(r)).collect::<Vec<_>>().join("/")
}

/// The same node path with insignificant slashes.
pub fn decorate(r: &mut Rng, p: &str) -> String {
    match r.below(5) {
        0 => format!("/{}", p),
        1 => format!("{}/", p),
        2 => format!("//{}//", p),
        _ => p.to_string(),
    }
}

pub fn open(base: &Path) -> FilesystemHierarchy {
    match lib(|| FilesystemHierarchy::open(base)) {
        Out::Ok(h) => h,
        o => panic!("opening the hierarchy: {:?}", o),
    }
}

pub fn create(base: &Path) -> FilesystemHierarchy {
    match lib(|| FilesystemHierarchy::open_or_create(base)) {
        Out::Ok(h) => h,
        o => panic!("creating the hierarchy: {:?}", o),
    }
}

/// A hierarchy with its own metadata key suffix.
pub fn create_with_suffix(base: &Path, suffix: &str) -> FilesystemHierarchy {
    std::fs::create_dir_all(base).expect("HARNESS: directory");
    let e = crate::mem::entry_point(suffix);
    std::fs::write(base.join("zarr.json"), serde_json::to_vec(&e).unwrap()).expect("HARNESS: entry point");
    open(base)
}

pub fn must<T>(what: &str, o: Out<T>) -> T {
    match o {
        Out::Ok(x) => x,
        Out::Err(k, m) => panic!("{}: error {:?}: {}", what, k, m),
        Out::Panic(m) => panic!("{}: panic: {}", what, m),
    }
}

pub fn create_array<H: HierarchyWriter>(h: &H, path: &str, m: &Meta) -> ArrayMetadata {
    let z = m.zarr();
    must("creating an array", lib(|| h.create_array(path, &z)));
    z
}
