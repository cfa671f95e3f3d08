//! Element types, array metadata and typed library operations over plain bytes.
//!
//! Elements are represented by their little-endian bytes (booleans by 0 or 1), so
//! that all comparisons are bit for bit.

use half::f16;
use serde_json::{json, Map, Value};
use smallvec::SmallVec;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zarr::ndarray::BoundingBox;
use zarr::ndarray::{ZarrNdarrayReader, ZarrNdarrayWriter};
use zarr::prelude::*;

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Bool,
    I1,
    I2,
    I4,
    I8,
    U1,
    U2,
    U4,
    U8,
    F2,
    F4,
    F8,
}
use Kind::*;

pub const KINDS: [Kind; 12] = [Bool, I1, I2, I4, I8, U1, U2, U4, U8, F2, F4, F8];

impl Kind {
    pub fn size(self) -> usize {
        match self {
            Bool | I1 | U1 => 1,
            I2 | U2 | F2 => 2,
            I4 | U4 | F4 => 4,
            I8 | U8 | F8 => 8,
        }
    }

    pub fn has_endian(self) -> bool {
        self.size() > 1
    }

    /// The type string of the specification.
    pub fn type_string(self, big: bool) -> String {
        let e = if big { '>' } else { '<' };
        match self {
            Bool => "bool".into(),
            I1 => "i1".into(),
            U1 => "u1".into(),
            I2 => format!("{}i2", e),
            I4 => format!("{}i4", e),
            I8 => format!("{}i8", e),
            U2 => format!("{}u2", e),
            U4 => format!("{}u4", e),
            U8 => format!("{}u8", e),
            F2 => format!("{}f2", e),
            F4 => format!("{}f4", e),
            F8 => format!("{}f8", e),
        }
    }

    pub fn is_float(self) -> bool {
        matches!(self, F2 | F4 | F8)
    }

    pub fn int_range(self) -> Option<(i128, i128)> {
        Some(match self {
            I1 => (i8::MIN as i128, i8::MAX as i128),
            I2 => (i16::MIN as i128, i16::MAX as i128),
            I4 => (i32::MIN as i128, i32::MAX as i128),
            I8 => (i64::MIN as i128, i64::MAX as i128),
            U1 => (0, u8::MAX as i128),
            U2 => (0, u16::MAX as i128),
            U4 => (0, u32::MAX as i128),
            U8 => (0, u64::MAX as i128),
            _ => return None,
        })
    }
}

/// Rust element types.
pub trait Elem: ReflectedType + Copy + std::fmt::Debug {
    fn put(self, out: &mut Vec<u8>);
    fn take(b: &[u8]) -> Self;
}

macro_rules! elem_int {
    ($($t:ty),*) => {$(
        impl Elem for $t {
            fn put(self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_le_bytes()) }
            fn take(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
        }
    )*};
}
elem_int!(i8, i16, i32, i64, u8, u16, u32, u64);
impl Elem for bool {
    fn put(self, out: &mut Vec<u8>) {
        out.push(self as u8)
    }
    fn take(b: &[u8]) -> Self {
        b[0] != 0
    }
}
impl Elem for f32 {
    fn put(self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn take(b: &[u8]) -> Self {
        f32::from_bits(u32::from_le_bytes(b.try_into().unwrap()))
    }
}
impl Elem for f64 {
    fn put(self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn take(b: &[u8]) -> Self {
        f64::from_bits(u64::from_le_bytes(b.try_into().unwrap()))
    }
}
impl Elem for f16 {
    fn put(self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.to_bits().to_le_bytes())
    }
    fn take(b: &[u8]) -> Self {
        f16::from_bits(u16::from_le_bytes(b.try_into().unwrap()))
    }
}

pub fn to_bytes<T: Elem>(v: &[T]) -> Vec<u8> {
    let mut out = Vec::with_capacity(std::mem::size_of_val(v));
    v.iter().for_each(|x| x.put(&mut out));
    out
}

pub fn from_bytes<T: Elem>(b: &[u8]) -> Vec<T> {
    b.chunks_exact(std::mem::size_of::<T>()).map(T::take).collect()
}

/// Evaluate an expression with `$t` bound to the Rust type of a kind.
macro_rules! with_kind {
    ($kind:expr, $t:ident => $e:expr) => {
        match $kind {
            $crate::types::Kind::Bool => { type $t = bool; $e }
            $crate::types::Kind::I1 => { type $t = i8; $e }
            $crate::types::Kind::I2 => { type $t = i16; $e }
            $crate::types::Kind::I4 => { type $t = i32; $e }
            $crate::types::Kind::I8 => { type $t = i64; $e }
            $crate::types::Kind::U1 => { type $t = u8; $e }
            $crate::types::Kind::U2 => { type $t = u16; $e }
            $crate::types::Kind::U4 => { type $t = u32; $e }
            $crate::types::Kind::U8 => { type $t = u64; $e }
            $crate::types::Kind::F2 => { type $t = half::f16; $e }
            $crate::types::Kind::F4 => { type $t = f32; $e }
            $crate::types::Kind::F8 => { type $t = f64; $e }
        }
    };
}

/// Result of a library call.
#[derive(Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(ErrorKind, String),
    Panic(String),
}

impl<T> Out<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(..))
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err(k, m) => Out::Err(k, m),
            Out::Panic(m) => Out::Panic(m),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
    pub fn as_ref(&self) -> Out<&T> {
        match self {
            Out::Ok(x) => Out::Ok(x),
            Out::Err(k, m) => Out::Err(*k, m.clone()),
            Out::Panic(m) => Out::Panic(m.clone()),
        }
    }
    /// Short description without values.
    pub fn class(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(k, _) => format!("err:{:?}", k),
            Out::Panic(m) => format!("PANIC: {}", m),
        }
    }
}

impl<T: std::fmt::Debug> std::fmt::Debug for Out<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Out::Ok(x) => {
                let s = format!("{:?}", x);
                if s.len() > 300 {
                    write!(f, "Ok({}... {} chars)", s.chars().take(300).collect::<String>(), s.len())
                } else {
                    write!(f, "Ok({})", s)
                }
            }
            Out::Err(k, m) => write!(f, "Err({:?}: {})", k, m),
            Out::Panic(m) => write!(f, "PANIC({})", m),
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static IN_LIB: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Keep panics of library calls out of the terminal, and remember where they were.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_LIB.with(|c| c.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            default(info);
        }
    }));
}

/// Whether this thread is inside a library call.
pub fn in_lib() -> bool {
    IN_LIB.try_with(|c| c.get()).unwrap_or(false)
}

/// Call into the library.
pub fn lib<T>(f: impl FnOnce() -> Result<T, std::io::Error>) -> Out<T> {
    let was = IN_LIB.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(was));
    match r {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Err(e.kind(), e.to_string()),
        Err(_) => Out::Panic(
            LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into()),
        ),
    }
}

/// Call into the library where there is no `Result`.
pub fn lib_plain<T>(f: impl FnOnce() -> T) -> Out<T> {
    lib(|| Ok(f()))
}

/// Array metadata as the harness sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub shape: Vec<u64>,
    pub chunk: Vec<u32>,
    pub kind: Kind,
    pub big: bool,
    /// Row major ("C").
    pub c_order: bool,
    pub sep: String,
    /// `None`: entry missing.
    pub fill: Option<Value>,
    /// `None`: raw, entry missing.
    pub codec: Option<Value>,
    pub attrs: Map<String, Value>,
    pub extensions: Vec<Value>,
    /// Element type as extended type with the core type as its fallback.
    pub extended: bool,
}

impl Meta {
    pub fn new(shape: &[u64], chunk: &[u32], kind: Kind) -> Meta {
        Meta {
            shape: shape.to_vec(),
            chunk: chunk.to_vec(),
            kind,
            big: false,
            c_order: false,
            sep: "/".into(),
            fill: Some(Value::Null),
            codec: None,
            attrs: Map::new(),
            extensions: vec![],
            extended: false,
        }
    }

    pub fn dtype_json(&self) -> Value {
        let t = self.kind.type_string(self.big);
        if self.extended {
            json!({"extension": "https://example.org/ext/1.0", "type": "<X9[zz]", "fallback": t})
        } else {
            json!(t)
        }
    }

    pub fn json(&self) -> Value {
        let mut m = json!({
            "shape": self.shape,
            "data_type": self.dtype_json(),
            "chunk_grid": {"type": "regular", "chunk_shape": self.chunk, "separator": self.sep},
            "chunk_memory_layout": if self.c_order {"C"} else {"F"},
            "extensions": self.extensions,
            "attributes": self.attrs,
        });
        if let Some(f) = &self.fill {
            m["fill_value"] = f.clone();
        }
        if let Some(c) = &self.codec {
            m["compressor"] = c.clone();
        }
        m
    }

    pub fn zarr(&self) -> ArrayMetadata {
        match self.try_zarr() {
            Out::Ok(m) => m,
            o => panic!("metadata document refused: {:?} {}", o, self.json()),
        }
    }

    pub fn try_zarr(&self) -> Out<ArrayMetadata> {
        let s = self.json().to_string();
        lib(|| serde_json::from_str(&s).map_err(Into::into))
    }

    pub fn rank(&self) -> usize {
        self.shape.len()
    }

    pub fn chunk_elems(&self) -> usize {
        self.chunk.iter().map(|&c| c as usize).product()
    }

    pub fn chunk_bytes(&self) -> usize {
        self.chunk_elems() * self.kind.size()
    }

    pub fn grid(&self) -> Vec<u64> {
        self.shape.iter().zip(&self.chunk).map(|(&s, &c)| s.div_ceil(c as u64)).collect()
    }

    pub fn codec_name(&self) -> String {
        match &self.codec {
            None => "raw".into(),
            Some(c) => c["codec"].as_str().unwrap_or("?").rsplit('/').nth(1).map_or_else(
                || c["codec"].as_str().unwrap_or("?").to_string(),
                |s| s.to_string(),
            ),
        }
    }

    /// All in-bounds grid positions, in row-major order.
    pub fn positions(&self) -> Vec<Vec<u64>> {
        coords(&self.grid())
    }

    /// Some distinct in-bounds grid positions.
    pub fn positions_some(&self, r: &mut Rng, n: usize) -> Vec<Vec<u64>> {
        let g = self.grid();
        if g.contains(&0) {
            return vec![];
        }
        let mut v: Vec<Vec<u64>> = (0..n).map(|_| g.iter().map(|&e| r.below(e)).collect()).collect();
        v.sort();
        v.dedup();
        v
    }

    pub fn describe(&self) -> Value {
        json!({"shape": self.shape, "chunk": self.chunk, "type": self.dtype_json(),
            "order": if self.c_order {"C"} else {"F"}, "codec": self.codec, "fill": self.fill, "sep": self.sep})
    }
}

/// All coordinates below an extent, in row-major order.
pub fn coords(extent: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for &e in extent {
        let mut next = Vec::with_capacity(out.len() * e as usize);
        for c in &out {
            for i in 0..e {
                let mut d: Vec<u64> = c.clone();
                d.push(i);
                next.push(d);
            }
        }
        out = next;
    }
    out
}

pub fn gc(p: &[u64]) -> GridCoord {
    SmallVec::from_slice(p)
}

pub fn bbox(offset: &[u64], shape: &[u64]) -> BoundingBox {
    BoundingBox::new(gc(offset), gc(shape))
}

// Typed operations over bytes.

pub fn write_chunk<H: HierarchyWriter>(h: &H, path: &str, m: &ArrayMetadata, kind: Kind, pos: &[u64], data: &[u8]) -> Out<()> {
    with_kind!(kind, T => {
        let v: Vec<T> = from_bytes(data);
        // Owned and borrowed chunks take the same path in the library.
        if data.len() % 3 == 0 {
            let c = VecDataChunk::<T>::new(gc(pos), v);
            lib(|| h.write_chunk(path, m, &c))
        } else {
            let c = SliceDataChunk::<T, &[T]>::new(gc(pos), &v[..]);
            lib(|| h.write_chunk(path, m, &c))
        }
    })
}

/// Read a chunk; the position the chunk reports must be the requested one.
pub fn read_chunk<H: HierarchyReader>(h: &H, path: &str, m: &ArrayMetadata, kind: Kind, pos: &[u64]) -> Out<Option<Vec<u8>>> {
    with_kind!(kind, T => {
        lib(|| h.read_chunk::<T>(path, m, gc(pos))).map(|o| o.map(|c| {
            assert_eq!(c.get_grid_position(), pos, "returned chunk has another position");
            assert_eq!(c.get_num_elements() as usize, c.get_data().len());
            to_bytes(c.get_data())
        }))
    })
}

/// Read a chunk into a buffer that holds something else; returns the result and
/// what the buffer holds afterwards.
pub fn read_chunk_into<H: HierarchyReader>(h: &H, path: &str, m: &ArrayMetadata, kind: Kind, pos: &[u64], before: &[u8], before_pos: &[u64])
    -> (Out<Option<()>>, Vec<u8>, Vec<u64>) {
    with_kind!(kind, T => {
        let mut c = VecDataChunk::<T>::new(gc(before_pos), from_bytes(before));
        let r = lib(|| h.read_chunk_into::<T, VecDataChunk<T>>(path, m, gc(pos), &mut c));
        let p = c.get_grid_position().to_vec();
        (r, to_bytes(c.get_data()), p)
    })
}

/// Result of a region read: shape, and elements in row-major order.
pub fn nd_bytes<T: Elem>(a: ndarray::ArrayViewD<T>) -> (Vec<u64>, Vec<u8>) {
    let shape = a.shape().iter().map(|&s| s as u64).collect();
    let mut out = Vec::new();
    // Logical (row-major) order regardless of memory layout.
    a.iter().for_each(|x| x.put(&mut out));
    (shape, out)
}

pub fn read_region<H: HierarchyReader>(h: &H, path: &str, m: &ArrayMetadata, kind: Kind, offset: &[u64], shape: &[u64]) -> Out<(Vec<u64>, Vec<u8>)> {
    with_kind!(kind, T => {
        lib(|| h.read_ndarray::<T>(path, m, &bbox(offset, shape))).map(|a| nd_bytes(a.view()))
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    C,
    F,
    /// A strided view into a larger array.
    Strided,
    /// A view with axes in another order than they are stored in.
    Permuted,
    /// A view with some negative strides, whose axes may be permuted too.
    Reversed,
}
pub const LAYOUTS: [Layout; 6] = [Layout::C, Layout::F, Layout::Strided, Layout::Permuted, Layout::Permuted, Layout::Reversed];

/// Call `f` with a view of the row-major `data` in a memory layout.
pub fn with_view<T: Elem, R>(shape: &[u64], data: &[u8], layout: Layout, f: impl FnOnce(ndarray::ArrayViewD<T>) -> R) -> R {
    use ndarray::{ArrayD, IxDyn, ShapeBuilder, SliceInfo, SliceOrIndex};
    let v: Vec<T> = from_bytes(data);
    let sh: Vec<usize> = shape.iter().map(|&s| s as usize).collect();
    let base = ArrayD::from_shape_vec(IxDyn(&sh), v).expect("harness: shape");
    match layout {
        Layout::C => f(base.view()),
        Layout::F => {
            let mut a = ArrayD::from_elem(IxDyn(&sh).f(), T::default());
            a.assign(&base);
            f(a.view())
        }
        Layout::Strided => {
            let big: Vec<usize> = sh.iter().map(|s| s * 2 + 3).collect();
            let mut a = ArrayD::from_elem(IxDyn(&big), T::default());
            let sl: Vec<SliceOrIndex> = sh
                .iter()
                .map(|&s| SliceOrIndex::Slice { start: 1, end: Some(1 + 2 * s as isize), step: 2 })
                .collect();
            let info = SliceInfo::<_, IxDyn>::new(sl).unwrap();
            a.slice_mut(info.as_ref()).assign(&base);
            f(a.slice(info.as_ref()))
        }
        Layout::Permuted | Layout::Reversed => {
            // Which axes depends on the data, to be the same when a case is repeated.
            let mut r = Rng::new(crate::rng::hash_bytes(data));
            let n = sh.len();
            let mut stored: Vec<usize> = (0..n).collect();
            if layout == Layout::Permuted || r.chance(1, 3) {
                if r.bool() {
                    stored.reverse();
                }
                match r.below(4) {
                    0 => (),
                    // Almost in the order of C or Fortran.
                    1 | 2 if n > 1 => stored.swap(r.usize(n), r.usize(n)),
                    _ => {
                        for i in (1..n).rev() {
                            stored.swap(i, r.usize(i + 1));
                        }
                    }
                }
            }
            // Axis i of the stored array is axis stored[i] of the view.
            let mut of_view = vec![0; n];
            stored.iter().enumerate().for_each(|(i, &x)| of_view[x] = i);
            let inverted: Vec<bool> = (0..n).map(|_| layout == Layout::Reversed && r.chance(2, 3)).collect();
            let shape: Vec<usize> = stored.iter().map(|&x| sh[x]).collect();
            let mut a = ArrayD::from_elem(IxDyn(&shape), T::default());
            {
                let mut v = a.view_mut().permuted_axes(IxDyn(&of_view));
                for ax in 0..n {
                    if inverted[ax] {
                        v.invert_axis(ndarray::Axis(ax));
                    }
                }
                v.assign(&base);
            }
            let mut v = a.view().permuted_axes(IxDyn(&of_view));
            for ax in 0..n {
                if inverted[ax] {
                    v.invert_axis(ndarray::Axis(ax));
                }
            }
            f(v)
        }
    }
}

pub fn write_region<H: HierarchyWriter>(h: &H, path: &str, m: &ArrayMetadata, kind: Kind, offset: &[u64], shape: &[u64], data: &[u8], layout: Layout) -> Out<()> {
    with_kind!(kind, T => {
        with_view::<T, _>(shape, data, layout, |v| lib(|| h.write_ndarray(path, m, gc(offset), v)))
    })
}

// Random values.

/// Random elements: random bit patterns, special values, runs and ramps.
pub fn gen_data(r: &mut Rng, kind: Kind, n: usize) -> Vec<u8> {
    let sz = kind.size();
    if kind == Bool {
        return match r.below(3) {
            0 => vec![r.bool() as u8; n],
            _ => r.bytes(n).iter().map(|b| b & 1).collect(),
        };
    }
    match r.below(6) {
        // Random bits, which include signalling and quiet NaNs.
        0 | 1 => r.bytes(n * sz),
        // Constant.
        2 => {
            let e = special(r, kind);
            e.iter().cloned().cycle().take(n * sz).collect()
        }
        // Special values.
        3 => (0..n).flat_map(|_| special(r, kind)).collect(),
        // Ramp.
        4 => {
            let s = r.u64();
            (0..n as u64).flat_map(|i| s.wrapping_add(i).to_le_bytes()[..sz].to_vec()).collect()
        }
        // Mostly zero with some random elements.
        _ => {
            let mut v = vec![0; n * sz];
            for _ in 0..n.min(5) {
                let i = r.usize(n);
                let e = r.bytes(sz);
                v[i * sz..(i + 1) * sz].copy_from_slice(&e);
            }
            v
        }
    }
}

/// One special value of a kind.
pub fn special(r: &mut Rng, kind: Kind) -> Vec<u8> {
    let x: u64 = match kind {
        F2 => *r.pick(&[0, 0x8000, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0xfe55, 0x0001, 0x3c00, 0x7bff]),
        F4 => *r.pick(&[
            0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc1_2345, 1, 0x3f80_0000, 0x7fa0_0000,
        ]),
        F8 => *r.pick(&[
            0,
            1 << 63,
            0x7ff0 << 48,
            0xfff0 << 48,
            0x7ff8 << 48,
            (0x7ff0 << 48) + 1,
            (0xfff4 << 48) + 0xabcdef,
            1,
            0x3ff0 << 48,
        ]),
        _ => *r.pick(&[0, 1, u64::MAX, 1 << 63, u64::MAX >> 1, 0x8080_8080_8080_8080, 0x0102_0304_0506_0708, 0x7f, 0x80, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000]),
    };
    x.to_le_bytes()[..kind.size()].to_vec()
}

/// Elements distinct from each other as far as the type allows, tagged by `tag`.
pub fn tagged_data(kind: Kind, n: usize, tag: u64) -> Vec<u8> {
    let sz = kind.size();
    let mut out = Vec::with_capacity(n * sz);
    for i in 0..n as u64 {
        let x = crate::rng::mix(tag.wrapping_mul(0x1_0000_0001).wrapping_add(i));
        if kind == Bool {
            out.push((x & 1) as u8);
        } else {
            out.extend_from_slice(&x.to_le_bytes()[..sz]);
        }
    }
    out
}

/// The codecs of this build with their configuration spaces.
pub fn codec_names() -> Vec<&'static str> {
    #[allow(unused_mut)]
    let mut v = vec!["raw"];
    #[cfg(any(feature = "native", feature = "pure"))]
    v.extend(["bzip2", "xz"]);
    #[cfg(any(feature = "native", feature = "pure", feature = "purest"))]
    v.extend(["gzip", "lz4"]);
    v
}

pub const GZIP_URL: &str = "https://purl.org/zarr/spec/codec/gzip/1.0";

/// A codec document; sometimes with settings left out or out of range.
pub fn gen_codec(r: &mut Rng, name: &str, odd: bool) -> Option<Value> {
    let conf = |k: &str, v: Value| {
        let mut m = Map::new();
        m.insert(k.into(), v);
        Value::Object(m)
    };
    Some(match name {
        "raw" => return if r.bool() { None } else { Some(json!({"codec": "raw", "configuration": null})) },
        "gzip" => {
            let lv = if odd { *r.pick(&[-1, -7, 10, 99, i32::MIN, i32::MAX]) } else { r.range(0, 9) as i32 };
            let c = if r.chance(1, 6) { json!({}) } else { conf("level", json!(lv)) };
            json!({"codec": GZIP_URL, "configuration": c})
        }
        "bzip2" => {
            let b = if odd { *r.pick(&[0, 10, 100, 255]) } else { r.range(1, 9) };
            let c = if r.chance(1, 6) { json!({}) } else { conf("blockSize", json!(b)) };
            json!({"codec": "bzip2", "configuration": c})
        }
        "xz" => {
            // High presets need hundreds of megabytes and tens of milliseconds.
            let p: i32 = if odd {
                *r.pick(&[-1, 10, 255, i32::MAX, i32::MIN, i32::MIN + 3])
            } else if r.chance(1, 20) {
                r.range(7, 9) as i32
            } else {
                r.range(0, 4) as i32
            };
            let c = if r.chance(1, 12) { json!({}) } else { conf("preset", json!(p)) };
            json!({"codec": "xz", "configuration": c})
        }
        "lz4" => {
            let b: i64 = if odd {
                *r.pick(&[0, -1, 1, 65_537, 300_000, 5_000_000, i32::MAX as i64, i32::MIN as i64])
            } else {
                *r.pick(&[65_536, 262_144, 1_048_576, 4_194_304])
            };
            let c = if r.chance(1, 6) { json!({}) } else { conf("blockSize", json!(b)) };
            json!({"codec": "lz4", "configuration": c})
        }
        _ => unreachable!("codec {}", name),
    })
}
