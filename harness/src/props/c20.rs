//! C20: data is accessible as the array's own element type only.

use half::f16;
use serde_json::{json, Value};
use std::io::{Read, Write};
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::data_type::{DataType, ExtensibleDataType, FloatSize, IntSize};
use zarr::prelude::*;
use zarr::{data_type_match, data_type_rstype_replace};

use crate::arena::{Arena, Store};
use crate::gen;
use crate::on_arena;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

/// Element types that arrays have and that data is accessed as.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Core(Kind),
    /// Opaque elements of some bytes.
    Raw(usize),
    /// An extended type without a core type to fall back to.
    Unknown(Kind),
}

const ACCESS: [Ty; 16] = [
    Ty::Core(Kind::Bool),
    Ty::Core(Kind::I1),
    Ty::Core(Kind::I2),
    Ty::Core(Kind::I4),
    Ty::Core(Kind::I8),
    Ty::Core(Kind::U1),
    Ty::Core(Kind::U2),
    Ty::Core(Kind::U4),
    Ty::Core(Kind::U8),
    Ty::Core(Kind::F2),
    Ty::Core(Kind::F4),
    Ty::Core(Kind::F8),
    Ty::Raw(1),
    Ty::Raw(2),
    Ty::Raw(3),
    Ty::Raw(4),
];

impl Ty {
    fn size(self) -> usize {
        match self {
            Ty::Core(k) | Ty::Unknown(k) => k.size(),
            Ty::Raw(n) => n,
        }
    }
}

/// A chunk of opaque elements, as a user of the library would define it.
struct RawChunk<const N: usize> {
    pos: GridCoord,
    data: Vec<[u8; N]>,
}

impl<const N: usize> DataChunk<[u8; N]> for RawChunk<N> {
    fn get_grid_position(&self) -> &[u64] {
        &self.pos
    }
    fn get_data(&self) -> &[[u8; N]] {
        &self.data
    }
    fn get_num_elements(&self) -> u32 {
        self.data.len() as u32
    }
}

impl<const N: usize> WriteableDataChunk for RawChunk<N> {
    fn write_data<W: Write>(&self, mut w: W, _: &ArrayMetadata) -> std::io::Result<()> {
        self.data.iter().try_for_each(|e| w.write_all(e))
    }
}

impl<const N: usize> ReadableDataChunk for RawChunk<N> {
    fn read_data<R: Read>(&mut self, mut r: R, _: &ArrayMetadata) -> std::io::Result<()> {
        self.data.iter_mut().try_for_each(|e| r.read_exact(e))
    }
}

impl<const N: usize> ReinitDataChunk<[u8; N]> for RawChunk<N> {
    fn reinitialize(&mut self, pos: &GridCoord, n: u32) {
        self.pos = pos.clone();
        self.data.resize(n as usize, [0; N]);
    }
    fn reinitialize_with<B: DataChunk<[u8; N]>>(&mut self, other: &B) {
        self.pos = other.get_grid_position().into();
        self.data = other.get_data().to_vec();
    }
}

macro_rules! with_raw {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            4 => { const $N: usize = 4; $e }
            _ => unreachable!(),
        }
    };
}

fn write<H: Store>(h: &H, path: &str, z: &ArrayMetadata, ty: Ty, pos: &[u64], data: &[u8]) -> Out<()> {
    match ty {
        Ty::Core(k) | Ty::Unknown(k) => write_chunk(h, path, z, k, pos, data),
        Ty::Raw(n) => with_raw!(n, N => {
            let c = RawChunk::<N> { pos: gc(pos), data: data.chunks_exact(N).map(|c| c.try_into().unwrap()).collect() };
            lib(|| h.write_chunk::<[u8; N], _>(path, z, &c))
        }),
    }
}

fn read<H: Store>(h: &H, path: &str, z: &ArrayMetadata, ty: Ty, pos: &[u64], into: bool) -> Out<Option<Vec<u8>>> {
    match ty {
        Ty::Core(k) | Ty::Unknown(k) if into => {
            let (o, d, _) = read_chunk_into(h, path, z, k, pos, &[], pos);
            o.map(|o| o.map(|_| d))
        }
        Ty::Core(k) | Ty::Unknown(k) => read_chunk(h, path, z, k, pos),
        Ty::Raw(n) => with_raw!(n, N => {
            let mut c = RawChunk::<N> { pos: gc(pos), data: vec![] };
            lib(|| h.read_chunk_into::<[u8; N], _>(path, z, gc(pos), &mut c)).map(|o| o.map(|_| c.data.concat()))
        }),
    }
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let ty = match r.below(12) {
        0 | 1 => Ty::Raw(r.range(1, 4) as usize),
        2 => Ty::Unknown(*r.pick(&KINDS)),
        _ => Ty::Core(*r.pick(&KINDS)),
    };
    helpers(r, rep);
    if !rep.case_violated {
        on_arena!(cx, r, 3, 1, a => access(&a, r, rep, ty));
    }
}

fn access<H: Store>(a: &Arena<H>, r: &mut Rng, rep: &mut Report, ty: Ty) {
    let o = gen::Opts { max_rank: 2, max_chunk_bytes: 128, max_chunks: 4, codecs: true, odd: false, extended: true };
    let mut m = gen::meta(r, &o);
    m.kind = match ty {
        Ty::Core(k) | Ty::Unknown(k) => k,
        Ty::Raw(_) => Kind::U1,
    };
    // Values that fit many types, so that fill values do not decide.
    m.fill = match r.below(4) {
        0 => None,
        1 => Some(Value::Null),
        2 if m.kind == Kind::Bool => Some(json!(true)),
        2 => Some(json!(1)),
        _ => Some(Value::Null),
    };
    let mut doc = m.json();
    match ty {
        Ty::Core(_) => (),
        Ty::Raw(n) => doc["data_type"] = json!(format!("r{}", n * 8)),
        Ty::Unknown(_) => {
            doc["data_type"] = json!({"extension": "https://example.org/e", "type": if r.bool() { "<u4" } else { "<X9" }});
            if r.bool() {
                doc["data_type"]["fallback"] = Value::Null;
            }
        }
    }
    if matches!(ty, Ty::Raw(_)) && m.extended {
        doc["data_type"] = json!({"extension": "https://example.org/e", "type": "other", "fallback": doc["data_type"]});
    }
    rep.case["array"] = doc.clone();
    rep.case["store"] = json!(a.backing.name());
    let z: ArrayMetadata = match lib(|| serde_json::from_value(doc.clone()).map_err(Into::into)) {
        Out::Ok(z) => z,
        e => return rep.violation(format!("the document was refused: {:?}", e.map(drop))),
    };
    let h = a.any(r);
    let path = "p/q";
    let o = lib(|| h.create_array(path, &z));
    if !o.is_ok() {
        return rep.violation(format!("create_array: {:?}", o));
    }
    let n = m.chunk_elems();
    let stored = m.grid().iter().map(|&g| r.below(g)).collect::<Vec<_>>();
    let data = match ty {
        Ty::Core(k) => gen_data(r, k, n),
        _ => r.bytes(n * ty.size()),
    };
    let first = write(h, path, &z, ty, &stored, &data);
    let usable = !matches!(ty, Ty::Unknown(_));
    if usable != first.is_ok() || first.is_panic() {
        return rep.violation(format!("writing a chunk as the array's own type {:?}: {:?}", ty, first));
    }
    if !usable {
        // As if another program had written it.
        let key = crate::props::c03::chunk_key(path, &stored, &m.sep);
        a.backing.put(&key, &data);
    }
    let elements = n as u64;
    let mut order: Vec<usize> = (0..ACCESS.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        let t = ACCESS[i];
        let right = t == ty;
        // The same number of elements, or of bytes.
        let mut counts = vec![n];
        if !right && n * ty.size() / t.size() != n {
            counts.push(n * ty.size() / t.size());
        }
        let expect = |rep: &mut Report, what: &str, o: &Out<()>| -> bool {
            rep.evaluations += 1;
            rep.count(if right { "right_type" } else { "wrong_type" });
            rep.seen("pairs", crate::rng::hash_bytes(format!("{:?}{:?}{}", ty, t, what).as_bytes()));
            if o.is_panic() || o.is_ok() != right {
                let size = if t.size() == ty.size() { "same size" } else { "other size" };
                rep.violation(format!("{} of an array of {:?} as {:?} ({}): {:?}", what, ty, t, size, o));
                return false;
            }
            true
        };
        for into in [false, true] {
            let got = read(h, path, &z, t, &stored, into);
            if !expect(rep, "reading a chunk", &got.as_ref().map(drop)) {
                return;
            }
            if right && got != Out::Ok(Some(data.clone())) {
                return rep.violation(format!("reading the chunk gives {:?}", got));
            }
        }
        for k in counts {
            let d = match t {
                Ty::Core(k2) => gen_data(r, k2, k),
                _ => r.bytes(k * t.size()),
            };
            let d = if right { data.clone() } else { d };
            let pos: Vec<u64> = if right || r.bool() { stored.clone() } else { m.grid().iter().map(|&g| r.below(g)).collect() };
            if !expect(rep, "writing a chunk", &write(h, path, &z, t, &pos, &d)) {
                return;
            }
        }
        if let Ty::Core(k) = t {
            // A box that contains part of the stored chunk.
            let (mut offset, mut shape) = (vec![], vec![]);
            for ((&p, &c), &s) in stored.iter().zip(&m.chunk).zip(&m.shape) {
                let (lo, hi) = (p * c as u64, ((p + 1) * c as u64).min(s));
                let (at, from) = (r.range(lo, hi - 1), r.range(lo.saturating_sub(2), lo));
                let o = if r.bool() { from } else { at };
                offset.push(o);
                shape.push(r.range(at, hi + 1) + 1 - o);
            }
            let count: u64 = shape.iter().product();
            if count > 4000 {
                continue;
            }
            let got = read_region(h, path, &z, k, &offset, &shape);
            if !expect(rep, "reading a region", &got.map(drop)) {
                return;
            }
            let whole = r.chance(1, 3);
            if whole {
                // Exactly one chunk, which need not be read before.
                offset = stored.iter().zip(&m.chunk).map(|(p, &c)| p * c as u64).collect();
                shape = m.chunk.iter().map(|&c| c as u64).collect();
            }
            if right && !whole {
                // Write what is there.
                if let Out::Ok((_, d)) = read_region(h, path, &z, k, &offset, &shape) {
                    if !expect(rep, "writing a region", &write_region(h, path, &z, k, &offset, &shape, &d, *r.pick(&LAYOUTS))) {
                        return;
                    }
                }
            } else if !right {
                let c: u64 = shape.iter().product();
                let d = gen_data(r, k, c as usize);
                if !expect(rep, "writing a region", &write_region(h, path, &z, k, &offset, &shape, &d, *r.pick(&LAYOUTS))) {
                    return;
                }
            }
        }
    }
    if usable {
        let got = read(h, path, &z, ty, &stored, false);
        let same = match (&got, ty) {
            (Out::Ok(Some(g)), Ty::Core(k)) => {
                g.len() == data.len() && g.chunks_exact(k.size()).zip(data.chunks_exact(k.size())).all(|(x, y)| gen::same_fill(k, x, y)) || elements == 0
            }
            (Out::Ok(Some(g)), _) => *g == data,
            _ => false,
        };
        if !same {
            return rep.violation(format!("after all accesses the chunk reads {:?}", got));
        }
    }
    rep.distinct(format!("{}{:?}", doc, stored));
    rep.sample(json!({"array": doc, "stored": stored}));
}

/// Name and size of the Rust type that matching on a data type chooses.
fn matched(d: DataType) -> Option<(&'static str, usize, DataType)> {
    data_type_match!(d, DataType::Raw { .. } => None, {
        Some((std::any::type_name::<RsType>(), std::mem::size_of::<RsType>(), <RsType as ReflectedType>::ZARR_TYPE))
    })
}

fn type_string(d: &DataType) -> String {
    serde_json::to_value(d).ok().and_then(|v| v.as_str().map(|s| s.trim_start_matches(|c| c == '<' || c == '>').to_string())).unwrap_or_default()
}

fn helpers(r: &mut Rng, rep: &mut Report) {
    let kind = *r.pick(&KINDS);
    let big = r.bool();
    let s = kind.type_string(big);
    let bare = s.trim_start_matches(|c| c == '<' || c == '>').to_string();
    rep.evaluations += 1;
    rep.count("helper_checks");
    let got = lib(|| {
        let d: DataType = serde_json::from_value(json!(s))?;
        let e: ExtensibleDataType = serde_json::from_value(json!(s))?;
        let x: ExtensibleDataType =
            serde_json::from_value(json!({"extension": "https://example.org/e", "type": "<X", "fallback": s}))?;
        let rust = with_kind!(kind, T => (std::any::type_name::<T>(), std::mem::size_of::<T>(), T::ZARR_TYPE));
        Ok((d, d.size_of(), matched(d), e.effective_type().ok(), x.effective_type().ok(), rust))
    });
    let (d, size, m, e, x, rust) = match got {
        Out::Ok(x) => x,
        o => return rep.violation(format!("{}: {:?}", s, o.map(drop))),
    };
    let fine = size == kind.size()
        && rust.1 == kind.size()
        && m.as_ref().map(|m| (m.0, m.1)) == Some((rust.0, rust.1))
        && m.map_or(false, |m| m.2 == rust.2)
        && type_string(&rust.2) == bare
        && rust.2.size_of() == kind.size()
        && e == Some(d)
        && x == Some(d);
    if !fine {
        return rep.violation(format!(
            "{}: size {}, Rust type {:?}, chosen by matching {:?}, effective type {:?}, as a fallback {:?}",
            s, size, rust, m, e, x
        ));
    }
    let n = if r.bool() { r.range(0, 8) as usize } else { r.range(0, 1 << 40) as usize };
    let raw = format!("r{}", n * 8);
    let got = lib(|| {
        let d: DataType = serde_json::from_value(json!(raw))?;
        Ok((d.size_of(), matched(d).is_none(), type_string(&d)))
    });
    if got != Out::Ok((n, true, raw.clone())) {
        return rep.violation(format!("{}: {:?}", raw, got));
    }
    for (k, t) in [(1, <[u8; 1]>::ZARR_TYPE), (2, <[u8; 2]>::ZARR_TYPE), (3, <[u8; 3]>::ZARR_TYPE), (4, <[u8; 4]>::ZARR_TYPE)] {
        if t.size_of() != k || t != (DataType::Raw { size: 8 * k }) {
            return rep.violation(format!("an array of {} bytes is reflected as {:?}", k, t));
        }
    }
    let unknown = lib(|| {
        let e: ExtensibleDataType = serde_json::from_value(json!({"extension": "https://example.org/e", "type": s}))?;
        e.effective_type().map(drop).map_err(Into::into)
    });
    if !unknown.is_err() {
        rep.violation(format!("the effective type of an extended type without fallback: {:?}", unknown));
    }
}
