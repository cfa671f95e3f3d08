//! C04: region and chunk operations against one dense array.

use serde_json::json;
use zarr::ndarray::ZarrNdarrayReader;
use zarr::prelude::*;

use crate::gen;
use crate::mem::MemHierarchy;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

/// Row-major array of elements.
pub struct Dense {
    pub shape: Vec<u64>,
    pub size: usize,
    pub data: Vec<u8>,
    pub fill: Vec<u8>,
}

impl Dense {
    pub fn new(m: &Meta) -> Dense {
        let fill = gen::fill_bytes(m.kind, &m.fill);
        let n: u64 = m.shape.iter().product();
        let data = fill.iter().cloned().cycle().take(n as usize * fill.len()).collect();
        Dense { shape: m.shape.clone(), size: m.kind.size(), data, fill }
    }

    pub fn index(&self, c: &[u64]) -> Option<usize> {
        let mut i = 0u64;
        for (x, s) in c.iter().zip(&self.shape) {
            if x >= s {
                return None;
            }
            i = i * s + x;
        }
        Some(i as usize * self.size)
    }

    pub fn get(&self, c: &[u64]) -> Option<&[u8]> {
        self.index(c).map(|i| &self.data[i..i + self.size])
    }

    pub fn set(&mut self, c: &[u64], e: &[u8]) {
        if let Some(i) = self.index(c) {
            self.data[i..i + self.size].copy_from_slice(e);
        }
    }

    pub fn write_chunk(&mut self, m: &Meta, pos: &[u64], data: Option<&[u8]>) {
        let ext: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
        let fill = self.fill.clone();
        for c in coords(&ext) {
            let at: Vec<u64> = c.iter().zip(pos).zip(&ext).map(|((c, p), e)| p * e + c).collect();
            let e = match data {
                Some(d) => {
                    let i = offset_in_chunk(m, &c) * self.size;
                    &d[i..i + self.size]
                }
                None => &fill[..],
            };
            self.set(&at, e);
        }
    }
}

/// Index of an element within a chunk's linear order.
pub fn offset_in_chunk(m: &Meta, c: &[u64]) -> usize {
    let mut i = 0u64;
    if m.c_order {
        for (x, &s) in c.iter().zip(&m.chunk) {
            i = i * s as u64 + x;
        }
    } else {
        for (x, &s) in c.iter().zip(&m.chunk).rev() {
            i = i * s as u64 + x;
        }
    }
    i as usize
}

pub fn gen_box(r: &mut Rng, shape: &[u64], max_elems: u64, allow_empty: bool) -> (Vec<u64>, Vec<u64>) {
    let mut off = vec![];
    let mut ext = vec![];
    let mut left = max_elems;
    for &s in shape {
        let (o, e) = match r.below(10) {
            // The whole axis.
            0 | 1 => (0, s),
            // Across the end.
            2 => {
                let o = r.below(s + 1);
                (o, s - o + r.below(4))
            }
            // Outside.
            3 if r.chance(1, 3) => (s + r.below(3), r.range(1, 4)),
            // Empty.
            4 if allow_empty && r.chance(1, 3) => (r.below(s + 2), 0),
            // One element.
            5 => (r.below(s.max(1)), 1),
            _ => {
                let o = r.below(s.max(1));
                (o, r.range(1, (s - o).max(1)))
            }
        };
        let e = e.min(left.max(1));
        left /= e.max(1);
        off.push(o);
        ext.push(e);
    }
    (off, ext)
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let o = gen::Opts { max_rank: if r.chance(1, 12) { 9 } else { 5 }, max_chunk_bytes: if r.chance(1, 10) { 8192 } else { 400 }, max_chunks: 40, ..Default::default() };
    let mut m = gen::meta(r, &o);
    if m.rank() > 0 && r.chance(1, 30) {
        // An array without elements.
        let i = r.usize(m.rank());
        m.shape[i] = 0;
    }
    rep.case["array"] = m.describe();
    if r.chance(1, 4) {
        let h = MemHierarchy::new(None);
        run(&h, &m, r, rep);
    } else {
        let h = gen::create(&cx.sub("h"));
        run(&h, &m, r, rep);
    }
}

fn run<H: HierarchyReader + HierarchyWriter>(h: &H, m: &Meta, r: &mut Rng, rep: &mut Report) {
    let path = gen::path(r, 2);
    // All operations happen in a window that may be far from the origin.
    let mut base = vec![0u64; m.rank()];
    if r.chance(1, 4) {
        for i in 0..m.rank() {
            let c = m.chunk[i] as u64;
            let at = match r.below(5) {
                0 => 0,
                1 => (1u64 << 32) - r.below(2 * c + 2),
                2 => u64::MAX - m.shape[i] - r.below(c + 3),
                3 => (1u64 << r.range(30, 63)) - r.below(c + 1),
                _ => r.u64() >> r.range(1, 63),
            };
            base[i] = at / c * c;
        }
        rep.count("far_windows");
    }
    rep.case["base"] = json!(base);
    let mut far = m.clone();
    for (s, b) in far.shape.iter_mut().zip(&base) {
        *s += b;
    }
    let z = gen::create_array(h, &path, &far);
    with_kind!(m.kind, T => run_typed::<H, T>(h, &path, m, &base, &z, r, rep))
}

/// A box of the window, whose end is a coordinate of the array's space.
fn gen_window_box(r: &mut Rng, m: &Meta, base: &[u64], max_elems: u64) -> (Vec<u64>, Vec<u64>) {
    let (mut off, mut ext) = gen_box(r, &m.shape, max_elems, true);
    if r.chance(1, 4) {
        // Exactly one chunk, or a row of whole chunks.
        let one: Vec<u64> = m.chunk.iter().map(|c| *c as u64).collect();
        if one.iter().product::<u64>() <= max_elems {
            ext = one;
            for i in 0..base.len() {
                let down = ((base[i] as u128 + off[i] as u128) % ext[i] as u128) as u64;
                off[i] = off[i].checked_sub(down).unwrap_or(off[i]);
            }
            if !ext.is_empty() && r.chance(1, 3) {
                let i = r.usize(ext.len());
                if ext.iter().product::<u64>() * 2 <= max_elems {
                    ext[i] *= 2;
                }
            }
        }
    }
    for i in 0..base.len() {
        off[i] = off[i].min(u64::MAX - base[i]);
        ext[i] = ext[i].min(u64::MAX - base[i] - off[i]);
    }
    (off, ext)
}

fn run_typed<H, T>(h: &H, path: &str, m: &Meta, base: &[u64], z: &ArrayMetadata, r: &mut Rng, rep: &mut Report)
where
    H: HierarchyReader + HierarchyWriter,
    T: Elem,
    VecDataChunk<T>: DataChunk<T> + zarr::chunk::ReadableDataChunk + zarr::chunk::WriteableDataChunk + zarr::chunk::ReinitDataChunk<T>,
{
    let mut dense = Dense::new(m);
    let mut history: Vec<String> = vec![];
    let mut buffer: Option<VecDataChunk<T>> = None;
    if r.chance(1, 3) {
        // A buffer left over from something else.
        let n = r.usize(50);
        buffer = Some(VecDataChunk::new(gc(&vec![r.below(9); r.usize(4)]), from_bytes(&gen_data(r, m.kind, n))));
    }
    let sz = m.kind.size();
    let far = |off: &[u64]| -> Vec<u64> { off.iter().zip(base).map(|(o, b)| o + b).collect() };
    let far_chunk = |pos: &[u64]| -> Vec<u64> { pos.iter().zip(base).zip(&m.chunk).map(|((p, b), &c)| p + b / c as u64).collect() };
    let positions = m.positions();
    let total: u64 = m.shape.iter().product();
    let max_elems = (total * 2 + 64).min(20_000);
    let (mut checked, mut outside, mut partial) = (0u64, 0u64, 0u64);
    for _ in 0..r.range(4, 16) {
        match r.below(12) {
            0..=4 => {
                let (off, ext) = gen_window_box(r, m, base, max_elems);
                let n: u64 = ext.iter().product();
                let data = gen_data(r, m.kind, n as usize);
                let layout = *r.pick(&LAYOUTS);
                history.push(format!("write region {:?} {:?} {:?}", off, ext, layout));
                let o = write_region(h, path, z, m.kind, &far(&off), &ext, &data, layout);
                if !o.is_ok() {
                    return fail(rep, &history, format!("region write: {:?}", o));
                }
                for (i, c) in coords(&ext).iter().enumerate() {
                    let at: Vec<u64> = c.iter().zip(&off).map(|(a, b)| a + b).collect();
                    dense.set(&at, &data[i * sz..(i + 1) * sz]);
                }
                if off.iter().zip(&m.chunk).any(|(o, &c)| o % c as u64 != 0) {
                    partial += 1;
                }
                rep.count("region_writes");
            }
            5 if !positions.is_empty() => {
                let pos = r.pick(&positions).clone();
                let data = gen_data(r, m.kind, m.chunk_elems());
                history.push(format!("write chunk {:?}", pos));
                let o = write_chunk(h, path, z, m.kind, &far_chunk(&pos), &data);
                if !o.is_ok() {
                    return fail(rep, &history, format!("chunk write: {:?}", o));
                }
                dense.write_chunk(m, &pos, Some(&data));
                rep.count("chunk_writes");
            }
            6 if !positions.is_empty() => {
                let pos = r.pick(&positions).clone();
                history.push(format!("delete chunk {:?}", pos));
                let o = lib(|| h.delete_chunk(path, z, &far_chunk(&pos)));
                if o != Out::Ok(true) {
                    return fail(rep, &history, format!("chunk deletion: {:?}", o));
                }
                dense.write_chunk(m, &pos, None);
                rep.count("chunk_deletes");
            }
            k => {
                let (off, ext) = gen_window_box(r, m, base, max_elems);
                history.push(format!("read region {:?} {:?}", off, ext));
                let bb = bbox(&far(&off), &ext);
                let o = match k {
                    7..=9 => lib(|| h.read_ndarray::<T>(path, z, &bb)).map(|a| nd_bytes(a.view())),
                    _ => {
                        // Into a view of some memory layout that holds the fill value.
                        let n = ext.iter().product::<u64>() as usize;
                        let init: Vec<u8> = dense.fill.iter().cloned().cycle().take(n * sz).collect();
                        let v: Vec<T> = from_bytes(&init);
                        let sh: Vec<usize> = ext.iter().map(|&s| s as usize).collect();
                        let base = ndarray::ArrayD::from_shape_vec(ndarray::IxDyn(&sh), v).expect("HARNESS: shape");
                        // Any part of a larger array, with axes in either memory order or backwards.
                        let steps: Vec<isize> = sh.iter().map(|_| if r.bool() { 1 } else { *r.pick(&[2, -1, -1, -2, 3]) }).collect();
                        let margins: Vec<usize> = sh.iter().map(|_| r.usize(3)).collect();
                        let big: Vec<usize> = (0..sh.len()).map(|i| sh[i] * steps[i].unsigned_abs() + margins[i]).collect();
                        let other: Vec<u8> = gen_data(r, m.kind, 1);
                        let e = T::take(&other);
                        let fortran = r.bool();
                        let ixs = ndarray::IxDyn(&big);
                        let mut whole = if fortran {
                            ndarray::ArrayD::from_elem(ndarray::ShapeBuilder::f(ixs), e)
                        } else {
                            ndarray::ArrayD::from_elem(ixs, e)
                        };
                        let slices: Vec<ndarray::SliceOrIndex> = (0..sh.len())
                            .map(|i| {
                                let start = r.usize(margins[i] + 1);
                                let end = start + sh[i] * steps[i].unsigned_abs();
                                ndarray::SliceOrIndex::Slice { start: start as isize, end: Some(end as isize), step: steps[i] }
                            })
                            .collect();
                        let info = ndarray::SliceInfo::<_, ndarray::IxDyn>::new(slices).unwrap();
                        whole.slice_mut(info.as_ref()).assign(&base);
                        let target = whole.slice_mut(info.as_ref());
                        let with_buffer = r.bool();
                        let o = if with_buffer {
                            lib(|| h.read_ndarray_into_with_buffer(path, z, &bb, target, &mut buffer))
                        } else {
                            lib(|| h.read_ndarray_into(path, z, &bb, target))
                        };
                        let o = o.map(|_| nd_bytes(whole.slice(info.as_ref())));
                        // What is not in the view stays.
                        let fills = ndarray::ArrayD::from_elem(ndarray::IxDyn(&sh), e);
                        whole.slice_mut(info.as_ref()).assign(&fills);
                        if let Some(x) = nd_bytes(whole.view()).1.chunks(sz).find(|x| *x != &other[..]) {
                            return fail(rep, &history, format!("reading into a view of steps {:?} changes an element outside it to {:?}", steps, x));
                        }
                        rep.count("reads_into_views");
                        o
                    }
                };
                rep.evaluations += 1;
                rep.count("region_reads");
                match o {
                    Out::Ok((shape, data)) => {
                        if shape != ext {
                            return fail(rep, &history, format!("region of shape {:?} instead of {:?}", shape, ext));
                        }
                        for (i, c) in coords(&ext).iter().enumerate() {
                            let at: Vec<u64> = c.iter().zip(&off).map(|(a, b)| a + b).collect();
                            let got = &data[i * sz..(i + 1) * sz];
                            match dense.get(&at) {
                                None => outside += 1,
                                Some(want) => {
                                    checked += 1;
                                    let same = want == got || (want == &dense.fill[..] && gen::same_fill(m.kind, want, got));
                                    if !same {
                                        return fail(rep, &history, format!("element {:?} reads as {:?}, expected {:?}", at, got, want));
                                    }
                                }
                            }
                        }
                    }
                    o => return fail(rep, &history, format!("region read: {}", o.class())),
                }
            }
        }
    }
    // Finally all of the array.
    let off = vec![0; m.rank()];
    match read_region(h, path, z, m.kind, &far(&off), &m.shape) {
        Out::Ok((shape, data)) if shape == m.shape => {
            for (i, (want, got)) in dense.data.chunks(sz).zip(data.chunks(sz)).enumerate() {
                checked += 1;
                if want != got && !(want == &dense.fill[..] && gen::same_fill(m.kind, want, got)) {
                    return fail(rep, &history, format!("finally element number {} is {:?}, expected {:?}", i, got, want));
                }
            }
        }
        o => return fail(rep, &history, format!("final read: {}", o.class())),
    }
    // And chunk by chunk.
    for pos in positions.iter().take(40) {
        match read_chunk(h, path, z, m.kind, &far_chunk(pos)) {
            Out::Ok(Some(d)) => {
                // The chunk as an array, borrowed and owned.
                let c = VecDataChunk::<T>::new(gc(&far_chunk(pos)), from_bytes(&d));
                let views = lib_plain(|| (nd_bytes(c.as_ndarray(z)), c.clone().into_ndarray(z))).map(|(a, b)| (a, nd_bytes(b.view())));
                let ext: Vec<u64> = m.chunk.iter().map(|&c| c as u64).collect();
                let want: Vec<u8> = coords(&ext).iter().flat_map(|c| d[offset_in_chunk(m, c) * sz..][..sz].to_vec()).collect();
                match views {
                    Out::Ok((a, b)) if a == (ext.clone(), want.clone()) && b == (ext, want) => rep.count("chunks_as_arrays"),
                    o => return fail(rep, &history, format!("chunk {:?} as an array: {}", pos, o.class())),
                }
                for c in coords(&m.chunk.iter().map(|&c| c as u64).collect::<Vec<_>>()) {
                    let at: Vec<u64> = c.iter().zip(pos).zip(&m.chunk).map(|((c, p), &e)| p * e as u64 + c).collect();
                    if let Some(want) = dense.get(&at) {
                        checked += 1;
                        let i = offset_in_chunk(m, &c) * sz;
                        let got = &d[i..i + sz];
                        if want != got && !(want == &dense.fill[..] && gen::same_fill(m.kind, want, got)) {
                            return fail(rep, &history, format!("chunk {:?} holds {:?} for element {:?}, expected {:?}", pos, got, at, want));
                        }
                    }
                }
            }
            Out::Ok(None) => (),
            o => return fail(rep, &history, format!("final chunk read: {}", o.class())),
        }
    }
    rep.evaluations += 1;
    rep.add("elements_compared", checked);
    rep.add("elements_outside", outside);
    rep.add("unaligned_writes", partial);
    rep.seen("rank_order_codec", crate::rng::hash_bytes(format!("{}{}{}", m.rank(), m.c_order, m.codec_name()).as_bytes()));
    if checked > 0 {
        rep.distinct(format!("{}{:?}", m.describe(), history));
        rep.sample(json!({"array": m.describe(), "history": history.iter().take(8).collect::<Vec<_>>()}));
    }
}

fn fail(rep: &mut Report, history: &[String], msg: String) {
    rep.case["history"] = json!(history);
    rep.violation(msg);
}
