//! C06: grid arithmetic against exact integer arithmetic.

use serde_json::json;
use std::collections::HashSet;

use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

const BIG: [u64; 17] = [
    0, 1, 7, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 60) + 12345, 1 << 62,
    (1 << 63) - 1, 1 << 63, u64::MAX - (1 << 32), u64::MAX - 1, u64::MAX,
];
const BIG_CHUNK: [u32; 10] = [1, 2, 3, 7, 64, 1 << 16, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX];

pub fn case(_cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    // Coordinates of more than six axes are stored differently.
    let rank = if r.chance(1, 8) { r.range(6, 9) } else { r.below(6) } as usize;
    let small = r.chance(2, 3);
    let (mut shape, mut chunk) = (vec![], vec![]);
    let mut left = 3000u64;
    for _ in 0..rank {
        if small {
            let s = if r.chance(1, 12) { 0 } else { r.range(1, (if rank > 5 { 4u64 } else { 14 }).min(left.max(1))) };
            shape.push(s);
            chunk.push(r.range(1, if rank > 5 { 2 } else { 6 }) as u32);
            left /= s.max(1);
        } else {
            shape.push(if r.bool() { *r.pick(&BIG) } else { r.u64() >> r.range(0, 60) });
            chunk.push(if r.bool() { *r.pick(&BIG_CHUNK) } else { ((r.u64() as u32) >> r.below(31)).max(1) });
        }
    }
    let m = Meta::new(&shape, &chunk, Kind::U1);
    rep.case["shape"] = json!(shape);
    rep.case["chunk"] = json!(chunk);
    let z = m.zarr();
    let bad = |rep: &mut Report, s: String| rep.violation(s);

    // Extents and number of chunks.
    let grid: Vec<u64> = shape.iter().zip(&chunk).map(|(&s, &c)| ((s as u128 + c as u128 - 1) / c as u128) as u64).collect();
    rep.evaluations += 1;
    match lib_plain(|| z.get_grid_extent().to_vec()) {
        Out::Ok(g) if g == grid => (),
        o => return bad(rep, format!("grid extent {:?}, expected {:?}", o, grid)),
    }
    let product = |v: &[u64]| v.iter().fold(1u128, |a, &b| a.saturating_mul(b as u128));
    let total = product(&grid);
    // Partial products may overflow although a zero follows; the number fits then.
    let fits = total <= u64::MAX as u128 && grid.iter().scan(1u128, |a, &b| { *a = a.saturating_mul(b as u128); Some(*a) }).all(|x| x <= u64::MAX as u128);
    if fits {
        match lib_plain(|| z.get_num_chunks()) {
            Out::Ok(n) if n as u128 == total => (),
            o => return bad(rep, format!("number of chunks {:?}, expected {}", o, total)),
        }
    }
    if let Out::Ok(b) = lib_plain(|| z.get_bounds()) {
        if b != bbox(&vec![0; rank], &shape) {
            return bad(rep, format!("array bounds {:?}", b));
        }
    }
    let elems: u128 = chunk.iter().fold(1u128, |a, &b| a.saturating_mul(b as u128));
    if elems <= u64::MAX as u128 {
        match lib_plain(|| z.get_chunk_num_elements()) {
            Out::Ok(n) if n as u128 == elems => (),
            o => return bad(rep, format!("chunk elements {:?}, expected {}", o, elems)),
        }
    }
    if product(&shape) <= u64::MAX as u128 && (small || !shape.contains(&0)) {
        match lib_plain(|| z.get_num_elements()) {
            Out::Ok(n) if n as u128 == product(&shape) => (),
            o => return bad(rep, format!("array elements {:?}, expected {}", o, product(&shape))),
        }
    }

    // In bounds exactly below the extent, for every rank.
    for _ in 0..12 {
        let n = if r.chance(1, 5) { r.usize(7) } else { rank };
        let pos: Vec<u64> = (0..n)
            .map(|i| {
                let g = grid.get(i).cloned().unwrap_or(3);
                match r.below(6) {
                    0 => g,
                    1 => g.saturating_sub(1),
                    2 => g.saturating_add(1),
                    3 => u64::MAX,
                    4 => 0,
                    _ => r.below(g.saturating_add(1)),
                }
            })
            .collect();
        let want = n == rank && pos.iter().zip(&grid).all(|(p, g)| p < g);
        rep.evaluations += 1;
        rep.count(if want { "in_bounds" } else { "out_of_bounds" });
        match lib_plain(|| z.in_bounds(&gc(&pos))) {
            Out::Ok(b) if b == want => (),
            o => return bad(rep, format!("in_bounds({:?}) is {:?} for the grid {:?}", pos, o, grid)),
        }
    }

    // The chunk bounds.
    let mut some = vec![];
    for _ in 0..4 {
        if !grid.contains(&0) {
            some.push(grid.iter().map(|&g| if r.bool() { g - 1 } else { r.below(g) }).collect::<Vec<u64>>());
        }
    }
    for pos in &some {
        let off: Vec<u64> = pos.iter().zip(&chunk).map(|(p, &c)| p * c as u64).collect();
        let sh: Vec<u64> = chunk.iter().map(|&c| c as u64).collect();
        rep.evaluations += 1;
        match lib_plain(|| z.get_chunk_bounds(pos)) {
            Out::Ok(b) if b == bbox(&off, &sh) => (),
            o => return bad(rep, format!("bounds of chunk {:?}: {:?}, expected offset {:?} shape {:?}", pos, o, off, sh)),
        }
        let data = zarr::chunk::VecDataChunk::<u8>::new(gc(pos), vec![]);
        match lib_plain(|| data.get_bounds(&z)) {
            Out::Ok(b) if b == bbox(&off, &sh) => (),
            o => return bad(rep, format!("bounds of data chunk {:?}: {:?}", pos, o)),
        }
    }

    if small {
        // All positions, exactly once, with exact remaining lengths; their bounds
        // partition the array.
        let all = coords(&grid);
        if let Err(e) = iterate(|| z.coord_iter(), &all) {
            return bad(rep, format!("iterating over all chunks: {}", e));
        }
        rep.evaluations += 1;
        rep.add("positions_iterated", all.len() as u64);
        let mut owner = HashSet::new();
        for p in &all {
            let (off, _) = (lib_plain(|| z.get_chunk_bounds(p)), ());
            let b = match off {
                Out::Ok(b) => b,
                o => return bad(rep, format!("{:?}", o)),
            };
            for x in coords(&chunk.iter().map(|&c| c as u64).collect::<Vec<_>>()).iter().take(200) {
                let at: Vec<u64> = lib_plain(|| b.clone() - &gc(&vec![0; rank])).ok().map(|b| origin(&b)).unwrap_or_default().iter().zip(x).map(|(a, b)| a + b).collect();
                if at.iter().zip(&shape).all(|(a, s)| a < s) && !owner.insert(at.clone()) {
                    return bad(rep, format!("element {:?} belongs to two chunks", at));
                }
            }
        }
        let complete = chunk.iter().map(|&c| c as u64).product::<u64>() <= 200;
        if complete && owner.len() as u128 != product(&shape) {
            return bad(rep, format!("chunks cover {} of {} elements", owner.len(), product(&shape)));
        }
        // Boxes.
        for _ in 0..4 {
            let mut off = vec![];
            let mut ext = vec![];
            for &s in &shape {
                off.push(match r.below(8) { 0 => s + r.below(5), 1 => 1 << 40, _ => r.below(s + 1) });
                ext.push(match r.below(8) { 0 => 0, 1 => 1 << 50, 2 => s, _ => r.range(1, s + 3) });
            }
            let want: Vec<Vec<u64>> = all
                .iter()
                .filter(|p| {
                    (0..rank).all(|i| {
                        let lo = (p[i] * chunk[i] as u64).max(off[i]);
                        let hi = ((p[i] + 1) * chunk[i] as u64).min(off[i] + ext[i]).min(shape[i]);
                        lo < hi
                    })
                })
                .cloned()
                .collect();
            rep.evaluations += 1;
            rep.count(if want.is_empty() { "boxes_without_chunks" } else { "boxes_with_chunks" });
            rep.add("positions_iterated", want.len() as u64);
            let b = bbox(&off, &ext);
            if let Err(e) = iterate(|| z.bounded_coord_iter(&b), &want) {
                return bad(rep, format!("iterating over the chunks of offset {:?} shape {:?}: {}", off, ext, e));
            }
            rep.distinct(format!("{:?}{:?}{:?}{:?}", shape, chunk, off, ext));
        }
    } else {
        // Small boxes in large arrays.
        for _ in 0..4 {
            let off: Vec<u64> = shape
                .iter()
                .zip(&chunk)
                .map(|(&s, &c)| {
                    let near = (r.below((s / c as u64).saturating_add(2))).saturating_mul(c as u64);
                    match r.below(4) { 0 => s.saturating_sub(r.below(3)), 1 => near.min(s), 2 => near.saturating_sub(1).min(s), _ => r.below(s.saturating_add(1)) }
                })
                .collect();
            let ext: Vec<u64> = chunk.iter().map(|&c| if r.chance(1, 6) { 0 } else { r.range(1, (c as u64).saturating_mul(2)) }).collect();
            // The end of a box is a coordinate.
            let ext: Vec<u64> = ext.iter().zip(&off).map(|(&e, &o)| e.min(u64::MAX - o)).collect();
            let mut axes: Vec<Vec<u64>> = vec![];
            for i in 0..rank {
                let c = chunk[i] as u128;
                let lo = off[i] as u128;
                let hi = (lo + ext[i] as u128).min(shape[i] as u128);
                axes.push(if lo >= hi { vec![] } else { ((lo / c) as u64..=((hi - 1) / c) as u64).collect() });
            }
            let mut want = vec![vec![]];
            for a in &axes {
                want = want.iter().flat_map(|p: &Vec<u64>| a.iter().map(move |&x| { let mut q = p.clone(); q.push(x); q })).collect();
            }
            rep.evaluations += 1;
            let b = bbox(&off, &ext);
            if let Err(e) = iterate(|| z.bounded_coord_iter(&b), &want) {
                return bad(rep, format!("iterating over the chunks of offset {:?} shape {:?}: {}", off, ext, e));
            }
            rep.add("positions_iterated", want.len() as u64);
            rep.distinct(format!("{:?}{:?}{:?}{:?}", shape, chunk, off, ext));
        }
        if fits && total <= u64::MAX as u128 {
            match lib_plain(|| z.coord_iter().len()) {
                Out::Ok(n) if n as u128 == total => (),
                o => return bad(rep, format!("length of the iteration over all chunks: {:?}, expected {}", o, total)),
            }
        }
    }
    rep.seen("ranks", rank as u64);
    rep.sample(json!({"shape": shape, "chunk": chunk, "grid": grid}));
}

fn origin(b: &zarr::ndarray::BoundingBox) -> Vec<u64> {
    b.end().zip(b.shape_ndarray_shape().iter()).map(|(e, &s)| e - s as u64).collect()
}

/// Run an iterator to its end, and past it.
fn iterate<I: Iterator<Item = Vec<u64>> + ExactSizeIterator>(start: impl FnOnce() -> I, want: &[Vec<u64>]) -> Result<(), String> {
    let res = lib_plain(|| {
        let mut it = start();
        let mut got = vec![];
        let mut lens = vec![];
        loop {
            lens.push((it.len(), it.size_hint()));
            match it.next() {
                Some(c) if got.len() <= want.len() + 3 => got.push(c),
                Some(_) => break,
                None => break,
            }
        }
        let after = (it.next(), it.len());
        (got, lens, after)
    });
    let (got, lens, after) = match res {
        Out::Ok(x) => x,
        o => return Err(o.class()),
    };
    let set: HashSet<&Vec<u64>> = got.iter().collect();
    let wanted: HashSet<&Vec<u64>> = want.iter().collect();
    if set.len() != got.len() {
        return Err("a position was yielded twice".into());
    }
    if set != wanted {
        return Err(format!("yielded {:?}..., expected {:?}... ({} and {} positions)", got.iter().take(5).collect::<Vec<_>>(), want.iter().take(5).collect::<Vec<_>>(), got.len(), want.len()));
    }
    for (i, (l, h)) in lens.iter().enumerate() {
        let left = want.len().saturating_sub(i);
        if *l != left || *h != (left, Some(left)) {
            return Err(format!("after {} of {} positions the remaining length is {} and the size hint {:?}", i, want.len(), l, h));
        }
    }
    if after != (None, 0) {
        return Err("goes on after its end".into());
    }
    Ok(())
}
