//! C01: a model of the chunks of an array against histories of writes, deletions
//! and reads through several handles.

use std::collections::BTreeMap;
use serde_json::json;
use zarr::chunk::ReinitDataChunk;
use zarr::prelude::*;

use crate::gen;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let mut o = gen::Opts { max_rank: 5, ..Default::default() };
    // Sizes around the codecs' internal blocks.
    if r.chance(1, 25) {
        o.max_chunk_bytes = if r.chance(1, if cx.thorough { 10 } else { 40 }) { 10 << 20 } else { 600 << 10 };
        o.max_chunks = 4;
    }
    if r.chance(1, 12) {
        // More axes than coordinates are stored inline for.
        o.max_rank = 10;
    }
    let mut m = gen::meta(r, &o);
    if r.chance(1, 8) {
        // One axis of a size near a boundary of some buffer.
        let b = *r.pick(&[256u64, 512, 4096, 8192, 16384, 32768, 65536, 131072, 262144]);
        let n = (b / m.kind.size() as u64 + r.below(5)).saturating_sub(2).max(1);
        m.chunk = vec![n as u32];
        m.shape = vec![r.range(1, 3 * n)];
    }
    let big_chunks = m.chunk_bytes() > 100_000;
    rep.case["array"] = m.describe();

    let base = cx.sub("h");
    let first = gen::create(&base);
    let path = gen::path(r, 3);
    let z = gen::create_array(&first, &path, &m);
    // A second array whose chunks must stay apart, with the same grid.
    let path2 = format!("{}2", path);
    gen::create_array(&first, &path2, &m);
    rep.case["path"] = json!(path);

    let mut handles = vec![first];
    let positions = m.positions();
    let n = m.chunk_elems();
    let mut model: [BTreeMap<Vec<u64>, Vec<u8>>; 2] = Default::default();
    let few: Vec<Vec<u64>> = (0..3).map(|_| r.pick(&positions).clone()).collect();
    let ops = if big_chunks { 6 } else { r.range(4, 24) };
    let mut metas = vec![z];
    let (mut writes, mut reads, mut absent, mut overwrites, mut deletes) = (0, 0, 0, 0, 0);
    let mut history = vec![];

    for step in 0..ops {
        let which = if r.chance(1, 6) { 1 } else { 0 };
        let p = if which == 1 { &path2 } else { &path };
        let shown = gen::decorate(r, p);
        let pos = if r.chance(3, 4) { r.pick(&few).clone() } else { r.pick(&positions).clone() };
        if r.chance(1, 6) {
            handles.push(if r.bool() { gen::open(&base) } else { gen::create(&base) });
        }
        let h = r.pick(&handles).clone();
        if r.chance(1, 8) {
            let z = gen::must("reading the array's metadata", lib(|| h.get_array_metadata(&shown)));
            metas.push(z);
        }
        let z = r.pick(&metas).clone();
        match r.below(10) {
            0..=3 => {
                let data = gen_data(r, m.kind, n);
                history.push(format!("{}: write {} {:?}", step, which, pos));
                match write_chunk(&h, &shown, &z, m.kind, &pos, &data) {
                    Out::Ok(()) => {
                        writes += 1;
                        overwrites += model[which].insert(pos.clone(), data).is_some() as u64;
                    }
                    e => return fail(rep, &history, format!("writing a chunk at {:?}: {:?}", pos, e)),
                }
            }
            4 => {
                history.push(format!("{}: delete {} {:?}", step, which, pos));
                match lib(|| h.delete_chunk(&shown, &z, &pos)) {
                    Out::Ok(true) => {
                        deletes += 1;
                        model[which].remove(&pos);
                    }
                    e => return fail(rep, &history, format!("deleting a chunk at {:?}: {:?}", pos, e)),
                }
            }
            5 if r.chance(1, 3) => {
                // A buffer that becomes a copy of what was read is a chunk of its own.
                let len = *r.pick(&[0, 1, n, n + 1, 2 * n + 3]);
                let before = gen_data(r, m.kind, len);
                let to = if r.bool() { pos.clone() } else { r.pick(&few).clone() };
                history.push(format!("{}: copy {} {:?} to {:?} (buffer of {})", step, which, pos, to, len));
                let o = copy_chunk(&h, &shown, &z, m.kind, &pos, &before, &to);
                reads += 1;
                match (&o, model[which].get(&pos).cloned()) {
                    (Out::Ok(None), None) => absent += 1,
                    (Out::Ok(Some((d, p))), Some(want)) if *d == want && *p == pos => {
                        writes += 1;
                        rep.count("copies");
                        overwrites += model[which].insert(to, want).is_some() as u64;
                    }
                    (o, want) => {
                        let got = o.as_ref().ok().and_then(|x| x.as_ref()).map(|x| &x.0);
                        return fail(rep, &history, format!("copying the chunk at {:?} to {:?} gives {}{}", pos, to, o.class(), mismatch(want.as_ref(), got)));
                    }
                }
            }
            5 | 6 => {
                // Into a buffer that holds something else, of another size.
                let len = *r.pick(&[0, 1, n.saturating_sub(1), n, n + 1, 2 * n + 3]);
                let before = gen_data(r, m.kind, len);
                let before_pos = r.pick(&positions).clone();
                history.push(format!("{}: read into {} {:?} (buffer of {})", step, which, pos, len));
                let (o, after, after_pos) = read_chunk_into(&h, &shown, &z, m.kind, &pos, &before, &before_pos);
                let ok = match (&o, model[which].get(&pos)) {
                    (Out::Ok(None), None) => true,
                    (Out::Ok(Some(())), Some(d)) => *d == after && after_pos == pos,
                    _ => false,
                };
                reads += 1;
                absent += model[which].get(&pos).is_none() as u64;
                if !ok {
                    return fail(rep, &history, format!("read into buffer at {:?} gave {:?}{}", pos, o, mismatch(model[which].get(&pos), Some(&after))));
                }
            }
            _ => {
                history.push(format!("{}: read {} {:?}", step, which, pos));
                let o = read_chunk(&h, &shown, &z, m.kind, &pos);
                reads += 1;
                absent += model[which].get(&pos).is_none() as u64;
                match &o {
                    Out::Ok(v) if v.as_ref() == model[which].get(&pos) => (),
                    o => {
                        let got = match o {
                            Out::Ok(v) => v.as_ref(),
                            _ => None,
                        };
                        return fail(rep, &history, format!("read at {:?} gave {}{}", pos, o.class(), mismatch(model[which].get(&pos), got)));
                    }
                }
            }
        }
    }
    // At the end everything reads back through a new handle, also where never written.
    let h = gen::open(&base);
    for (which, p) in [&path, &path2].iter().enumerate() {
        let z = gen::must("reading the array's metadata", lib(|| h.get_array_metadata(p)));
        for pos in positions.iter().take(200) {
            let o = read_chunk(&h, p, &z, m.kind, pos);
            reads += 1;
            match &o {
                Out::Ok(v) if v.as_ref() == model[which].get(pos) => (),
                o => return fail(rep, &history, format!("final read of {} at {:?} gave {}", p, pos, o.class())),
            }
        }
    }
    rep.evaluations += reads;
    rep.add("writes", writes);
    rep.add("overwrites", overwrites);
    rep.add("deletes", deletes);
    rep.add("reads", reads);
    rep.add("absent_reads", absent);
    rep.seen("type_order_codec", crate::rng::hash_bytes(format!("{:?}{}{}{:?}", m.kind, m.big, m.c_order, m.codec).as_bytes()));
    rep.seen("ranks", m.rank() as u64);
    rep.count(&format!("arrays_{}", m.codec_name()));
    if writes > 0 {
        rep.distinct(format!("{}{:?}", m.describe(), history));
        rep.sample(json!({"array": m.describe(), "path": path, "history": history.iter().take(8).collect::<Vec<_>>()}));
    }
}

/// Read a chunk, make a used buffer a copy of it, and write that elsewhere. Gives what
/// the buffer held, and the position it had.
#[allow(clippy::type_complexity)]
fn copy_chunk<H: HierarchyReader + HierarchyWriter>(h: &H, path: &str, z: &ArrayMetadata, kind: Kind, pos: &[u64], before: &[u8], to: &[u64]) -> Out<Option<(Vec<u8>, Vec<u64>)>> {
    with_kind!(kind, T => {
        let mut b = VecDataChunk::<T>::new(gc(&[7, 7, 7]), from_bytes(before));
        lib(|| {
            let c = match h.read_chunk::<T>(path, z, gc(pos))? {
                None => return Ok(None),
                Some(c) => c,
            };
            b.reinitialize_with(&c);
            let held = (to_bytes(b.get_data()), b.get_grid_position().to_vec());
            let c = VecDataChunk::<T>::new(gc(to), b.into_data());
            h.write_chunk(path, z, &c)?;
            Ok(Some(held))
        })
    })
}

fn mismatch(want: Option<&Vec<u8>>, got: Option<&Vec<u8>>) -> String {
    match (want, got) {
        (Some(w), Some(g)) => {
            let i = w.iter().zip(g).position(|(a, b)| a != b);
            format!("; expected {} bytes, got {}, first difference at byte {:?}", w.len(), g.len(), i)
        }
        (Some(w), None) => format!("; expected {} bytes", w.len()),
        (None, _) => "; expected absent".into(),
    }
}

fn fail(rep: &mut Report, history: &[String], msg: String) {
    rep.case["history"] = json!(history);
    rep.violation(msg);
}
