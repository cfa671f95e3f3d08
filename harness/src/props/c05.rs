//! C05: fill values of every type, in absent chunks and partially written ones.

use serde_json::{json, Value};
use zarr::prelude::*;

use crate::gen;
use crate::mem::MemHierarchy;
use crate::props::c04::offset_in_chunk;
use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

/// A fill value in its written form; `None` for an entry that is missing.
enum Fill {
    Valid(Option<Value>),
    Invalid(Value),
}

fn random_float(r: &mut Rng, kind: Kind) -> Value {
    let x = match kind {
        Kind::F2 => half::f16::from_bits(r.u64() as u16).to_f64(),
        Kind::F4 => f32::from_bits(r.u64() as u32) as f64,
        _ => f64::from_bits(r.u64()),
    };
    let x = if x.is_finite() { x } else { 1.5 };
    // Only numbers that survive this JSON implementation's decimal notation.
    let s = serde_json::to_string(&x).unwrap();
    match serde_json::from_str::<f64>(&s) {
        Ok(y) if y == x => json!(x),
        _ => json!((x as f32 * 8.0).round() as f64 / 8.0).as_f64().filter(|v| v.is_finite()).map_or(json!(0.25), |v| {
            let s = serde_json::to_string(&v).unwrap();
            if serde_json::from_str::<f64>(&s).unwrap() == v { json!(v) } else { json!(0.25) }
        }),
    }
}

fn gen_fill(r: &mut Rng, kind: Kind) -> Fill {
    if r.chance(1, 8) {
        return Fill::Valid(if r.bool() { None } else { Some(Value::Null) });
    }
    let invalid = r.chance(1, 3);
    if kind == Kind::Bool {
        return if invalid {
            Fill::Invalid(r.pick(&[json!(0), json!(1), json!("true"), json!([]), json!({}), json!(0.5), json!("")]).clone())
        } else {
            Fill::Valid(Some(json!(r.bool())))
        };
    }
    if let Some((lo, hi)) = kind.int_range() {
        if invalid {
            let over: Vec<i128> = [hi + 1, hi + 2, lo - 1, hi * 2, lo - 300, u64::MAX as i128, i64::MIN as i128]
                .iter()
                .cloned()
                .filter(|&x| (x < lo || x > hi) && x >= i64::MIN as i128 && x <= u64::MAX as i128)
                .collect();
            if !over.is_empty() && r.bool() {
                let x = *r.pick(&over);
                return Fill::Invalid(if x < 0 { json!(x as i64) } else { json!(x as u64) });
            }
            return Fill::Invalid(
                r.pick(&[json!("0"), json!(true), json!(false), json!([1]), json!({"a": 1}), json!(0.5), json!("NaN"), json!(1e300), json!("Infinity")]).clone(),
            );
        }
        return Fill::Valid(Some(gen::fill_value(r, kind)));
    }
    if invalid {
        return Fill::Invalid(
            r.pick(&[json!("nan"), json!("inf"), json!("1.0"), json!(true), json!([0.0]), json!({}), json!(""), json!("infinity"), json!("NaN "), json!("+Infinity")])
                .clone(),
        );
    }
    Fill::Valid(Some(if r.bool() { random_float(r, kind) } else { gen::fill_value(r, kind) }))
}

pub fn case(cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    let o = gen::Opts { max_rank: 3, max_chunk_bytes: 200, max_chunks: 12, ..Default::default() };
    let mut m = gen::meta(r, &o);
    m.extended = r.chance(1, 6);
    let fill = gen_fill(r, m.kind);
    let valid = match fill {
        Fill::Valid(f) => {
            m.fill = f;
            true
        }
        Fill::Invalid(f) => {
            m.fill = Some(f);
            false
        }
    };
    rep.case["array"] = m.describe();
    rep.case["representable"] = json!(valid);
    let fs = r.chance(1, 3);
    if fs {
        let base = cx.sub("h");
        let h = gen::create(&base);
        run(&h, &m, valid, r, rep);
    } else {
        run(&MemHierarchy::new(None), &m, valid, r, rep);
    }
}

/// The document as another program may have written it.
fn run<H: HierarchyReader + HierarchyWriter>(h: &H, m: &Meta, valid: bool, r: &mut Rng, rep: &mut Report) {
    let path = "n/a";
    let z = gen::create_array(h, path, m);
    let z = if r.bool() { z } else { gen::must("reading metadata", lib(|| h.get_array_metadata(path))) };
    let sz = m.kind.size();
    let zero = vec![0; m.rank()];
    let total: u64 = m.shape.iter().product();
    rep.evaluations += 1;
    rep.count(if valid { "valid_fills" } else { "invalid_fills" });
    rep.seen("type_fill", crate::rng::hash_bytes(format!("{:?}{:?}", m.kind, m.fill).as_bytes()));
    rep.distinct(m.describe().to_string());

    let effective = with_kind!(m.kind, T => {
        lib(|| z.get_effective_fill_value::<T>()).map(|x| to_bytes(&[x]))
    });
    if !valid {
        let read = read_region(h, path, &z, m.kind, &zero, &m.shape);
        let data = gen_data(r, m.kind, total as usize);
        let write = write_region(h, path, &z, m.kind, &zero, &m.shape, &data, Layout::C);
        for (what, o) in [("effective fill value", effective.class()), ("region read", read.class()), ("region write", write.class())] {
            if !o.starts_with("err") {
                rep.violation(format!("{} with the fill value {:?} of {:?} is {}", what, m.fill, m.kind, o));
            }
        }
        let p = m.positions();
        if !p.iter().take(20).all(|p| read_chunk(h, path, &z, m.kind, p) == Out::Ok(None)) {
            rep.violation("a refused region write left a chunk");
        }
        return;
    }
    let want = gen::fill_bytes(m.kind, &m.fill);
    match &effective {
        Out::Ok(e) if gen::same_fill(m.kind, e, &want) => (),
        o => return rep.violation(format!("effective fill value of {:?} {:?} is {:?}, expected {:?}", m.kind, m.fill, o, want)),
    }
    // All of the array is uninitialised.
    match read_region(h, path, &z, m.kind, &zero, &m.shape) {
        Out::Ok((s, d)) if s == m.shape && d.len() == total as usize * sz => {
            if let Some(e) = d.chunks(sz).find(|e| !gen::same_fill(m.kind, e, &want)) {
                return rep.violation(format!("uninitialised element reads as {:?}, expected {:?}", e, want));
            }
            rep.add("elements_compared", total);
        }
        o => return rep.violation(format!("reading uninitialised elements: {:?}", o)),
    }
    // One element of a new chunk is written; the rest of the chunk is stored.
    let at: Vec<u64> = m.shape.iter().map(|&s| r.below(s)).collect();
    let data = gen_data(r, m.kind, 1);
    let one = vec![1; m.rank()];
    gen::must("region write", write_region(h, path, &z, m.kind, &at, &one, &data, Layout::C));
    let pos: Vec<u64> = at.iter().zip(&m.chunk).map(|(a, &c)| a / c as u64).collect();
    let inner: Vec<u64> = at.iter().zip(&m.chunk).map(|(a, &c)| a % c as u64).collect();
    let i = offset_in_chunk(m, &inner);
    rep.evaluations += 1;
    match read_chunk(h, path, &z, m.kind, &pos) {
        Out::Ok(Some(c)) => {
            for (k, e) in c.chunks(sz).enumerate() {
                let ok = if k == i { e == &data[..] } else { gen::same_fill(m.kind, e, &want) };
                if !ok {
                    return rep.violation(format!("element {} of a partially written chunk is stored as {:?}, fill {:?}, written {} {:?}", k, e, want, i, data));
                }
                rep.count("elements_compared");
            }
        }
        o => return rep.violation(format!("partially written chunk: {}", o.class())),
    }
    rep.sample(json!({"type": m.dtype_json(), "fill_value": m.fill, "element": want, "array": m.shape}));
}
