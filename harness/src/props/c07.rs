//! C07: bounding boxes as sets of elements.

use serde_json::json;
use zarr::ndarray::BoundingBox;

use crate::report::Report;
use crate::rng::Rng;
use crate::types::*;
use crate::Cx;

type B = (Vec<u64>, Vec<u64>);

fn lib_box(b: &B) -> BoundingBox {
    bbox(&b.0, &b.1)
}

fn inside(b: &B, x: &[u64]) -> bool {
    x.iter().zip(b.0.iter().zip(&b.1)).all(|(&x, (&o, &s))| x >= o && x - o < s)
}

/// Offset and shape of a box through its public accessors.
fn parts(b: &BoundingBox) -> B {
    let s: Vec<u64> = b.shape_ndarray_shape().iter().map(|&s| s as u64).collect();
    (b.end().zip(&s).map(|(e, s)| e - s).collect(), s)
}

pub fn case(_cx: &mut Cx, r: &mut Rng, rep: &mut Report) {
    // Coordinates of more than six axes are stored differently.
    let rank = if r.chance(1, 10) { r.range(5, 9) } else { r.below(5) } as usize;
    let small = r.chance(2, 3);
    let gen = |r: &mut Rng| -> B {
        let (mut o, mut s) = (vec![], vec![]);
        for _ in 0..rank {
            if small {
                o.push(r.below(7));
                s.push(if r.chance(1, 8) { 0 } else { r.range(1, 5) });
            } else {
                let big = [0, 1, (1 << 32) - 1, 1 << 32, 1 << 53, 1 << 61, (1 << 62) - 3, 1 << 63, u64::MAX - 1, u64::MAX];
                o.push(if r.bool() { *r.pick(&big) } else { r.u64() >> r.range(0, 63) });
                s.push(if r.bool() { *r.pick(&big) } else { r.u64() >> r.range(0, 63) });
            }
        }
        // The end of a box is a coordinate.
        let s = s.iter().zip(&o).map(|(&s, &o): (&u64, &u64)| s.min(u64::MAX - o)).collect();
        (o, s)
    };
    let a = gen(r);
    let mut b = gen(r);
    // Touching and overlapping boxes.
    for i in 0..rank {
        match r.below(6) {
            0 => b.0[i] = a.0[i] + a.1[i],
            1 => b.0[i] = a.0[i],
            2 => b.1[i] = a.1[i],
            3 if a.1[i] > 0 => b.0[i] = a.0[i] + r.below(a.1[i]),
            _ => (),
        }
        b.1[i] = b.1[i].min(u64::MAX - b.0[i]);
    }
    rep.case["a"] = json!(a);
    rep.case["b"] = json!(b);
    rep.distinct(format!("{:?}{:?}", a, b));
    let (la, lb) = (lib_box(&a), lib_box(&b));
    let empty = |x: &B| x.1.contains(&0);
    macro_rules! check {
        ($c:expr, $($m:tt)*) => {{
            rep.evaluations += 1;
            if !$c {
                return rep.violation(format!($($m)*));
            }
        }};
    }
    macro_rules! call {
        ($what:expr, $e:expr) => {
            match lib_plain(|| $e) {
                Out::Ok(x) => x,
                o => return rep.violation(format!("{}: {}", $what, o.class())),
            }
        };
    }

    // Accessors.
    let end: Vec<u64> = call!("end", la.end().collect());
    let want_end: Vec<u64> = a.0.iter().zip(&a.1).map(|(o, s)| o + s).collect();
    check!(end == want_end, "end {:?}, expected {:?}", end, want_end);
    check!(call!("is_empty", la.is_empty()) == empty(&a), "is_empty of {:?}", a);
    check!(parts(&la) == a, "parts of {:?}: {:?}", a, parts(&la));
    if a.1.iter().all(|&s| s <= u32::MAX as u64) {
        let s: Vec<u64> = call!("shape_chunk", la.shape_chunk().iter().map(|&s| s as u64).collect());
        check!(s == a.1, "shape_chunk {:?} of {:?}", s, a);
    }

    // Intersection.
    let mut i1 = la.clone();
    call!("intersect", i1.intersect(&lb));
    let mut i2 = lb.clone();
    call!("intersect", i2.intersect(&la));
    let per_axis = |f: &dyn Fn(u64, u64, u64, u64) -> (u64, u64)| -> B {
        let v: Vec<(u64, u64)> = (0..rank).map(|i| f(a.0[i], a.0[i] + a.1[i], b.0[i], b.0[i] + b.1[i])).collect();
        (v.iter().map(|x| x.0).collect(), v.iter().map(|x| x.1).collect())
    };
    let inter = per_axis(&|ao, ae, bo, be| {
        let o = ao.max(bo);
        (o, ae.min(be).saturating_sub(o))
    });
    check!(i1.is_empty() == empty(&inter), "intersection {:?} of {:?} and {:?} empty: {}", i1, a, b, i1.is_empty());
    check!(i2.is_empty() == empty(&inter), "intersection {:?} of {:?} and {:?} empty: {}", i2, b, a, i2.is_empty());
    if !empty(&inter) {
        check!(parts(&i1) == inter, "intersection {:?} of {:?} and {:?}, expected {:?}", i1, a, b, inter);
        check!(i1 == i2, "intersection does not commute: {:?} and {:?}", i1, i2);
        rep.count("overlapping");
    } else {
        rep.count("disjoint");
    }
    let mut i3 = la.clone();
    call!("intersect", i3.intersect(&la));
    check!(i3 == la, "intersection of {:?} with itself: {:?}", a, i3);

    // Union.
    let mut u1 = la.clone();
    call!("union", u1.union(&lb));
    let mut u2 = lb.clone();
    call!("union", u2.union(&la));
    let uni = per_axis(&|ao, ae, bo, be| (ao.min(bo), ae.max(be) - ao.min(bo)));
    check!(parts(&u1) == uni, "union {:?} of {:?} and {:?}, expected {:?}", u1, a, b, uni);
    check!(u1 == u2, "union does not commute: {:?} and {:?}", u1, u2);
    let mut u3 = la.clone();
    call!("union", u3.union(&la));
    check!(u3 == la, "union of {:?} with itself: {:?}", a, u3);

    // Subtraction of an origin.
    let origin: Vec<u64> = a.0.iter().map(|&o| match r.below(3) { 0 => 0, 1 => o, _ => r.below(o.saturating_add(1)) }).collect();
    let d = call!("subtraction", la.clone() - &gc(&origin));
    let want: B = (a.0.iter().zip(&origin).map(|(a, o)| a - o).collect(), a.1.clone());
    check!(parts(&d) == want, "{:?} minus {:?} is {:?}", a, origin, d);

    if small {
        // Element by element.
        let mut n = 0;
        let points = if rank < 5 {
            coords(&vec![14; rank])
        } else {
            (0..2000)
                .map(|_| {
                    let near = if r.bool() { &a } else { &b };
                    (0..rank).map(|i| if r.chance(1, 9) { r.below(14) } else { near.0[i] + r.below(near.1[i].max(1)) }).collect()
                })
                .collect()
        };
        for x in points.iter().take(4000) {
            let (ia, ib) = (inside(&a, x), inside(&b, x));
            let ii = inside(&parts(&i1), x);
            if ii != (ia && ib) || ii != inside(&parts(&i2), x) {
                return rep.violation(format!("element {:?} in intersection: {}, in {:?}: {}, in {:?}: {}", x, ii, a, ia, b, ib));
            }
            if (ia || ib) && !inside(&parts(&u1), x) {
                return rep.violation(format!("element {:?} is not in the union", x));
            }
            n += 1;
        }
        rep.add("elements_tested", n);
        // The slice form addresses the same elements.
        let ext: Vec<usize> = (0..rank).map(|i| if rank < 5 { 14 } else { (a.0[i] + a.1[i]) as usize + r.usize(2) }).collect();
        if ext.iter().product::<usize>() > 60_000 {
            return rep.seen("ranks", rank as u64);
        }
        let arr = ndarray::ArrayD::from_shape_fn(ndarray::IxDyn(&ext), |ix| {
            use ndarray::Dimension;
            ix.slice().to_vec()
        });
        let slice = call!("to_ndarray_slice", la.to_ndarray_slice());
        let got = call!("slice", {
            let info = ndarray::SliceInfo::<_, ndarray::IxDyn>::new(slice).unwrap();
            let v = arr.slice(info.as_ref());
            (v.shape().to_vec(), v.iter().cloned().collect::<Vec<_>>())
        });
        let want: Vec<Vec<usize>> = coords(&a.1).iter().map(|c| c.iter().zip(&a.0).map(|(c, o)| (c + o) as usize).collect()).collect();
        let sh: Vec<usize> = a.1.iter().map(|&s| s as usize).collect();
        check!(got == (sh, want), "slice form of {:?} addresses {:?}", a, got.0);
    }
    rep.seen("ranks", rank as u64);
    rep.sample(json!({"a": a, "b": b, "intersection": inter, "union": uni}));
}
