//! P18 Delaunay and P19 constrained triangulation.
use crate::core::*;
use crate::g;
use crate::r#gen::*;
use crate::oracle::*;
use crate::per_scalar;
use crate::w_geo::{pt, rp};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use cgar::operations::triangulation::delaunay::{Delaunay, triangles_inside_for_job};
use std::collections::{BTreeMap, BTreeSet};

/// distinct points in many special positions
fn point_set(r: &mut Rng, exact: bool, big: usize) -> (Vec<V2>, &'static str) {
    let top = if r.chance(1, 4) { big } else { 12 };
    let n = 1 + r.below(top);
    let kind = if exact { r.below(12) } else { r.below(5) };
    let (mut p, name): (Vec<V2>, &'static str) = match kind {
        0 | 1 => {
            let k = 1 + r.int(0, 4);
            ((0..n).map(|_| V::i([r.int(-k, k), r.int(-k, k)])).collect(), "grid")
        }
        2 => ((0..n).map(|_| V::i([r.int(-40, 40), r.int(-40, 40)])).collect(), "integers"),
        3 => {
            // on one line, perhaps with a few points off it
            let (d, o): (V2, V2) = (V::i([r.int(-3, 3), r.int(1, 3)]), V::i([r.int(-5, 5), r.int(-5, 5)]));
            let mut v: Vec<V2> = (0..n).map(|_| &o + &d.scale(&ri(r.int(-9, 9)))).collect();
            for _ in 0..r.below(4) {
                v.push(V::i([r.int(-20, 20), r.int(-20, 20)]));
            }
            (v, "line")
        }
        4 => {
            // inside and on the border of a triangle given by the first three points
            let mut v: Vec<V2> = (0..3).map(|_| V::i([r.int(-32, 32), r.int(-32, 32)])).collect();
            let (n, q) = if r.chance(1, 12) { (20 + r.below(40), 16) } else { (n, 4) };
            for _ in 0..n {
                let (a, b) = (R::from((r.int(0, q), q)), R::from((r.int(0, q), q)));
                let k = r.below(3);
                v.push(v[k].lerp(&v[(k + 1) % 3], &a).lerp(&v[(k + 2) % 3], &b));
            }
            (v, "triangle")
        }
        5 => {
            // rational points of a circle
            let mut v: Vec<V2> = (0..n)
                .map(|_| {
                    let t = R::from((r.int(-12, 12), r.int(1, 6)));
                    let t2 = R::from(&t * &t);
                    let d = R::from(1 + &t2);
                    V([R::from(1 - t2) / &d * 5u32, R::from(2 * t) / &d * 5u32])
                })
                .collect();
            if r.bool() {
                v.push(V::zero());
            }
            (v, "circle")
        }
        6 => ((0..n).map(|_| vec_n(r, Style::Frac)).collect(), "fractions"),
        7 => ((0..n).map(|_| vec_n(r, Style::Float)).collect(), "doubles"),
        8 => {
            // almost on one line
            let e = R::from((1, *r.pick(&[1_000i64, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000])));
            let d: V2 = V::i([r.int(1, 7), r.int(-7, 7)]);
            ((0..n).map(|_| { let q = d.scale(&R::from((r.int(-60, 60), 4))); &q + &V([ri(0), R::from(&e * r.int(-5, 5))]) }).collect(), "almost a line")
        }
        9 => {
            let o = V::i([r.int(-9, 9) * 1_000_000_007, r.int(-9, 9) * 1_000_000_009]);
            ((0..n).map(|_| &o + &V::i([r.int(-9, 9), r.int(-9, 9)])).collect(), "far away")
        }
        10 => {
            // almost on one circle
            let e = R::from((1, *r.pick(&[1_000_000i64, 1_000_000_000_000, 1_000_000_000_000_000])));
            ((0..n)
                .map(|_| {
                    let t = R::from((r.int(-12, 12), r.int(1, 6)));
                    let t2 = R::from(&t * &t);
                    let d = R::from(1 + &t2);
                    let k = R::from(&e * r.int(-3, 3)) + 5;
                    V([R::from(1 - t2) / &d * &k, R::from(2 * t) / &d * &k])
                })
                .collect(), "almost a circle")
        }
        _ => {
            // clusters of different scales
            let mut v = vec![];
            for _ in 0..n {
                let e = R::from((1, *r.pick(&[1i64, 1000, 1 << 30, 1 << 50])));
                let o: V2 = V::i([*r.pick(&[0, 0, 100, -1000]), *r.pick(&[0, 0, 77, 1_000_000])]);
                v.push(&o + &V::<2>::i([r.int(-4, 4), r.int(-4, 4)]).scale(&e));
            }
            (v, "scales")
        }
    };
    if exact && name != "triangle" && r.chance(1, 10) {
        // so large that no double holds the products
        let k = crate::w_geo::large(r);
        p = p.iter().map(|q| q.scale(&k)).collect();
    }
    let mut seen = BTreeSet::new();
    p.retain(|q| seen.insert(q.s()));
    if name != "triangle" {
        r.shuffle(&mut p);
    }
    (p, name)
}
/// points far apart on a line with others close to it in between, and a constraint along the line
fn spine_set(r: &mut Rng) -> (Vec<V2>, &'static str, Vec<[usize; 2]>) {
    let d: V2 = V::i(*r.pick(&[[1, 0], [0, 1], [0, -1], [2, 1], [-1, 3], [-3, -2]]));
    let n: V2 = V([R::from(-&d.0[1]), d.0[0].clone()]);
    let o: V2 = V::i([r.int(-9, 9), r.int(-9, 9)]);
    let mut p = vec![];
    let mut on = vec![];
    let mut at = 0;
    for k in 0..3 + r.below(4) {
        if k > 0 {
            let gap = r.int(4, 12);
            for _ in 0..r.below(3) {
                let t = at + r.int(1, gap - 1);
                let h = r.int(1, 2);
                p.push(&(&o + &d.scale(&ri(t))) + &n.scale(&ri(h)));
                p.push(&(&o + &d.scale(&ri(t))) - &n.scale(&ri(h)));
            }
            at += gap;
        }
        on.push(&o + &d.scale(&ri(at)));
    }
    let ends = (on[0].clone(), on[on.len() - 1].clone());
    p.extend(on);
    for _ in 0..r.below(5) {
        p.push(&(&o + &d.scale(&ri(r.int(-9, at + 9)))) + &n.scale(&ri(r.int(-9, 9))));
    }
    let mut seen = BTreeSet::new();
    p.retain(|q| seen.insert(q.s()));
    r.shuffle(&mut p);
    let i = p.iter().position(|q| *q == ends.0).unwrap();
    let j = p.iter().position(|q| *q == ends.1).unwrap();
    let s = if r.bool() { [i, j] } else { [j, i] };
    (p, "spine", vec![s])
}
fn hull_area2(p: &[V2]) -> R {
    let mut q: Vec<&V2> = p.iter().collect();
    q.sort_by(|a, b| a.0[0].cmp(&b.0[0]).then(a.0[1].cmp(&b.0[1])));
    let half = |it: &mut dyn Iterator<Item = &V2>| -> Vec<V2> {
        let mut h: Vec<V2> = vec![];
        for v in it {
            while h.len() > 1 && sgn(&orient2(&h[h.len() - 2], &h[h.len() - 1], v)) <= 0 {
                h.pop();
            }
            h.push(v.clone());
        }
        h.pop();
        h
    };
    let mut h = half(&mut q.iter().copied());
    h.extend(half(&mut q.iter().rev().copied()));
    let mut s = R::new();
    for i in 0..h.len() {
        s += cross2(&h[i], &h[(i + 1) % h.len()]);
    }
    s
}
/// Is this a triangulation of the convex hull of the points that uses all of them?
fn triangulation(p: &[V2], t: &[[usize; 3]]) -> Result<(), (&'static str, String)> {
    let mut dir = BTreeSet::new();
    let mut used = BTreeSet::new();
    let mut area = R::new();
    for x in t {
        if x.iter().any(|&i| i >= p.len()) {
            return Err(("index", format!("{:?}", x)));
        }
        let a = orient2(&p[x[0]], &p[x[1]], &p[x[2]]);
        if sgn(&a) <= 0 {
            return Err(("orientation", format!("{:?}", x)));
        }
        area += a;
        for k in 0..3 {
            if !dir.insert((x[k], x[(k + 1) % 3])) {
                return Err(("edge-twice", format!("{:?} {:?}", x, (x[k], x[(k + 1) % 3]))));
            }
            used.insert(x[k]);
        }
    }
    let want = hull_area2(p);
    if area != want {
        return Err(("area", format!("{} of {}", area, want)));
    }
    if sgn(&want) > 0 && used.len() != p.len() {
        return Err(("points-used", format!("{} of {}", used.len(), p.len())));
    }
    for &(a, b) in &dir {
        if !dir.contains(&(b, a)) && p.iter().any(|q| sgn(&orient2(&p[a], &p[b], q)) < 0) {
            return Err(("gap", format!("edge {} {}", a, b)));
        }
    }
    Ok(())
}
fn show(p: &[V2]) -> String {
    p.iter().map(|q| q.s()).collect::<Vec<_>>().join(" ")
}
g! {
fn delaunay<T>(c: &mut Case) {
    let (mut p, name) = point_set(&mut c.rng, T::EXACT, 40);
    let distinct = p.clone();
    let dup = !p.is_empty() && c.rng.chance(1, 12);
    if dup { let q = c.rng.pick(&p).clone(); p.push(q); c.ev("repeated-point"); }
    let pts: Vec<_> = p.iter().map(|q| pt::<T, 2>(q)).collect();
    if pts.iter().zip(&p).any(|(a, b)| rp(a) != *b) { return; }
    let d = Delaunay::build(&pts);
    let t: Vec<[usize; 3]> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
    c.ev(name);
    c.ev(if t.is_empty() { "no-triangle" } else { "triangulated" });
    c.evn("triangles", t.len() as u64);
    c.nontrivial(hash_str(&show(&p)));
    c.sample(name, || format!("{} points, {} triangles", p.len(), t.len()));
    c.check(d.points.len() == p.len() && d.points.iter().zip(&p).all(|(a, b)| rp(a) == *b), "points-kept", || format!("{} {}", T::NAME, show(&p)));
    // judge without the repeated point: every index may stand for its first occurrence
    let canon = |i: usize| distinct.iter().position(|q| *q == p[i]).unwrap();
    if let Some(x) = t.iter().find(|x| x.iter().any(|&i| i >= p.len())) { c.fail("index", || format!("{:?}", x)); return; }
    let tc: Vec<[usize; 3]> = t.iter().map(|x| x.map(canon)).collect();
    if let Err((k, m)) = triangulation(&distinct, &tc) {
        c.fail(k, || format!("{} {} {}: {} triangles {:?}", T::NAME, name, show(&p), m, t));
        return;
    }
    let bad = tc.iter().find_map(|x| distinct.iter().position(|q| sgn(&incircle(&distinct[x[0]], &distinct[x[1]], &distinct[x[2]], q)) > 0).map(|k| (*x, k)));
    c.check(bad.is_none(), "empty-circle", || format!("{} {} {}: point {} in circle of {:?}; triangles {:?}", T::NAME, name, show(&p), bad.unwrap().1, bad.unwrap().0, t));
}
fn constrained<T>(c: &mut Case) {
    let jobs = 1 + if c.rng.chance(1, 3) { c.rng.below(4) } else { 0 };
    let mut made = vec![];
    for k in 0..jobs {
        let spine = c.rng.chance(1, 4);
        let (p, name, mut segs) = if spine { spine_set(&mut c.rng) } else { let (p, name) = point_set(&mut c.rng, T::EXACT, 24); (p, name, vec![]) };
        let pts: Vec<_> = p.iter().map(|q| pt::<T, 2>(q)).collect();
        if pts.iter().zip(&p).any(|(a, b)| rp(a) != *b) { return; }
        if p.len() > 1 {
            let tries = c.rng.below(4 + 3 * p.len());
            for _ in 0..tries {
                let (i, j) = (c.rng.below(p.len()), c.rng.below(p.len()));
                if i == j { if c.rng.chance(1, 8) { segs.push([i, j]); } continue; }
                let fine = segs.iter().all(|s| s[0] == s[1] || match seg_seg(&p[i], &p[j], &p[s[0]], &p[s[1]]) {
                    SegX::Point(x) => p.contains(&x),
                    _ => true,
                });
                if fine { segs.push([i, j]); }
            }
        }
        made.push((p, name, FaceJobUV { face_id: 3 + 2 * k, verts_global: (0..pts.len()).map(|i| 10 * i).collect(), points_uv: pts, segments: segs }));
    }
    let mesh = Mesh::<T, 3>::new();
    let jobs: Vec<FaceJobUV<T>> = made.iter().map(|(_, _, j)| FaceJobUV { face_id: j.face_id, verts_global: j.verts_global.clone(), points_uv: j.points_uv.clone(), segments: j.segments.clone() }).collect();
    let batch = Delaunay::build_batch_with_constraints_bowyer_watson(&jobs, &mesh);
    if !c.check(batch.len() == jobs.len(), "batch-length", || format!("{} of {}", batch.len(), jobs.len())) { return; }
    for (k, (p, name, job)) in made.iter().enumerate() {
        let one = Delaunay::build_with_constraints_bowyer_watson(&job.points_uv, &job.segments, &mesh, job);
        c.nontrivial(hash_str(&format!("{} {:?}", show(p), job.segments)));
        c.ev(name);
        c.sample(name, || format!("{} points, {} constraints", p.len(), job.segments.len()));
        for (d, how) in [(&one, "single"), (&batch[k], "batch")] {
            let t: Vec<[usize; 3]> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
            let say = || format!("{} {} {} {} constraints {:?} triangles {:?}", T::NAME, how, name, show(p), job.segments, t);
            if !c.check(d.points.len() == p.len() && d.points.iter().zip(p).all(|(a, b)| rp(a) == *b), "points-kept", say) { return; }
            if let Err((s, m)) = triangulation(p, &t) { c.fail(s, || format!("{}: {}", m, say())); return; }
            if t.is_empty() { c.ev("no-triangle"); continue; }
            let edges: BTreeSet<(usize, usize)> = t.iter().flat_map(|x| [(x[0], x[1]), (x[1], x[2]), (x[2], x[0])]).map(|(a, b)| (a.min(b), a.max(b))).collect();
            let dt = Delaunay::build(&job.points_uv);
            let plain: BTreeSet<(usize, usize)> = dt.triangles.iter().flat_map(|x| [(x.0, x.1), (x.1, x.2), (x.2, x.0)]).map(|(a, b)| (a.min(b), a.max(b))).collect();
            for s in &job.segments {
                if s[0] == s[1] { continue; }
                let mut on: BTreeMap<R, usize> = BTreeMap::new();
                for (i, q) in p.iter().enumerate() {
                    if on_segment(q, &p[s[0]], &p[s[1]]) { on.insert(param(q, &p[s[0]], &p[s[1]]), i); }
                }
                let chain: Vec<usize> = on.values().copied().collect();
                if chain.len() > 2 { c.ev("constraint-through-points"); }
                for w in chain.windows(2) {
                    let e = (w[0].min(w[1]), w[0].max(w[1]));
                    c.ev(if plain.contains(&e) { "constraint-already-edge" } else { "constraint-forced" });
                    if !c.check(edges.contains(&e), "constraint-lost", || format!("{:?}: {}", e, say())) { return; }
                }
            }
            // faces cut along constraints are bounded by the triangle of the first three points
            if *name == "triangle" && p.len() > 2 && sgn(&orient2(&p[0], &p[1], &p[2])) != 0 && p.iter().all(|q| locate_flat(q, &p[0], &p[1], &p[2]) != Loc::Out) {
                let got = triangles_inside_for_job(&job.points_uv, &d.triangles, &job.segments);
                c.ev("face-job");
                c.check((0..t.len()).all(|i| got.contains(&i)) && got.len() == t.len(), "inside-face", || format!("{:?} kept: {}", got, say()));
            }
        }
    }
}
}
fn p18(c: &mut Case) {
    per_scalar!(c, T => delaunay::<T>(c))
}
fn p19(c: &mut Case) {
    per_scalar!(c, T => constrained::<T>(c))
}
pub const P18: Prop = Prop {
    id: "P18", schedules: false,
    rule: "point sets on grids, lines, circles, inside triangles, almost on lines and circles, far away and of mixed scale; every triangulation is checked for orientation, edges used once, hull area, gaps, use of all points and empty circumcircles in rational arithmetic. Non-trivial: distinct point sequences",
    assumptions: &["doubles: points of small grids, where the floating-point determinants are exact"],
    workloads: &[Workload { name: "delaunay", f: p18, quick: 40_000, thorough: 1_500_000 }],
    min_events: &[("triangulated", 1000), ("circle", 50), ("line", 50), ("almost a line", 50), ("almost a circle", 50), ("far away", 50), ("scales", 50), ("no-triangle", 50)],
};
pub const P19: Prop = Prop {
    id: "P19", schedules: false,
    rule: "planar straight-line graphs over the point sets of P18 with random non-crossing constraints, alone and in batches; every result is checked as a triangulation in rational arithmetic and searched for every constraint. Non-trivial: distinct graphs",
    assumptions: &["constraints meet only at given points", "doubles: points of small grids"],
    workloads: &[Workload { name: "constrained", f: p19, quick: 16_000, thorough: 400_000 }],
    min_events: &[("constraint-forced", 500), ("constraint-through-points", 200), ("constraint-already-edge", 1000), ("face-job", 200)],
};
