//! P09 triangle-triangle intersection.
use crate::core::*;
use crate::g;
use crate::r#gen::*;
use crate::oracle::*;
use crate::w_geo::{pt, rp, style};
use cgar::geometry::point::Point;
use cgar::geometry::tri_tri_intersect::*;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};

type Tri = [V3; 3];

/// a point of the plane of t in a chosen relation to it
fn on_plane(r: &mut Rng, t: &Tri, s: Style) -> V3 {
    match r.below(6) {
        0 => t[r.below(3)].clone(),
        1 => {
            let i = r.below(3);
            t[i].lerp(&t[(i + 1) % 3], &unit_frac(r, s))
        }
        2 => {
            let i = r.below(3);
            t[i].lerp(&t[(i + 1) % 3], &ri(*r.pick(&[-1i64, 2, 3])))
        }
        3 => {
            let u = unit_frac(r, s);
            let w = unit_frac(r, s);
            t[0].lerp(&t[1], &u).lerp(&t[2], &w)
        }
        _ => {
            let u = num(r, Style::Tiny);
            let w = num(r, Style::Tiny);
            t[0].lerp(&t[1], &u).lerp(&t[2], &w)
        }
    }
}
pub fn tri_pair(r: &mut Rng, s: Style) -> Option<(Tri, Tri, &'static str)> {
    let mut p: Tri = std::array::from_fn(|_| vec_n(r, s));
    if r.chance(1, 3) {
        let k = r.below(3);
        let v = num(r, s);
        for x in &mut p {
            x.0[k] = v.clone();
        }
    }
    if normal(&p).is_zero() {
        return None;
    }
    let kind = r.below(8);
    let (mut q, name): (Tri, &str) = match kind {
        0 | 1 => (std::array::from_fn(|_| vec_n(r, s)), "random"),
        2 => {
            let a = on_plane(r, &p, s);
            ([a, vec_n(r, s), vec_n(r, s)], "corner in plane")
        }
        3 => {
            let (a, b) = (on_plane(r, &p, s), on_plane(r, &p, s));
            ([a, b, vec_n(r, s)], "edge in plane")
        }
        4 => (std::array::from_fn(|_| on_plane(r, &p, s)), "coplanar"),
        5 => {
            // piercing: an edge through a point of the plane
            let m = on_plane(r, &p, s);
            let w: V3 = vec_n(r, s);
            ([&m + &w, &m - &w, vec_n(r, s)], "piercing")
        }
        6 => {
            let o: V3 = vec_n(r, s);
            (std::array::from_fn(|i| &p[i] + &o), "translated")
        }
        _ => {
            // shares an edge
            let i = r.below(3);
            ([p[i].clone(), p[(i + 1) % 3].clone(), vec_n(r, s)], "shared edge")
        }
    };
    if normal(&q).is_zero() {
        return None;
    }
    r.shuffle(&mut p);
    r.shuffle(&mut q);
    if r.bool() { Some((p, q, name)) } else { Some((q, p, name)) }
}

pub fn kind(x: &TriX) -> &'static str {
    match x {
        TriX::None => "apart",
        TriX::Point(_) => "point",
        TriX::Seg(..) => "segment",
        TriX::Poly(_) => "polygon",
    }
}
fn near(exact: bool, a: &V3, b: &V3) -> bool {
    a == b || (!exact && (0..3).all(|i| close(&a.0[i], &b.0[i], 1e-7)))
}
/// segments shorter than the merge distance may be reported as a point
fn short(a: &V3, b: &V3) -> bool {
    (a - b).n2().to_f64() < 4e-12
}
/// list of reported segments vs what the triangles share
pub fn judge(exact: bool, got: &[(V3, V3)], want: &TriX) -> Result<(), String> {
    match want {
        TriX::None => {
            if got.is_empty() { Ok(()) } else { Err("apart".into()) }
        }
        TriX::Point(x) => {
            if got.len() == 1 && near(exact, &got[0].0, x) && near(exact, &got[0].1, x) { Ok(()) } else { Err(format!("point {}", x.s())) }
        }
        TriX::Seg(x, y) => {
            if short(x, y) {
                return Ok(());
            }
            let ok = got.len() == 1
                && ((near(exact, &got[0].0, x) && near(exact, &got[0].1, y)) || (near(exact, &got[0].0, y) && near(exact, &got[0].1, x)));
            if ok { Ok(()) } else { Err(format!("segment {} {}", x.s(), y.s())) }
        }
        TriX::Poly(_) => Ok(()),
    }
}
/// distance test for doubles, exact membership otherwise
fn in_tri(exact: bool, p: &V3, t: &Tri) -> bool {
    if exact {
        return locate3(p, t) != Loc::Out;
    }
    match bary(p, &t[0], &t[1], &t[2]) {
        None => false,
        Some(w) => {
            let n = normal(t);
            let d = n.dot(&(p - &t[0])).to_f64().abs() / n.n2().to_f64().sqrt();
            d < 1e-6 && w.iter().all(|x| x.to_f64() > -1e-6)
        }
    }
}
/// coplanar triangles: pieces inside both; the outline of the common polygon
pub fn judge_flat(exact: bool, got: &[(V3, V3)], want: &TriX, p: &Tri, q: &Tri) -> Result<(), String> {
    for (a, b) in got {
        for x in [a, b] {
            if !in_tri(exact, x, p) || !in_tri(exact, x, q) {
                return Err(format!("{} is not in both triangles", x.s()));
            }
        }
    }
    match want {
        TriX::None => {
            if !got.is_empty() {
                return Err("apart".into());
            }
        }
        TriX::Point(x) => {
            // a single common point may be left unreported
            if got.iter().any(|(a, b)| !near(exact, a, x) || !near(exact, b, x)) {
                return Err(format!("point {}", x.s()));
            }
        }
        TriX::Seg(x, y) => {
            if !short(x, y) {
                return judge(exact, got, want);
            }
        }
        TriX::Poly(v) => {
            if exact && v.iter().all(|a| v.iter().all(|b| a == b || !short(a, b))) {
                // corners of the reported outline = corners of the polygon
                let strict = corners(v);
                let mut g: Vec<V3> = got.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
                g.sort();
                g.dedup();
                let mut w = strict.clone();
                w.sort();
                if !w.iter().all(|x| g.contains(x)) {
                    return Err(format!("polygon {:?}", w.iter().map(|x| x.s()).collect::<Vec<_>>()));
                }
                // every reported piece runs along the polygon's border
                let m = strict.len();
                for (a, b) in got {
                    if !(0..m).any(|i| on_segment(a, &strict[i], &strict[(i + 1) % m]) && on_segment(b, &strict[i], &strict[(i + 1) % m])) {
                        return Err(format!("piece {} {} not along the outline", a.s(), b.s()));
                    }
                }
            } else if got.is_empty() {
                return Err("polygon".into());
            }
        }
    }
    Ok(())
}
fn corners(v: &[V3]) -> Vec<V3> {
    let m = v.len();
    (0..m).filter(|&i| !collinear(&v[(i + m - 1) % m], &v[i], &v[(i + 1) % m])).map(|i| v[i].clone()).collect()
}

g! {
    fn tri_any<T>(c: &mut Case) {
        let s = if T::EXACT { style::<T>(&mut c.rng) } else { Style::Tiny };
        let Some((mut p, mut q, name)) = tri_pair(&mut c.rng, s) else { return };
        if T::EXACT && c.rng.chance(1, 8) {
            let k = crate::w_geo::large(&mut c.rng);
            p = p.map(|x| x.scale(&k));
            q = q.map(|x| x.scale(&k));
            c.ev("large_figures");
        }
        if !T::EXACT && (p.iter().chain(q.iter())).any(|x| rp(&pt::<T, 3>(x)) != *x) {
            return;
        }
        let want = tri_tri(&p, &q);
        let ctx = || format!("{} [{}] {} {} {} x {} {} {} share {:?}", T::NAME, name, p[0].s(), p[1].s(), p[2].s(), q[0].s(), q[1].s(), q[2].s(), want);
        let tp: [Point<T, 3>; 3] = std::array::from_fn(|i| pt(&p[i]));
        let tq: [Point<T, 3>; 3] = std::array::from_fn(|i| pt(&q[i]));
        let (rpp, rqq) = ([&tp[0], &tp[1], &tp[2]], [&tq[0], &tq[1], &tq[2]]);
        let flat = cross3(&normal(&p), &normal(&q)).is_zero() && in_plane(&q[0], &p);
        let (pp, pq) = (TriPrecomp::new(&rpp), TriPrecomp::new(&rqq));
        let mut all: Vec<(&str, Vec<(V3, V3)>)> = vec![
            ("tri-tri", plain(&tri_tri_intersection(&rpp, &rqq))),
            ("tri-tri-precomp", plain(&tri_tri_intersection_with_precomp(&rpp, &rqq, &pp, &pq))),
            ("tri-tri-precomp-p", plain(&tri_tri_intersection_with_precomp_p(&rpp, &rqq, &pp))),
        ];
        for (n, d) in [
            ("tri-tri-detailed", tri_tri_intersection_detailed(&rpp, &rqq)),
            ("tri-tri-precomp-detailed", tri_tri_intersection_with_precomp_detailed(&rpp, &rqq, &pp, &pq)),
        ] {
            let mut segs = vec![];
            let ends: Vec<&[EndpointInfo<T, 3>; 2]> = match &d {
                TriTriIntersectionDetailed::None => vec![],
                TriTriIntersectionDetailed::Proper { ends } => vec![ends],
                TriTriIntersectionDetailed::Coplanar { segs } => segs.iter().collect(),
            };
            for e in ends {
                segs.push((rp(&e[0].point), rp(&e[1].point)));
                for x in e {
                    let at = rp(&x.point);
                    for (tri, on, w) in [(&p, &x.on_p, "p"), (&q, &x.on_q, "q")] {
                        let ok = contact_true(T::EXACT, &at, tri, on);
                        c.check(ok, "contact", || format!("{} {}: {} on {}: {:?}", ctx(), n, at.s(), w, contact_text(on)));
                        c.ev(match on { ContactOnTri::Vertex(_) => "contact_vertex", ContactOnTri::Edge { .. } => "contact_edge", ContactOnTri::Interior { .. } => "contact_interior" });
                    }
                }
            }
            all.push((n, segs));
        }
        for (n, got) in &all {
            let v = if flat { judge_flat(T::EXACT, got, &want, &p, &q) } else { judge(T::EXACT, got, &want) };
            if let Err(e) = v {
                c.fail(&format!("{}{}", n, if flat { "-coplanar" } else { "" }), || format!("{}: got {:?} ({})", ctx(), got.iter().map(|(a, b)| format!("{}-{}", a.s(), b.s())).collect::<Vec<_>>(), e));
            }
        }
        // the prepared triangle knows its inside
        c.check(!pp.degenerate && !pq.degenerate, "prepared-degenerate", ctx);
        let x = on_plane(&mut c.rng, &p, s);
        if T::EXACT || rp(&pt::<T, 3>(&x)) == x {
            let (got, inside) = (pp.inside_2d(&pt(&x)), locate3(&x, &p) != Loc::Out);
            c.check(got == inside, "prepared-inside", || format!("{} {} {}", ctx(), x.s(), got));
            c.ev("prepared_inside");
        }
        // nothing is reported against a collapsed triangle
        if c.rng.chance(1, 8) {
            let u = *c.rng.pick(&[0i64, 1, -1, 2]);
            let z: [Point<T, 3>; 3] = [tp[0].clone(), tp[1].clone(), pt(&p[0].lerp(&p[1], &ri(u)))];
            let rz = [&z[0], &z[1], &z[2]];
            let pz = TriPrecomp::new(&rz);
            let ok = pz.degenerate
                && matches!(tri_tri_intersection_with_precomp(&rz, &rqq, &pz, &pq), TriTriIntersectionResult::None)
                && matches!(tri_tri_intersection_with_precomp(&rqq, &rz, &pq, &pz), TriTriIntersectionResult::None)
                && matches!(tri_tri_intersection_with_precomp_p(&rqq, &rz, &pq), TriTriIntersectionResult::None)
                && matches!(tri_tri_intersection_with_precomp_detailed(&rz, &rqq, &pz, &pq), TriTriIntersectionDetailed::None);
            c.check(ok, "collapsed", || format!("{} third corner at {}", ctx(), u));
            c.ev("collapsed");
        }
        c.ev(&format!("{}{}", if flat { "coplanar_" } else { "" }, kind(&want)));
        c.nontrivial(hash_str(&ctx()));
        c.sample(&format!("{} {}", name, kind(&want)), ctx);
    }
    fn contact_text<T>(x: &ContactOnTri<T>) -> String {
        match x {
            ContactOnTri::Vertex(i) => format!("vertex {}", i),
            ContactOnTri::Edge { e, u } => format!("edge {:?} at {}", e, u.r()),
            ContactOnTri::Interior { bary } => format!("interior {} {} {}", bary.0.r(), bary.1.r(), bary.2.r()),
        }
    }
    fn contact_true<T>(exact: bool, at: &V3, t: &Tri, on: &ContactOnTri<T>) -> bool {
        match on {
            ContactOnTri::Vertex(i) => *i < 3 && near(exact, at, &t[*i]),
            ContactOnTri::Edge { e, u } => {
                let u = u.r();
                e.0 < 3 && e.1 < 3 && e.0 != e.1 && near(exact, at, &t[e.0].lerp(&t[e.1], &u)) && (!exact || (u > 0 && u < 1))
            }
            ContactOnTri::Interior { bary } => {
                let (a, b, d) = (bary.0.r(), bary.1.r(), bary.2.r());
                let m = &(&t[0].scale(&a) + &t[1].scale(&b)) + &t[2].scale(&d);
                near(exact, at, &m) && (!exact || (a > 0 && b > 0 && d > 0 && (&a + R::from(&b + &d)) == 1))
            }
        }
    }
    fn plain<T>(x: &TriTriIntersectionResult<T, 3>) -> Vec<(V3, V3)> {
        match x {
            TriTriIntersectionResult::None => vec![],
            TriTriIntersectionResult::Proper(s) | TriTriIntersectionResult::Coplanar(s) => vec![(rp(&s.a), rp(&s.b))],
            TriTriIntersectionResult::CoplanarPolygon(v) => v.iter().map(|s| (rp(&s.a), rp(&s.b))).collect(),
        }
    }
}
fn p09_pairs(c: &mut Case) {
    match c.rng.below(5) {
        0 | 1 => tri_any::<LazyExact>(c),
        2 | 3 => tri_any::<CgarRational>(c),
        _ => tri_any::<CgarF64>(c),
    }
}
// full doubles, where moving one triangle a little does not change the picture
fn p09_double(c: &mut Case) {
    let sc = 10f64.powi(c.rng.int(0, 3) as i32);
    let mut tri = || -> Tri { std::array::from_fn(|_| V(std::array::from_fn(|_| rf(c.rng.f(-1.0, 1.0) * sc)))) };
    let (p, q) = (tri(), tri());
    let size = |t: &Tri| normal(t).n2().to_f64().sqrt() / (sc * sc);
    let want = tri_tri(&p, &q);
    let stable = size(&p) > 0.1
        && size(&q) > 0.1
        && cross3(&normal(&p), &normal(&q)).n2().to_f64().sqrt() > 0.05 * sc.powi(4)
        && (0..6).all(|k| {
            let mut o = V3::zero();
            o.0[k / 2] = rf(if k % 2 == 0 { 1e-3 } else { -1e-3 } * sc);
            let m: Tri = std::array::from_fn(|i| &q[i] + &o);
            kind(&tri_tri(&p, &m)) == kind(&want)
        });
    if !stable {
        return;
    }
    let ctx = || format!("doubles {:?} x {:?} share {:?}", p, q, want);
    let tp: [Point<CgarF64, 3>; 3] = std::array::from_fn(|i| pt(&p[i]));
    let tq: [Point<CgarF64, 3>; 3] = std::array::from_fn(|i| pt(&q[i]));
    let (rpp, rqq) = ([&tp[0], &tp[1], &tp[2]], [&tq[0], &tq[1], &tq[2]]);
    let (pp, pq) = (TriPrecomp::new(&rpp), TriPrecomp::new(&rqq));
    let ends = |d: TriTriIntersectionDetailed<CgarF64, 3>| match &d {
        TriTriIntersectionDetailed::None => vec![],
        TriTriIntersectionDetailed::Proper { ends } => vec![(rp(&ends[0].point), rp(&ends[1].point))],
        TriTriIntersectionDetailed::Coplanar { segs } => segs.iter().map(|e| (rp(&e[0].point), rp(&e[1].point))).collect(),
    };
    for (n, got) in [
        ("double-tri-tri", plain(&tri_tri_intersection(&rpp, &rqq))),
        ("double-tri-tri-precomp", plain(&tri_tri_intersection_with_precomp(&rpp, &rqq, &pp, &pq))),
        ("double-tri-tri-precomp-p", plain(&tri_tri_intersection_with_precomp_p(&rpp, &rqq, &pp))),
        ("double-tri-tri-detailed", ends(tri_tri_intersection_detailed(&rpp, &rqq))),
        ("double-tri-tri-precomp-detailed", ends(tri_tri_intersection_with_precomp_detailed(&rpp, &rqq, &pp, &pq))),
    ] {
        if let Err(e) = judge(false, &got, &want) {
            c.fail(n, || format!("{}: got {:?} ({})", ctx(), got.iter().map(|(a, b)| format!("{}-{}", a.s(), b.s())).collect::<Vec<_>>(), e));
        }
    }
    c.ev(&format!("double_{}", kind(&want)));
    c.nontrivial(hash_str(&ctx()));
}

pub const P09: Prop = Prop {
    id: "P09", schedules: false,
    rule: "pairs of non-degenerate triangles: random, with corners or edges of one in the other's plane (at corners, on edges, on extensions, inside), sharing an edge, piercing, translated, coplanar in axis-parallel and tilted planes; vertices permuted and triangles swapped at random; all three scalar types; all five variants. The reported set and the stated contacts are compared with exact clipping. Non-trivial: distinct by coordinates",
    assumptions: &["shared segments shorter than the merge distance of 1e-6 may be reported as a point", "coplanar triangles sharing a single point may report nothing", "doubles are exercised on small integers, and on random values in stable position"],
    workloads: &[
        Workload { name: "pairs", f: p09_pairs, quick: 150_000, thorough: 2_500_000 },
        Workload { name: "double", f: p09_double, quick: 30_000, thorough: 1_000_000 },
    ],
    min_events: &[("double_segment", 300), ("double_apart", 300), ("prepared_inside", 1000), ("collapsed", 300), ("apart", 500), ("point", 500), ("segment", 500), ("coplanar_apart", 100), ("coplanar_segment", 100), ("coplanar_polygon", 500), ("contact_vertex", 500), ("contact_edge", 500), ("contact_interior", 500)],
};
