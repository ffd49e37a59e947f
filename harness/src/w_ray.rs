//! P16 point-in-mesh and ray queries, P17 point location on a mesh.
use crate::core::*;
use crate::oracle::*;
use crate::w_geo::{pt, rp, same};
use crate::w_mesh::*;
use crate::zoo::*;
use crate::{g3, gm, per_scalar};
use cgar::geometry::vector::Vector;
use cgar::mesh::basic_types::{IntersectionHit, IntersectionResult, Mesh, PointInMeshResult};
use cgar::mesh::topology::{ray_segment_intersection_2d, FindFaceResult, VertexRayResult};
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::collections::BTreeSet;

fn glue(mut a: Shape<3>, b: Shape<3>, by: V3, inward: bool) -> Shape<3> {
    let k = a.pos.len();
    a.pos.extend(b.pos.iter().map(|p| p + &by));
    a.tris.extend(b.tris.iter().map(|t| { let t = t.map(|i| i + k); if inward { rev(t) } else { t } }));
    a.name = format!("{}{}{}", a.name, if inward { "-" } else { "+" }, b.name);
    a
}
/// a prism over a concave polygon
fn prism(poly: &[(i64, i64)], tris: &[Tri], h: i64, name: &str) -> Shape<3> {
    let n = poly.len();
    let mut pos: Vec<V3> = poly.iter().map(|p| V::i([p.0, p.1, 0])).collect();
    pos.extend(poly.iter().map(|p| V::i([p.0, p.1, h])));
    let mut t: Vec<Tri> = tris.iter().map(|t| rev(*t)).collect();
    t.extend(tris.iter().map(|t| t.map(|i| i + n)));
    for i in 0..n {
        let j = (i + 1) % n;
        t.push([i, j, j + n]);
        t.push([i, j + n, i + n]);
    }
    Shape { name: name.into(), pos, tris: t }
}
/// closed surfaces, many of them not convex
pub fn body(r: &mut Rng) -> Shape<3> {
    let s = match r.below(8) {
        0 => prism(&[(0, 0), (24, 0), (24, 8), (8, 8), (8, 24), (0, 24)], &[[0, 1, 2], [0, 2, 3], [0, 3, 5], [3, 4, 5]], 12, "ell"),
        1 => prism(&[(0, 0), (32, 0), (32, 24), (24, 24), (24, 8), (8, 8), (8, 24), (0, 24)], &[[0, 1, 5], [1, 4, 5], [1, 2, 4], [2, 3, 4], [0, 5, 7], [5, 6, 7]], 12, "u"),
        2 => {
            let a = cube([0, 0, 0], [24, 24, 24]);
            let b = if r.bool() { octa() } else { cube([0, 0, 0], [32, 32, 32]) };
            let b = Shape { pos: b.pos.iter().map(|p| p.scale(&R::from((1, 4)))).collect(), ..b };
            glue(a, b, V::i([8, 8, 8]), true)
        }
        3 => {
            let a = if r.bool() { cube([0, 0, 0], [16, 16, 16]) } else { octa() };
            glue(a, if r.bool() { tetra() } else { cube([0, 0, 0], [16, 16, 16]) }, V::i([40, r.int(-8, 8), r.int(-8, 8)]), false)
        }
        4 => torus(r),
        _ => solid(r),
    };
    if r.bool() { scramble(r, &s) } else { s }
}
/// side of a closed surface a point is on: parity along a ray in general position
pub fn side(r: &mut Rng, p: &V3, tris: &[[V3; 3]]) -> PointInMeshResult {
    if tris.iter().any(|t| in_plane(p, t) && locate3(p, t) != Loc::Out) {
        return PointInMeshResult::OnSurface;
    }
    'ray: loop {
        let d: V3 = V::i([r.int(-997, 997), r.int(-997, 997), r.int(-997, 997)]);
        if d.is_zero() {
            continue;
        }
        let q = p + &d;
        let mut n = 0;
        for t in tris {
            let e: [i32; 3] = std::array::from_fn(|k| sgn(&orient3(p, &q, &t[k], &t[(k + 1) % 3])));
            if e.iter().any(|x| *x > 0) && e.iter().any(|x| *x < 0) {
                continue;
            }
            if e.iter().any(|x| *x == 0) {
                continue 'ray;
            }
            let nn = normal(t);
            // p + s d in the plane
            let s = (&t[0] - p).dot(&nn) / d.dot(&nn);
            if sgn(&s) > 0 {
                n += 1;
            }
        }
        return if n % 2 == 1 { PointInMeshResult::Inside } else { PointInMeshResult::Outside };
    }
}

gm! {
fn refine<T, N>(c: &mut Case, h: &mut Hist<T, N>, n: usize, holes: bool) {
    for _ in 0..n {
        let Ok(s) = live(&h.m) else { return };
        let fs: Vec<usize> = s.keys().copied().collect();
        let f = *c.rng.pick(&fs);
        let t = s[&f];
        let q = tri_pts(&h.m, &t);
        if n3(&q).is_zero() { continue; }
        let (a, b) = (R::from((c.rng.int(1, 3), 4)), R::from((c.rng.int(1, 3), 4)));
        let k = c.rng.below(3);
        let op = c.rng.below(if holes { 5 } else { 4 });
        let p = if op < 2 { q[k].lerp(&q[(k + 1) % 3], &a) } else { q[0].lerp(&q[1], &a).lerp(&q[2], &b) };
        if !T::EXACT && (p != rp(&pt::<T, N>(&p)) || thin(&q)) { continue; }
        if h.m.vertices.iter().any(|v| (&rp(&v.position) - &p).n2() < R::from((1, 64))) { continue; }
        match op {
            0 | 1 => {
                let Some(he) = h.m.half_edge_between(t[k], t[(k + 1) % 3]) else { continue };
                h.log.push(format!("split({},{})", t[k], t[(k + 1) % 3]));
                let _ = h.m.split_edge(&mut h.tree, he, &pt(&p), true);
            }
            4 => {
                if fs.len() < 3 { continue; }
                h.log.push(format!("del{}", f));
                h.m.remove_triangle(f);
                h.tree = fresh_tree(&h.m);
            }
            _ => {
                h.log.push(format!("splitf{}", f));
                let _ = h.m.split_face(&mut h.tree, f, &pt(&p), true);
            }
        }
    }
    if c.rng.chance(1, 4) { h.m.remove_invalidated_faces(); h.tree = fresh_tree(&h.m); h.log.push("compact".into()); }
}
fn begin<T, N>(c: &mut Case, s: &Shape<N>, n: usize, holes: bool) -> Hist<T, N> {
    let m: Mesh<T, N> = make(s);
    let tree = fresh_tree(&m);
    let mut h = Hist { m, tree, log: vec![], name: s.name.clone(), fresh: 0 };
    let k = c.rng.below(n + 1);
    refine(c, &mut h, k, holes);
    h
}
}
/// a point on, beside or lined up with the surface
fn probe(c: &mut Case, tris: &[[V3; 3]], exact: bool) -> V3 {
    let pick = |c: &mut Case| { let t = c.rng.pick(tris).clone(); t };
    let t = pick(c);
    let k = c.rng.below(3);
    let q = |c: &mut Case| R::from((c.rng.int(0, 4), 4));
    let mut p = match c.rng.below(8) {
        0 => t[k].clone(),
        1 => { let a = q(c); t[k].lerp(&t[(k + 1) % 3], &a) }
        2 => { let (a, b) = (q(c), q(c)); t[0].lerp(&t[1], &a).lerp(&t[2], &b) }
        3 => {
            // coordinates of vertices, mixed: rays along the axes meet edges and vertices
            let mut p = V3::zero();
            for i in 0..3 { let u = pick(c); p.0[i] = u[c.rng.below(3)].0[i].clone(); }
            p
        }
        4 | 5 => { let (u, w) = (pick(c), pick(c)); let (a, b) = (q(c), c.rng.below(3)); t[k].lerp(&u[b], &a).lerp(&w[k], &R::from((1, 2))) }
        6 => { let u = pick(c); let (a, b, d) = (q(c), q(c), R::from((1, 2))); t[0].lerp(&t[1], &a).lerp(&t[2], &b).lerp(&u[k], &d) }
        _ => { let b = 1i64 << c.rng.int(3, 9); V::i([c.rng.int(-b, b), c.rng.int(-b, b), c.rng.int(-b, b)]) }
    };
    if c.rng.chance(1, 4) {
        let i = c.rng.below(3);
        let d = if exact && c.rng.bool() { R::from((1, 7)) } else { R::from((c.rng.int(-8, 8), 4)) };
        p.0[i] += d;
    }
    p
}
fn dist_to_plane2(p: &V3, t: &[V3; 3]) -> R {
    let n = normal(t);
    let d = (p - &t[0]).dot(&n);
    if n.is_zero() { return ri(1); }
    d.clone() * d / n.n2()
}

g3! {
fn inside3<T>(c: &mut Case, s: &Shape<3>) {
    let h = begin::<T, 3>(c, s, 6, false);
    let Ok(soup) = live(&h.m) else { return };
    let tris: Vec<[V3; 3]> = soup.values().map(|t| tri_pts(&h.m, t)).collect();
    let id = format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    for _ in 0..8 {
        let mut p = probe(c, &tris, T::EXACT);
        // just off where it is: nearer to the surface than doubles can tell
        if T::EXACT && c.rng.chance(1, 4) {
            let i = c.rng.below(3);
            let e = R::from((c.rng.int(-3, 3), 1_000_000_000i64));
            let e = if c.rng.bool() { e } else { R::from(&e * &e) * &e };
            p.0[i] += e;
            c.ev("beside-surface");
        }
        if !T::EXACT {
            if p != rp(&pt::<T, 3>(&p)) || tris.iter().any(thin) { continue; }
            if tris.iter().any(|t| { let d = dist_to_plane2(&p, t); sgn(&d) > 0 && d < R::from((1, 1_000_000)) }) { c.ev("too-near-skipped"); continue; }
        }
        let want = side(&mut c.rng, &p, &tris);
        c.ev(match want { PointInMeshResult::Inside => "inside", PointInMeshResult::Outside => "outside", _ => "on-surface" });
        c.nontrivial(mix(hash_str(&id), hash_str(&p.s())));
        let got = h.m.point_in_mesh_3(&h.tree, &pt(&p));
        c.check(got == want, "side", || format!("{}: {} is {:?}, reported {:?}", id, p.s(), want, got));
        if c.rng.chance(1, 8) {
            c.sample("point", || format!("{}: {} {:?}", id, p.s(), want));
            let t2 = h.m.build_face_tree();
            let g2 = h.m.point_in_mesh_3(&t2, &pt(&p));
            c.check(g2 == got, "side-tree", || format!("{}: {} reported {:?} and {:?} with a fresh tree", id, p.s(), got, g2));
        }
    }
}
fn ray3<T>(c: &mut Case, s: &Shape<3>) {
    let h = begin::<T, 3>(c, s, 5, true);
    let Ok(soup) = live(&h.m) else { return };
    let tris: Vec<(usize, Tri, [V3; 3])> = soup.iter().map(|(f, t)| (*f, *t, tri_pts(&h.m, t))).collect();
    let only: Vec<[V3; 3]> = tris.iter().map(|x| x.2.clone()).collect();
    let id = format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    for _ in 0..6 {
        let p = probe(c, &only, T::EXACT);
        let d = match c.rng.below(3) {
            0 => { let mut d = V3::zero(); d.0[c.rng.below(3)] = ri(if c.rng.bool() { 1 } else { -2 }); d }
            1 => { let q = probe(c, &only, T::EXACT); &q - &p }
            _ => V::i([c.rng.int(-5, 5), c.rng.int(-5, 5), c.rng.int(-5, 5)]),
        };
        if d.is_zero() { continue; }
        if !T::EXACT && (p != rp(&pt::<T, 3>(&p)) || d != rp(&pt::<T, 3>(&d)) || only.iter().any(thin)) { continue; }
        // every crossing with a face the ray is not parallel to
        let mut best: Option<R> = None;
        let mut doubtful = false;
        for t in &only {
            let n = normal(t);
            let det = d.dot(&n);
            if sgn(&det) == 0 { continue; }
            let tt = (&t[0] - &p).dot(&n) / &det;
            let x = &p + &d.scale(&tt);
            let l = bary(&x, &t[0], &t[1], &t[2]).unwrap();
            // within the tolerance of an edge or of the start, either answer is right
            if l.iter().any(|v| sgn(v) != 0 && v.clone().abs() < R::from((1, 10_000))) || (sgn(&tt) != 0 && tt.clone().abs() < R::from((1, 1_000_000))) { doubtful = true; }
            if !T::EXACT && det.clone() * &det < n.n2() * d.n2() / ri(1_000_000) { doubtful = true; }
            if sgn(&tt) < 0 || l.iter().any(|v| sgn(v) < 0) { continue; }
            if best.as_ref().map_or(true, |b| tt < *b) { best = Some(tt); }
        }
        if doubtful { c.ev("near-tolerance-skipped"); continue; }
        c.nontrivial(mix(hash_str(&id), hash_str(&format!("{}{}", p.s(), d.s()))));
        let got = h.m.cast_ray_3(&pt(&p), &Vector(pt::<T, 3>(&d)), &h.tree, &None);
        let say = || format!("{}: ray {} + t {}: want {:?} got {:?}", id, p.s(), d.s(), best, got);
        match (&got, &best) {
            (IntersectionResult::Miss, None) => c.ev("ray-miss"),
            (IntersectionResult::Hit(hit, t), Some(b)) => {
                c.check(if T::EXACT { t.r() == *b } else { close(&t.r(), b, 1e-9) }, "ray-distance", say);
                let x = &p + &d.scale(b);
                // everything the point lies on
                let on: Vec<&(usize, Tri, [V3; 3])> = tris.iter().filter(|q| in_plane(&x, &q.2) && locate3(&x, &q.2) != Loc::Out).collect();
                let ok = match hit {
                    IntersectionHit::Vertex(v) => { c.ev("ray-vertex"); *v < h.m.vertices.len() && rp(&h.m.vertices[*v].position) == x && soup.values().any(|t| t.contains(v)) }
                    IntersectionHit::Edge(u, v, k) => {
                        c.ev("ray-edge");
                        let real = soup.values().any(|t| (0..3).any(|i| t[i] == *u && t[(i + 1) % 3] == *v || t[i] == *v && t[(i + 1) % 3] == *u));
                        let (a, b) = (rp(&h.m.vertices[*u].position), rp(&h.m.vertices[*v].position));
                        real && x != a && x != b && on_segment(&x, &a, &b) && same(k, &param(&x, &a, &b))
                    }
                    IntersectionHit::Face(f, (l0, l1, l2)) => {
                        c.ev("ray-face");
                        soup.contains_key(f) && {
                            let q = tri_pts(&h.m, &h.m.face_vertices(*f));
                            let l = bary(&x, &q[0], &q[1], &q[2]).unwrap();
                            locate3(&x, &q) == Loc::In && same(l0, &l[0]) && same(l1, &l[1]) && same(l2, &l[2])
                        }
                    }
                };
                c.check(ok, "ray-hit", || format!("{}, the point {} lies on {:?}", say(), x.s(), on.iter().map(|q| (q.0, q.1)).collect::<Vec<_>>()));
            }
            _ => c.fail("ray-found", say),
        }
    }
}
fn fan_ray<T>(c: &mut Case, s: &Shape<3>) {
    let h = begin::<T, 3>(c, s, 3, true);
    let Ok(soup) = live(&h.m) else { return };
    let fs: Vec<usize> = soup.keys().copied().collect();
    for _ in 0..6 {
        let f = *c.rng.pick(&fs);
        let t = soup[&f];
        let q = tri_pts(&h.m, &t);
        if n3(&q).is_zero() || (!T::EXACT && thin(&q)) { continue; }
        let k = c.rng.below(3);
        let (v, a, b) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
        let u = R::from((c.rng.int(-1, 5), 4));
        let x = q[(k + 1) % 3].lerp(&q[(k + 2) % 3], &u);
        let scale = R::from((c.rng.int(1, 6), 2));
        let mut d = (&x - &q[k]).scale(&scale);
        // out of the plane: only the part in the plane counts
        if c.rng.chance(1, 3) { d = &d + &normal(&q).scale(&R::from((c.rng.int(-2, 2), 64))); }
        if !T::EXACT && d != rp(&pt::<T, 3>(&d)) { continue; }
        let dv = Vector(pt::<T, 3>(&d));
        let id = format!("{} {} [{}] face {} {:?} from {} towards u={} of ({},{})", T::NAME, h.name, h.log.join(" "), f, t, v, u, a, b);
        c.nontrivial(hash_str(&id));
        for (name, got) in [("flat", h.m.cast_ray_from_vertex_in_triangle(f, v, &dv)), ("geodesic", h.m.cast_ray_from_vertex_in_triangle_3(f, v, &dv))] {
            let say = || format!("{} {}: {:?}", name, id, got);
            if sgn(&u) < 0 || u > 1 {
                c.ev("corner-ray-leaves");
                c.check(got.is_none(), "corner-ray-none", say);
            } else if sgn(&u) == 0 || u == 1 {
                c.ev("corner-ray-edge");
                let w = if sgn(&u) == 0 { a } else { b };
                let ok = match &got { Some(VertexRayResult::CollinearWithEdge(e)) => h.m.source(*e) == v && h.m.target(*e) == w, _ => false };
                c.check(ok, "corner-ray-collinear", say);
            } else {
                c.ev("corner-ray-crosses");
                let ok = match &got {
                    Some(VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter }) =>
                        h.m.source(*half_edge) == a && h.m.target(*half_edge) == b && same(edge_parameter, &u) && same(distance, &scale.clone().recip()),
                    _ => false,
                };
                c.check(ok, "corner-ray-hit", say);
            }
        }
    }
}
}
gm! {
fn planar_probe<T, N>(c: &mut Case, h: &Hist<T, N>) -> V<N> {
    let vs: Vec<V<N>> = h.m.vertices.iter().map(|v| rp(&v.position)).collect();
    match c.rng.below(4) {
        0 => { let mut p = V::<N>::zero(); for i in 0..N { p.0[i] = c.rng.pick(&vs).0[i].clone(); } p }
        1 => c.rng.pick(&vs).lerp(&c.rng.pick(&vs), &R::from((1, 2))),
        2 => c.rng.pick(&vs).lerp(&c.rng.pick(&vs), &R::from((1, 4))).lerp(&c.rng.pick(&vs), &R::from((1, 2))),
        _ => { let mut p = V::<N>::zero(); for i in 0..N { p.0[i] = R::from((c.rng.int(-100, 300), 4)); } p }
    }
}
}
crate::g! {
fn inside2<T>(c: &mut Case, s: &Shape<2>) {
    let h = begin::<T, 2>(c, s, 6, true);
    let Ok(soup) = live(&h.m) else { return };
    let d = dir_edges(&soup);
    let tris: Vec<[V2; 3]> = soup.values().map(|t| tri_pts(&h.m, t)).collect();
    let id = format!("{} {} [{}] {:?}", T::NAME, h.name, h.log.join(" "), soup);
    let border: Vec<(usize, usize)> = { let mut b: Vec<_> = d.keys().copied().filter(|&(a, b)| !d.contains_key(&(b, a))).collect(); b.sort(); b };
    let at = |v: usize| -> V2 { rp(&h.m.vertices[v].position) };
    for _ in 0..10 {
        let mut p = planar_probe(c, &h);
        // just beside the border
        if T::EXACT && c.rng.chance(1, 3) {
            let (a, b) = *c.rng.pick(&border);
            let q = c.rng.int(1, 6);
            p = at(a).lerp(&at(b), &R::from((q, 7)));
            let e = R::from((c.rng.int(-3, 3), 1_000_000_000i64));
            let e = if c.rng.bool() { e } else { R::from(&e * &e) * &e };
            let i = c.rng.below(2);
            p.0[i] += e;
            c.ev("beside-border");
        }
        if !T::EXACT && (p != rp(&pt::<T, 2>(&p)) || tris.iter().any(thin)) { continue; }
        if border.iter().any(|&(a, b)| on_segment(&p, &at(a), &at(b))) { c.ev("on-border-skipped"); continue; }
        let want = tris.iter().any(|t| locate_flat(&p, &t[0], &t[1], &t[2]) != Loc::Out);
        c.ev(if want { "inside-plane" } else { "outside-plane" });
        if border.iter().any(|&(a, _)| at(a).0[1] == p.0[1]) { c.ev("level-with-vertex"); }
        c.nontrivial(mix(hash_str(&id), hash_str(&p.s())));
        let got = h.m.point_in_mesh_2(&pt(&p));
        c.check(got == want, "side-plane", || format!("{}: {} inside: {}", id, p.s(), want));
        // one edge at a time, away from the special levels
        let (a, b) = *c.rng.pick(&border);
        let (pa, pb) = (at(a), at(b));
        if pa.0[1] != p.0[1] && pb.0[1] != p.0[1] {
            let Some(he) = h.m.half_edge_between(a, b) else { continue };
            let cross = (pa.0[1] > p.0[1]) != (pb.0[1] > p.0[1]) && { let t = R::from(&p.0[1] - &pa.0[1]) / R::from(&pb.0[1] - &pa.0[1]); pa.lerp(&pb, &t).0[0] > p.0[0] };
            let g = h.m.cast_ray_2(&pt(&p), he);
            c.check(g == cross, "ray-edge-plane", || format!("{}: {} edge {:?}: {}", id, p.s(), (a, b), g));
        }
    }
}
fn rayseg<T>(c: &mut Case) {
    let r = &mut c.rng;
    let g = |r: &mut Rng| -> V2 { V::i([r.int(-6, 6), r.int(-6, 6)]) };
    let (o, mut a, mut b) = (g(r), g(r), g(r));
    let mut d = g(r);
    match r.below(4) {
        0 => { a = &o + &d.scale(&ri(r.int(-3, 3))); b = &o + &d.scale(&ri(r.int(-3, 3))); }
        1 => d = (&a.lerp(&b, &R::from((r.int(0, 4), 4))) - &o).scale(&ri(if r.bool() { 1 } else { -1 })),
        _ => {}
    }
    if d.is_zero() || a == b { return; }
    let id = format!("{} {} + t {} / {} {}", T::NAME, o.s(), d.s(), a.s(), b.s());
    c.nontrivial(hash_str(&id));
    let got = ray_segment_intersection_2d(&pt::<T, 2>(&o), &Vector(pt::<T, 2>(&d)), &pt::<T, 2>(&a), &pt::<T, 2>(&b));
    let s = &b - &a;
    let q = &a - &o;
    let rxs = cross2(&d, &s);
    let want: Option<(R, R)> = if sgn(&rxs) == 0 {
        if sgn(&cross2(&q, &d)) != 0 { None } else {
            c.ev("collinear");
            let (t0, t1) = (q.dot(&d) / d.n2(), (&b - &o).dot(&d) / d.n2());
            let (lo, hi) = if t0 < t1 { (t0, t1) } else { (t1, t0) };
            if sgn(&hi) < 0 { None } else { let t = if sgn(&lo) >= 0 { lo } else { R::new() }; let x = &o + &d.scale(&t); Some((t, param(&x, &a, &b))) }
        }
    } else {
        let (t, u) = (cross2(&q, &s) / &rxs, cross2(&q, &d) / &rxs);
        if sgn(&t) < 0 || sgn(&u) < 0 || u > 1 { None } else { Some((t, u)) }
    };
    c.ev(if want.is_some() { "ray-segment-hit" } else { "ray-segment-miss" });
    if !T::EXACT {
        // on the very edge of the range double rounding may go either way
        if let Some((t, u)) = &want { if (sgn(t) == 0 || sgn(u) == 0 || *u == 1) && got.is_none() { return; } }
    }
    let ok = match (&got, &want) { (None, None) => true, (Some((t, u)), Some((wt, wu))) => same(t, wt) && same(u, wu), _ => false };
    c.check(ok, "ray-segment", || format!("{}: {:?} want {:?}", id, got, want));
}
}
fn i3(c: &mut Case) {
    let s = body(&mut c.rng);
    per_scalar!(c, T => inside3::<T>(c, &s))
}
fn r3(c: &mut Case) {
    let s = if c.rng.chance(2, 3) { body(&mut c.rng) } else { surface(&mut c.rng) };
    per_scalar!(c, T => ray3::<T>(c, &s))
}
fn fr(c: &mut Case) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => fan_ray::<T>(c, &s))
}
fn i2(c: &mut Case) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => inside2::<T>(c, &s))
}
fn rs(c: &mut Case) {
    per_scalar!(c, T => rayseg::<T>(c))
}
pub const P16: Prop = Prop {
    id: "P16", schedules: false,
    rule: "points and rays against meshes refined and cut by edits, compared with exact parity, exact containment and an exact scan over all faces. Non-trivial: distinct by mesh, history and query",
    assumptions: &[
        "closed surfaces do not intersect themselves",
        "faces parallel to a ray do not count as hit by it",
        "hits within the query tolerance of an edge, a vertex or the start are not judged",
        "planar points on the border are not judged",
    ],
    workloads: &[
        Workload { name: "inside-space", f: i3, quick: 24_000, thorough: 250_000 },
        Workload { name: "inside-plane", f: i2, quick: 24_000, thorough: 250_000 },
        Workload { name: "ray", f: r3, quick: 24_000, thorough: 250_000 },
        Workload { name: "corner-ray", f: fr, quick: 24_000, thorough: 250_000 },
        Workload { name: "ray-segment", f: rs, quick: 180_000, thorough: 2_000_000 },
    ],
    min_events: &[("inside", 300), ("outside", 300), ("on-surface", 300), ("inside-plane", 300), ("outside-plane", 300), ("level-with-vertex", 300), ("ray-face", 200), ("ray-edge", 50), ("ray-vertex", 50), ("ray-miss", 200), ("corner-ray-crosses", 300), ("ray-segment-hit", 300)],
};

// ------------------------------------------------------------------ P17
gm! {
fn found<T, N>(c: &mut Case, h: &Hist<T, N>, soup: &Soup, p: &V<N>, got: &FindFaceResult<T>, sig: &str, only: Option<usize>, ctx: &str) {
    let say = || format!("{} {} [{}] {} point {}: {:?} {:?}", T::NAME, h.name, h.log.join(" "), ctx, p.s(), got, soup);
    let f = match got { FindFaceResult::Inside { f, .. } | FindFaceResult::OnEdge { f, .. } | FindFaceResult::OnVertex { f, .. } => *f };
    if !c.check(soup.contains_key(&f) && only.map_or(true, |g| g == f), sig, say) { return; }
    let t = h.m.face_vertices(f);
    let q = tri_pts(&h.m, &t);
    let on = flat_on(p, &q);
    let ok = match got {
        FindFaceResult::Inside { bary: (a, b, d), .. } => {
            c.ev("located-inside");
            let l = bary(p, &q[0], &q[1], &q[2]).unwrap();
            on == Loc::In && same(a, &l[0]) && same(b, &l[1]) && same(d, &l[2])
        }
        FindFaceResult::OnEdge { he, u, .. } => {
            c.ev("located-on-edge");
            on == Loc::Edge && *he < h.m.half_edges.len() && !h.m.half_edges[*he].removed && h.m.half_edges[*he].face == Some(f) && {
                let (a, b) = (rp(&h.m.vertices[h.m.source(*he)].position), rp(&h.m.vertices[h.m.target(*he)].position));
                on_segment(p, &a, &b) && same(u, &param(p, &a, &b))
            }
        }
        FindFaceResult::OnVertex { v, .. } => {
            c.ev("located-at-vertex");
            t.contains(v) && rp(&h.m.vertices[*v].position) == *p
        }
    };
    c.check(ok, sig, || format!("{} lies {:?} in {:?}", say(), on, t));
}
fn locating<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>) -> Option<(Hist<T, N>, Vec<V<N>>)> {
    // half-edges and faces as they were, to start from what edits have replaced since
    let mut h = start_hist::<T, N>(c, s, Judge::None);
    let mut olds: Vec<(usize, V<N>, V<N>)> = vec![];
    let general = c.rng.chance(1, 3);
    for _ in 0..c.rng.below(8) {
        if c.rng.bool() {
            for (i, e) in h.m.half_edges.iter().enumerate() {
                if !e.removed && c.rng.chance(1, 6) { olds.push((i, rp(&h.m.vertices[h.m.source(i)].position), rp(&h.m.vertices[e.vertex].position))); }
            }
        }
        if general { if !step(c, &mut h, col, Judge::None) { return None; } } else {
            refine_one(c, &mut h);
        }
    }
    let Ok(soup) = validity(&h.m) else { c.ev("invalid-mesh-skipped"); return None };
    if soup.is_empty() { return None; }
    let fs: Vec<usize> = soup.keys().copied().collect();
    // faces without area have no barycentric coordinates
    if soup.values().any(|t| { let q = tri_pts(&h.m, t); n3(&q).is_zero() || (!T::EXACT && thin(&q)) }) { c.ev("degenerate-mesh-skipped"); return None; }
    let mut pts = vec![];
    let id = format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    for _ in 0..6 {
        let f = *c.rng.pick(&fs);
        let t = soup[&f];
        let q = tri_pts(&h.m, &t);
        let k = c.rng.below(3);
        let den = if T::EXACT && c.rng.chance(1, 3) { 7 } else { 4 };
        let (a, b) = (R::from((c.rng.int(1, den - 1), den)), R::from((c.rng.int(1, den - 1), den)));
        let p = match c.rng.below(4) {
            0 => q[k].clone(),
            1 => q[k].lerp(&q[(k + 1) % 3], &a),
            _ => q[0].lerp(&q[1], &a).lerp(&q[2], &b),
        };
        if !T::EXACT && p != rp(&pt::<T, N>(&p)) { continue; }
        pts.push(p.clone());
        c.nontrivial(mix(hash_str(&id), hash_str(&p.s())));
        c.sample("location", || format!("{} {}", id, p.s()));
        let pp = pt::<T, N>(&p);
        let r = h.m.location_on_face(f, &pp);
        found(c, &h, &soup, &p, &r, "location-on-face", Some(f), &format!("face {}", f));
        let start = if c.rng.chance(2, 3) { *c.rng.pick(&fs) } else { c.rng.below(h.m.faces.len()) };
        c.ev(if h.m.faces[start].removed { "start-removed" } else { "start-live" });
        let r = h.m.find_valid_face(start, &pp);
        found(c, &h, &soup, &p, &r, "find-valid-face", None, &format!("from face {}", start));
        if c.failed() { return None; }
        // reading the place off the weights
        let (vs, es) = (h.m.face_vertices(f), h.m.face_edges(f));
        let l: [T; 3] = match c.rng.below(3) {
            0 => { let k = c.rng.below(3); std::array::from_fn(|i| T::of(&R::from((i == k) as i64))) }
            1 => { let k = c.rng.below(3); let w = [R::from(0), R::from((3, 4)), R::from((1, 4))]; std::array::from_fn(|i| T::of(&w[(i + 3 - k) % 3])) }
            _ => { let w = [R::from((1, 4)), R::from((1, 2)), R::from((1, 4))]; std::array::from_fn(|i| T::of(&w[i])) }
        };
        let z: Vec<usize> = (0..3).filter(|&i| sgn(&l[i].r()) == 0).collect();
        let at = h.m.vertex_from_bary_zero(f, &l[0], &l[1], &l[2]);
        let want = if z.len() == 2 { Some(vs[3 - z[0] - z[1]]) } else { None };
        c.check(at == want, "vertex-of-weights", || format!("{} face {} {:?} zero {:?}: {:?}", id, f, vs, z, at));
        let at = h.m.edge_and_u_from_bary_zero(f, &l[0], &l[1], &l[2]);
        let ok = match &at {
            None => z.is_empty(),
            Some((he, u)) => {
                let (a, b) = (h.m.source(*he), h.m.target(*he));
                let w = |v: usize| l[vs.iter().position(|&x| x == v).unwrap_or(0)].r();
                [es.0, es.1, es.2].contains(he) && !z.is_empty() && u.r() == w(b) && R::from(1) - u.r() == w(a)
            }
        };
        c.check(ok, "edge-of-weights", || format!("{} face {} {:?} zero {:?}: {:?}", id, f, vs, z, at));
        // every face says truthfully whether the point is on one of its edges
        for (g, t) in &soup {
            let q = tri_pts(&h.m, t);
            let on = flat_on(&p, &q);
            let r = h.m.point_is_on_some_half_edge(*g, &pp);
            let ok = match &r {
                None => on == Loc::In || on == Loc::Out,
                Some((he, u)) => h.m.half_edges[*he].face == Some(*g) && {
                    let (a, b) = (rp(&h.m.vertices[h.m.source(*he)].position), rp(&h.m.vertices[h.m.target(*he)].position));
                    let e = h.m.point_on_half_edge(*he, &pp);
                    let t = h.m.point_on_half_edge_with_tolerance(*he, &pp, &T::of(&R::from((1, 1000000))));
                    on_segment(&p, &a, &b) && same(u, &param(&p, &a, &b)) && t.map_or(false, |t| same(&t, &param(&p, &a, &b))) && e.as_ref().map(|x| x.r()) == Some(u.r())
                },
            };
            c.check(ok, "on-some-edge", || format!("{} face {} {:?} point {} ({:?}): {:?}", id, g, t, p.s(), on, r));
        }
    }
    // from half-edges that splits have replaced
    for (he, a, b) in &olds {
        let e = &h.m.half_edges[*he];
        let gone = e.removed;
        if !gone && (rp(&h.m.vertices[h.m.source(*he)].position) != *a || rp(&h.m.vertices[e.vertex].position) != *b) { continue; }
        let k = R::from((c.rng.int(0, 4), 4));
        let p = a.lerp(b, &k);
        if !T::EXACT && p != rp(&pt::<T, N>(&p)) { continue; }
        // the old edge must still be covered by edges
        let d = dir_edges(&soup);
        let covered = d.keys().any(|&(x, y)| on_segment(&p, &rp(&h.m.vertices[x].position), &rp(&h.m.vertices[y].position)));
        if !covered || (gone && general) { continue; }
        c.ev(if gone { "edge-start-removed" } else { "edge-start-live" });
        let g = h.m.find_valid_half_edge(*he, &pt(&p));
        let ok = g < h.m.half_edges.len() && !h.m.half_edges[g].removed && on_segment(&p, &rp(&h.m.vertices[h.m.source(g)].position), &rp(&h.m.vertices[h.m.target(g)].position));
        c.check(ok, "find-valid-half-edge", || format!("{} half-edge {} was {}-{}, point {}: {}", id, he, a.s(), b.s(), p.s(), g));
    }
    Some((h, pts))
}
fn refine_one<T, N>(c: &mut Case, h: &mut Hist<T, N>) {
    let Ok(s) = live(&h.m) else { return };
    if s.is_empty() { return; }
    let fs: Vec<usize> = s.keys().copied().collect();
    let f = *c.rng.pick(&fs);
    let t = s[&f];
    let q = tri_pts(&h.m, &t);
    if n3(&q).is_zero() { return; }
    let (a, b) = (R::from((c.rng.int(1, 3), 4)), R::from((c.rng.int(1, 3), 4)));
    let k = c.rng.below(3);
    let edge = c.rng.bool();
    let p = if edge { q[k].lerp(&q[(k + 1) % 3], &a) } else { q[0].lerp(&q[1], &a).lerp(&q[2], &b) };
    if !T::EXACT && (p != rp(&pt::<T, N>(&p)) || thin(&q)) { return; }
    if h.m.vertices.iter().any(|v| (&rp(&v.position) - &p).n2() < R::from((1, 64))) { return; }
    if edge {
        let Some(he) = h.m.half_edge_between(t[k], t[(k + 1) % 3]) else { return };
        h.log.push(format!("split({},{})", t[k], t[(k + 1) % 3]));
        let _ = h.m.split_edge(&mut h.tree, he, &pt(&p), true);
    } else {
        h.log.push(format!("splitf{}", f));
        let _ = h.m.split_face(&mut h.tree, f, &pt(&p), true);
    }
}
}
fn flat_on<const N: usize>(p: &V<N>, q: &[V<N>; 3]) -> Loc {
    if N == 3 {
        let v3 = |v: &V<N>| -> V3 { V(std::array::from_fn(|i| v.0[i].clone())) };
        locate3(&v3(p), &[v3(&q[0]), v3(&q[1]), v3(&q[2])])
    } else {
        locate_flat(p, &q[0], &q[1], &q[2])
    }
}
g3! {
fn located3<T>(c: &mut Case, s: &Shape<3>, col: Collapser<T, 3>) {
    let Some((mut h, pts)) = locating::<T, 3>(c, s, col) else { return };
    let Ok(soup) = live(&h.m) else { return };
    let id = format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    for p in pts {
        let mut p = p;
        let on = c.rng.bool();
        if !on {
            p.0[c.rng.below(3)] += R::from((c.rng.int(1, 4), 2));
        }
        let near = soup.values().any(|t| { let q = tri_pts(&h.m, t); let d = dist_to_plane2(&p, &q); sgn(&d) != 0 && d < R::from((1, 100_000_000)) });
        if near { c.ev("near-plane-skipped"); continue; }
        let pp = pt::<T, 3>(&p);
        let mut got: Vec<usize> = h.m.faces_containing_point_aabb(&mut h.tree, &pp);
        got.sort();
        let want: Vec<usize> = soup.iter().filter(|x| flat_on(&p, &tri_pts(&h.m, x.1)) == Loc::In).map(|x| *x.0).collect();
        c.ev(if want.is_empty() { "in-no-face" } else { "in-some-face" });
        c.check(got == want, "faces-containing", || format!("{} point {}: {:?} want {:?}", id, p.s(), got, want));
        for (f, t) in &soup {
            let fv = h.m.face_vertices(*f);
            let q = tri_pts(&h.m, &fv);
            if !in_plane(&p, &q) { c.ev("off-plane-face"); continue; }
            let on = flat_on(&p, &q);
            let r = h.m.barycentric_coords_on_face(*f, &pp);
            let ok = match (&r, on) {
                (None, Loc::Out) => true,
                (Some((a, b, d)), Loc::In | Loc::Edge | Loc::Vertex) => { let l = bary(&p, &q[0], &q[1], &q[2]).unwrap(); same(a, &l[0]) && same(b, &l[1]) && same(d, &l[2]) }
                _ => false,
            };
            c.check(ok, "bary-on-face", || format!("{} face {} {:?} point {} ({:?}): {:?}", id, f, t, p.s(), on, r));
        }
    }
}
}
fn loc3(c: &mut Case) {
    let s = if c.rng.bool() { body(&mut c.rng) } else { surface(&mut c.rng) };
    per_scalar!(c, T => located3::<T>(c, &s, Some(|m, u, v| m.collapse_edge(u, v).is_ok())))
}
fn loc2(c: &mut Case) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => { locating::<T, 2>(c, &s, None); })
}
pub const P17: Prop = Prop {
    id: "P17", schedules: false,
    rule: "points in faces, on edges and at vertices of meshes reached by edit histories, located from live and removed starting faces and half-edges and by the face tree; every answer is compared with exact barycentric coordinates of the named face. Non-trivial: distinct by mesh, history and point",
    assumptions: &["the searched point lies on the mesh", "faces have positive area"],
    workloads: &[Workload { name: "locate3", f: loc3, quick: 12_000, thorough: 80_000 }, Workload { name: "locate2", f: loc2, quick: 8_000, thorough: 40_000 }],
    min_events: &[("located-inside", 1000), ("located-on-edge", 500), ("located-at-vertex", 500), ("start-removed", 100), ("start-live", 1000), ("edge-start-removed", 50), ("in-some-face", 300)],
};
