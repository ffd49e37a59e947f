//! P23 intersection curves of two closed surfaces.
use crate::core::*;
use crate::g3;
use crate::oracle::*;
use crate::w_bool::{boxes_apart, one, touch, TOUCH};
use crate::w_geo::rp;
use crate::w_mesh::*;
use crate::w_ray::begin;
use crate::w_tt::{judge, judge_flat, kind};
use crate::zoo::*;
use cgar::geometry::segment::SegmentOps;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::intersection_segment::{IntersectionEndPoint, IntersectionSegment};
use cgar::mesh_processing::boolean::remove_duplicate_and_invalid_segments;
use cgar::numeric::{cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::collections::HashMap;

g3! {
// what an end point says about where it lies on its mesh
fn hint<T>(m: &Mesh<T, 3>, live: &Soup, face: usize, at: &V3, e: &IntersectionEndPoint<T, 3>) -> Result<&'static str, String> {
    let t = live.get(&face).ok_or("refers to no live face")?;
    let pos = |v: usize| rp(&m.vertices[v].position);
    match (&e.vertex_hint, &e.half_edge_hint, &e.barycentric_hint) {
        (Some([v, w]), None, None) if *w == usize::MAX => {
            if !t.contains(v) { return Err(format!("vertex {} is not of face {}", v, face)); }
            if pos(*v) != *at { return Err(format!("vertex {} is elsewhere", v)); }
            Ok("at_vertex")
        }
        (Some([v, w]), Some(h), None) => {
            if !t.contains(v) || !t.contains(w) || v == w { return Err(format!("edge {} {} is not of face {}", v, w, face)); }
            let he = m.half_edges.get(*h).ok_or("half-edge out of range")?;
            if he.removed || he.vertex != *w || m.half_edges[he.prev].vertex != *v { return Err(format!("half-edge {} does not run from {} to {}", h, v, w)); }
            let u = e.half_edge_u_hint.as_ref().ok_or("no parameter")?.r();
            if pos(*v).lerp(&pos(*w), &u) != *at { return Err(format!("parameter {} along {} {}", u, v, w)); }
            let mut f: Vec<usize> = e.faces_hint.ok_or("no faces")?.to_vec();
            f.sort();
            let mut g: Vec<usize> = live.iter().filter(|(_, t)| t.contains(v) && t.contains(w)).map(|(f, _)| *f).collect();
            g.sort();
            if f != g { return Err(format!("faces {:?} at edge {} {}, but {:?}", f, v, w, g)); }
            Ok("at_edge")
        }
        (None, None, Some(b)) => {
            let f = e.faces_hint.ok_or("no face")?;
            if f[0] != face { return Err(format!("face {} instead of {}", f[0], face)); }
            let q = m.face_vertices(face).map(|v| pos(v));
            let w = [b.0.r(), b.1.r(), b.2.r()];
            let x = &(&q[0].scale(&w[0]) + &q[1].scale(&w[1])) + &q[2].scale(&w[2]);
            if x != *at || w.iter().any(|w| sgn(w) <= 0) { return Err(format!("weights {:?}", w)); }
            Ok("in_face")
        }
        _ => Err(format!("unclear place {:?} {:?}", e.vertex_hint, e.half_edge_hint)),
    }
}
fn duplicates<T>(c: &mut Case, segs: &[IntersectionSegment<T, 3>], ctx: &str) {
    let mut v = segs.to_vec();
    // some more, reversed
    for _ in 0..c.rng.below(4) {
        if v.is_empty() { break; }
        let mut s = c.rng.pick(&v).clone();
        if c.rng.bool() { s.segment = s.segment.inverse(); }
        if c.rng.bool() { s.coplanar = !s.coplanar; }
        let at = c.rng.below(v.len() + 1);
        v.insert(at, s);
    }
    let before: Vec<(V3, V3, bool)> = v.iter().map(|s| (rp(&s.segment.a), rp(&s.segment.b), s.coplanar)).collect();
    remove_duplicate_and_invalid_segments(&mut v);
    let after: Vec<(V3, V3, bool)> = v.iter().map(|s| (rp(&s.segment.a), rp(&s.segment.b), s.coplanar)).collect();
    c.check(before == after, "cleaning-changes", || ctx.to_string());
    let mut groups: HashMap<(V3, V3), Vec<usize>> = HashMap::new();
    for (i, (a, b, _)) in before.iter().enumerate() {
        let k = if a <= b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
        groups.entry(k).or_default().push(i);
    }
    for (k, g) in &groups {
        let kept: Vec<usize> = g.iter().copied().filter(|&i| !v[i].invalidated).collect();
        if g.len() > 1 { c.ev("duplicates"); }
        c.check(kept.len() == 1, "cleaning-one-left", || format!("{}: {} of {} copies of {} {} left", ctx, kept.len(), g.len(), k.0.s(), k.1.s()));
        if kept.len() == 1 && g.iter().any(|&i| before[i].2) {
            c.check(before[kept[0]].2, "cleaning-keeps-coplanar", || ctx.to_string());
        }
    }
}
fn curves<T>(c: &mut Case) {
    let mut sa = one(&mut c.rng);
    let mut sb = one(&mut c.rng);
    let k = c.rng.below(16) as usize;
    let name = match k {
        0..7 => {
            let k = 1 + c.rng.int(0, 40);
            let by: V3 = V(std::array::from_fn(|_| R::from((c.rng.int(-7 * k, 7 * k), 7))));
            for p in sb.pos.iter_mut() { *p = &*p + &by; }
            "general"
        }
        7..14 => {
            if !touch(&mut c.rng, &sa, &mut sb, k - 7) { return; }
            TOUCH[k - 7]
        }
        _ => {
            // flush: the same shape, moved along itself or by whole units
            sb = sa.clone();
            let t = *c.rng.pick(&sa.tris);
            let d = &sa.pos[t[1]] - &sa.pos[t[0]];
            let u = *c.rng.pick(&[(0i64, 1i64), (1, 2), (1, 3), (1, 1), (-1, 2)]);
            for p in sb.pos.iter_mut() { *p = &*p + &d.scale(&R::from(u)); }
            "flush"
        }
    };
    if c.rng.bool() { std::mem::swap(&mut sa, &mut sb); }
    let ka = if c.rng.chance(1, 3) { 4 } else { 0 };
    let kb = if c.rng.chance(1, 3) { 4 } else { 0 };
    let ha = begin::<T, 3>(c, &sa, ka, false);
    let hb = begin::<T, 3>(c, &sb, kb, false);
    let ctx = format!("{} {} [{}] with {} [{}] {}", T::NAME, sa.name, ha.log.join(" "), sb.name, hb.log.join(" "), name);
    let (Ok(la), Ok(lb)) = (validity(&ha.m), validity(&hb.m)) else { c.ev("broken-input-skipped"); return };
    if [&la, &lb].iter().any(|l| { let d = dir_edges(l); d.keys().any(|(a, b)| !d.contains_key(&(*b, *a))) }) { c.ev("open-input-skipped"); return; }
    let pa: Vec<(usize, [V3; 3])> = la.iter().map(|(f, t)| (*f, tri_pts(&ha.m, t))).collect();
    let pb: Vec<(usize, [V3; 3])> = lb.iter().map(|(f, t)| (*f, tri_pts(&hb.m, t))).collect();
    if pa.iter().chain(&pb).any(|(_, t)| normal(t).is_zero()) { c.ev("flat-face-skipped"); return; }
    let (ga, gb) = ha.m.get_mesh_intersections_3(&hb.m);
    c.ev(name);
    c.nontrivial(hash_str(&format!("{} {:?}", ctx, sa.pos.iter().chain(&sb.pos).map(|p| p.s()).collect::<Vec<_>>())));
    c.sample(name, || format!("{}: {} + {} triangles, {} pieces", ctx, pa.len(), pb.len(), ga.len()));
    if !c.check(ga.len() == gb.len(), "pairs", || format!("{}: {} and {} pieces", ctx, ga.len(), gb.len())) { return; }
    let mut by: HashMap<(usize, usize), Vec<(V3, V3)>> = HashMap::new();
    let mut flags: HashMap<(usize, usize), Vec<bool>> = HashMap::new();
    for (x, y) in ga.iter().zip(&gb) {
        let (p, q) = (rp(&x.segment.a), rp(&x.segment.b));
        c.check((rp(&y.segment.a), rp(&y.segment.b)) == (p.clone(), q.clone()), "pairs", || ctx.clone());
        by.entry((x.initial_face_reference, y.initial_face_reference)).or_default().push((p.clone(), q.clone()));
        flags.entry((x.initial_face_reference, y.initial_face_reference)).or_default().extend([x.coplanar, y.coplanar]);
        for (m, l, s, w) in [(&ha.m, &la, x, "first"), (&hb.m, &lb, y, "second")] {
            for (at, e) in [(&p, &s.a), (&q, &s.b)] {
                match hint(m, l, s.initial_face_reference, at, e) {
                    Ok(k) => c.ev(k),
                    Err(e) => c.fail("hint", || format!("{}: {} on the {} mesh: {}", ctx, at.s(), w, e)),
                }
            }
            c.check(s.links.is_empty() && !s.invalidated, "fresh", || ctx.clone());
        }
    }
    for (fa, t) in &pa {
        for (fb, u) in &pb {
            let got = by.remove(&(*fa, *fb)).unwrap_or_default();
            if boxes_apart(&[&t[0], &t[1], &t[2]], &[&u[0], &u[1], &u[2]]) {
                c.check(got.is_empty(), "apart", || format!("{}: faces {} and {}", ctx, fa, fb));
                continue;
            }
            let want = tri_tri(t, u);
            let flat = cross3(&normal(t), &normal(u)).is_zero() && in_plane(&u[0], t);
            let v = if flat { judge_flat(true, &got, &want, t, u) } else { judge(true, &got, &want) };
            c.ev(&format!("{}{}", if flat { "flat_" } else { "" }, kind(&want)));
            // the outline of an overlap is marked, pieces of crossing faces are not
            let area = matches!(want, TriX::Poly(_)) && got.len() > 1;
            if area || !flat {
                let f = flags.remove(&(*fa, *fb)).unwrap_or_default();
                c.check(f.iter().all(|x| *x == area), "coplanar-mark", || format!("{}: faces {} {} share {:?}, marked {:?}", ctx, fa, fb, want, f));
            }
            if let Err(e) = v {
                c.fail("pieces", || format!("{}: faces {} {} share {:?}, got {:?} ({})", ctx, fa, fb, want, got, e));
            }
        }
    }
    c.check(by.is_empty(), "faces", || format!("{}: pieces for faces {:?}", ctx, by.keys().collect::<Vec<_>>()));
    duplicates(c, &ga, &ctx);
    duplicates(c, &gb, &ctx);
}
}
fn p23(c: &mut Case) {
    if c.rng.bool() { curves::<LazyExact>(c) } else { curves::<CgarRational>(c) }
}
pub const P23: Prop = Prop {
    id: "P23", schedules: false,
    rule: "pairs of closed surfaces (hulls, prisms, tori, several parts, after edits) in general position, with corners, edges and faces of one on those of the other, and flush copies; the reported pieces are compared pair of faces by pair of faces with exact clipping, and each end's place on its mesh with the positions. Non-trivial: distinct pairs",
    assumptions: &["meshes are closed and valid, without flat faces", "pieces shorter than 1e-6 may be reported as a point", "coplanar faces sharing a single point may report nothing"],
    workloads: &[Workload { name: "curves", f: p23, quick: 15_000, thorough: 150_000 }],
    min_events: &[("general", 100), ("flush", 30), ("segment", 1000), ("point", 200), ("apart", 1000), ("flat_polygon", 100), ("at_vertex", 200), ("at_edge", 1000), ("in_face", 1000), ("duplicates", 200)],
};
