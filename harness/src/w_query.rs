//! P14 neighbourhood queries, P15 vertex merging and compaction.
use crate::core::*;
use crate::oracle::*;
use crate::w_geo::{pt, rp, same};
use crate::w_mesh::*;
use crate::zoo::*;
use crate::{g3, gm, per_scalar};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::collections::{BTreeMap, BTreeSet};

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

gm! {
fn edited<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>, max: usize) -> Option<Hist<T, N>> {
    let mut h = start_hist::<T, N>(c, s, Judge::None);
    let n = c.rng.below(max + 1);
    for _ in 0..n {
        if !step(c, &mut h, col, Judge::None) || c.failed() { return None; }
    }
    Some(h)
}
fn queries<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>) -> Option<Hist<T, N>> {
    let mut h = edited(c, s, col, 14)?;
    let Ok(soup) = validity(&h.m) else { c.ev("invalid-mesh-skipped"); return None; };
    if soup.is_empty() { return None; }
    let d = dir_edges(&soup);
    let info = |h: &Hist<T, N>| format!("{} {} [{}] {:?}", T::NAME, h.name, h.log.join(" "), soup);
    c.nontrivial(hash_str(&info(&h)));
    c.sample("mesh", || info(&h));
    let fan = fans(&soup);
    let verts: Vec<usize> = sorted(fan.keys().copied().collect());
    let nbr = |v: usize| -> Vec<usize> { verts.iter().copied().filter(|&w| d.contains_key(&(v, w)) || d.contains_key(&(w, v))).collect() };
    let faces_at = |v: usize| -> Vec<usize> { soup.iter().filter(|(_, t)| t.contains(&v)).map(|(f, _)| *f).collect() };
    let is_border = |v: usize| d.keys().any(|&(a, b)| (a == v || b == v) && !d.contains_key(&(b, a)));
    let third = |f: usize, a: usize, b: usize| *soup[&f].iter().find(|&&x| x != a && x != b).unwrap();
    // ---- vertices
    for &v in &verts {
        if fan[&v] != 1 { c.ev("bowtie-skipped"); continue; }
        c.ev("vertex-queried");
        let fs = faces_at(v);
        let ns = nbr(v);
        let g = sorted(h.m.faces_around_vertex(v));
        c.check(g == fs, "faces-around-vertex", || format!("{}: {} -> {:?} want {:?}", info(&h), v, g, fs));
        let g = sorted(h.m.incident_faces(v).into_iter().collect::<Vec<_>>());
        c.check(g == fs, "incident-faces", || format!("{}: {} -> {:?} want {:?}", info(&h), v, g, fs));
        let g = sorted(h.m.one_ring_neighbors(v));
        c.check(g == ns, "one-ring", || format!("{}: {} -> {:?} want {:?}", info(&h), v, g, ns));
        let out = h.m.outgoing_half_edges(v);
        c.check(out.iter().all(|&e| !h.m.half_edges[e].removed && h.m.source(e) == v) && out.len() == ns.len(), "outgoing", || format!("{}: {} -> {:?}", info(&h), v, out));
        let g = h.m.is_boundary_vertex(v);
        c.check(g == is_border(v), "is-boundary-vertex", || format!("{}: {} -> {}", info(&h), v, g));
        let r = h.m.vertex_ring_ccw(v);
        let n = r.neighbors_ccw.len();
        let mut ok = r.center == v && r.is_border == is_border(v) && sorted(r.neighbors_ccw.clone()) == ns && r.halfedges_ccw.len() == n && r.faces_ccw.len() == n;
        if ok {
            for i in 0..n {
                let w = r.neighbors_ccw[i];
                ok &= h.m.source(r.halfedges_ccw[i]) == v && h.m.target(r.halfedges_ccw[i]) == w;
                ok &= r.faces_ccw[i] == d.get(&(v, w)).copied();
                if let Some(f) = r.faces_ccw[i] { ok &= r.neighbors_ccw[(i + 1) % n] == third(f, v, w); }
            }
        }
        c.check(ok, "vertex-ring", || format!("{}: {} -> {:?}", info(&h), v, r));
        for f in 0..h.m.faces.len() {
            let g = h.m.vertex_touches_face(v, f);
            c.check(g == fs.contains(&f), "vertex-touches-face", || format!("{}: {} {} -> {}", info(&h), v, f, g));
        }
    }
    if fan.values().all(|&k| k == 1) {
        let g = sorted(h.m.boundary_vertices());
        let w: Vec<usize> = verts.iter().copied().filter(|&v| is_border(v)).collect();
        c.check(g == w, "boundary-vertices", || format!("{}: {:?} want {:?}", info(&h), g, w));
    }
    // ---- pairs
    let all: Vec<usize> = (0..h.m.vertices.len()).collect();
    let mut pairs: Vec<(usize, usize)> = d.keys().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    pairs.sort();
    pairs.dedup();
    for _ in 0..10 { pairs.push((*c.rng.pick(&all), *c.rng.pick(&all))); }
    for (a, b) in pairs {
        if a == b { continue; }
        c.ev("pair-queried");
        let (l, r) = (d.get(&(a, b)).copied(), d.get(&(b, a)).copied());
        let con = l.is_some() || r.is_some();
        let g = h.m.are_vertices_connected(a, b);
        c.check(g == con, "connected", || format!("{}: {} {} -> {}", info(&h), a, b, g));
        let he = h.m.half_edge_between(a, b);
        let he2 = h.m.vertices_connection(a, b);
        let pr = h.m.edge_half_edges(a, b);
        match he {
            None => { c.check(!con && he2 == usize::MAX && pr.is_none(), "edge-lookup", || format!("{}: {} {} -> none {} {:?}", info(&h), a, b, he2, pr)); }
            Some(e) => {
                let good = con && he2 == e && !h.m.half_edges[e].removed && h.m.source(e) == a && h.m.target(e) == b && h.m.half_edges[e].face == l
                    && pr == Some((e, h.m.half_edges[e].twin)) && h.m.source(h.m.half_edges[e].twin) == b && h.m.half_edges[h.m.half_edges[e].twin].face == r
                    && h.m.canonical_edge_indices(e) == Some((a.min(b), a.max(b)));
                c.check(good, "edge-lookup", || format!("{}: {} {} -> {} {} {:?}", info(&h), a, b, e, he2, pr));
                let u = 0.25;
                let g = h.m.canonicalize_u_for_edge(e, (a.min(b), a.max(b)), u);
                c.check(g == if a < b { u } else { 1.0 - u }, "canonical-u", || format!("{} {} -> {}", a, b, g));
                let sg = h.m.segment_from_half_edge(e);
                c.check(rp(&sg.a) == rp(&h.m.vertices[a].position) && rp(&sg.b) == rp(&h.m.vertices[b].position), "segment-of-edge", || format!("{}: {} {}", info(&h), a, b));
            }
        }
        if fan.get(&a).copied().unwrap_or(0) > 1 || fan.get(&b).copied().unwrap_or(0) > 1 { continue; }
        let p = h.m.ring_pair(a, b);
        c.check(p.is_some() == con, "ring-pair", || format!("{}: {} {} -> {:?}", info(&h), a, b, p));
        let (na, nb): (BTreeSet<usize>, BTreeSet<usize>) = (nbr(a).into_iter().filter(|&x| x != b).collect(), nbr(b).into_iter().filter(|&x| x != a).collect());
        let common: BTreeSet<usize> = na.intersection(&nb).copied().collect();
        let opp: Vec<usize> = [l, r].iter().flatten().map(|&f| third(f, a, b)).collect();
        let opps: BTreeSet<usize> = opp.iter().copied().collect();
        if let Some(p) = p {
            let un: BTreeSet<usize> = na.union(&nb).copied().collect();
            let ok = p.v0 == a && p.v1 == b && p.opposite_a == l.map(|f| third(f, a, b)) && p.opposite_b == r.map(|f| third(f, a, b))
                && p.common_neighbors.iter().copied().collect::<BTreeSet<_>>() == common && p.union_neighbors.iter().copied().collect::<BTreeSet<_>>() == un
                && p.is_border_edge == (l.is_none() || r.is_none())
                && p.idx_v1_in_ring0.map(|i| p.ring0.neighbors_ccw[i]) == Some(b) && p.idx_v0_in_ring1.map(|i| p.ring1.neighbors_ccw[i]) == Some(a);
            c.check(ok, "ring-pair", || format!("{}: {} {} -> {:?}", info(&h), a, b, p));
        }
        let link = con && common == opps;
        let (g1, g2) = (h.m.check_link_condition_triangle(a, b), h.m.collapse_link_condition_triangle(a, b));
        c.check(g1 == link && g2 == link, "link-condition", || format!("{}: {} {} -> {} {} want {}", info(&h), a, b, g1, g2, link));
        let dup = !con || common.difference(&opps).next().is_some();
        let g = h.m.would_create_duplicate_edges(a, b);
        c.check(g == dup, "duplicate-edges", || format!("{}: {} {} -> {}", info(&h), a, b, g));
        let two = !con || (opp.len() == 2 && opp[0] == opp[1]);
        let g = h.m.would_create_2gons(a, b);
        c.check(g == two, "two-gons", || format!("{}: {} {} -> {}", info(&h), a, b, g));
        if c.failed() { return None; }
    }
    // ---- faces
    for (f, t) in &soup {
        c.ev("face-queried");
        let f = *f;
        let g = h.m.face_vertices(f);
        c.check(cyc(g) == *t, "face-vertices", || format!("{}: {} -> {:?}", info(&h), f, g));
        let he = h.m.face_half_edges(f);
        let (e0, e1, e2) = h.m.face_edges(f);
        let it = h.m.get_face_half_edges_iterative(f);
        let ok = he.len() == 3 && he[..] == [e0, e1, e2] && it.as_deref() == Some(&[e0, e1, e2][..])
            && [e0, e1, e2].iter().enumerate().all(|(k, &e)| h.m.half_edges[e].face == Some(f) && h.m.source(e) == g[k] && h.m.target(e) == g[(k + 1) % 3]);
        c.check(ok, "face-edges", || format!("{}: {} -> {:?} {:?} {:?}", info(&h), f, he, (e0, e1, e2), it));
        let want: Vec<usize> = sorted((0..3).filter_map(|k| d.get(&(t[(k + 1) % 3], t[k])).copied()).collect());
        let g = sorted(h.m.adjacent_faces(f).collect::<Vec<_>>());
        c.check(g == want, "adjacent-faces", || format!("{}: {} -> {:?} want {:?}", info(&h), f, g, want));
        let g = sorted(h.m.faces_around_face(f).into_iter().filter(|&x| x != usize::MAX).collect::<Vec<_>>());
        c.check(g == want, "faces-around-face", || format!("{}: {} -> {:?} want {:?}", info(&h), f, g, want));
        for g in soup.keys() {
            let a = h.m.are_faces_adjacent(f, *g);
            c.check(a == want.contains(g), "faces-adjacent", || format!("{}: {} {} -> {}", info(&h), f, g, a));
        }
        if t.iter().all(|v| fan[v] == 1) {
            let k = c.rng.below(3);
            let q = if c.rng.bool() { [t[k], t[(k + 1) % 3], t[(k + 2) % 3]] } else { [t[k], t[(k + 2) % 3], t[(k + 1) % 3]] };
            let g = h.m.face_from_vertices(q[0], q[1], q[2]);
            c.check(g == f, "face-from-vertices", || format!("{}: {:?} -> {} want {}", info(&h), q, g, f));
            let x = *c.rng.pick(&verts);
            if fan[&x] == 1 && !t.contains(&x) {
                let w = soup.iter().find(|(_, s)| s.contains(&t[0]) && s.contains(&t[1]) && s.contains(&x)).map(|x| *x.0).unwrap_or(usize::MAX);
                let g = h.m.face_from_vertices(t[0], x, t[1]);
                c.check(g == w, "face-from-vertices", || format!("{}: {:?} -> {} want {}", info(&h), [t[0], x, t[1]], g, w));
            }
        }
        let p = tri_pts(&h.m, t);
        let gc = h.m.face_centroid(f);
        let sum = &(&p[0] + &p[1]) + &p[2];
        let third3 = R::from((1, 3));
        let cf = h.m.face_centroid_fast(f);
        let bx = h.m.face_aabb(f);
        let mut bad = String::new();
        for i in 0..N {
            let w = R::from(&sum.0[i] * &third3);
            if !same(&gc[i], &w) { bad += &format!(" centroid[{}] {} want {}", i, gc[i].r(), w); }
            if !close(&cf[i].r(), &w, 1e-9) { bad += &format!(" fast centroid[{}] {} want {}", i, cf[i].r(), w); }
            let (lo, hi) = (p.iter().map(|q| &q.0[i]).min().unwrap(), p.iter().map(|q| &q.0[i]).max().unwrap());
            let (gl, gh) = (rp(bx.min()).0[i].clone(), rp(bx.max()).0[i].clone());
            if !(gl <= *lo && gh >= *hi) { bad += &format!(" box[{}] {}..{} misses {}..{}", i, gl, gh, lo, hi); }
            if !(close(&gl, lo, 1e-9) && close(&gh, hi, 1e-9)) { bad += &format!(" box[{}] {}..{} want {}..{}", i, gl, gh, lo, hi); }
        }
        c.check(bad.is_empty(), "face-geometry", || format!("{}: face {} {:?}:{}", info(&h), f, p.iter().map(|q| q.s()).collect::<Vec<_>>(), bad));
        let nn = n3(&p);
        let a = h.m.face_area(f);
        if N == 3 {
            let w = nn.n2() / ri(4);
            c.check(same(&a, &w), "face-area", || format!("{}: face {} area2 {} want {}", info(&h), f, a.r(), w));
        } else {
            let w = nn.0[2].clone().abs() / ri(2);
            c.check(same(&a, &w), "face-area", || format!("{}: face {} area {} want {}", info(&h), f, a.r(), w));
        }
    }
    let g = h.m.build_face_adjacency_graph();
    let mut want: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (f, t) in &soup {
        want.insert(*f, sorted((0..3).filter_map(|k| d.get(&(t[(k + 1) % 3], t[k])).copied()).collect()));
    }
    // ---- turning around vertices
    let mut turned: BTreeMap<usize, usize> = BTreeMap::new();
    for he in (0..h.m.half_edges.len()).filter(|&x| !h.m.half_edges[x].removed) {
        let f = h.m.half_edges[he].face;
        let g = h.m.face_ok(he);
        c.check(g == f.map_or(false, |f| soup.contains_key(&f)), "face-ok", || format!("{}: half-edge {} of {:?} -> {}", info(&h), he, f, g));
        let r = h.m.rot_ccw_around_vertex(he);
        let ok = r < h.m.half_edges.len() && !h.m.half_edges[r].removed && h.m.source(r) == h.m.source(he) && turned.insert(r, he).is_none()
            && f.map_or(true, |f| h.m.half_edges[h.m.half_edges[r].twin].face == Some(f) && h.m.target(r) == third(f, h.m.source(he), h.m.target(he)));
        c.check(ok, "turn-around-vertex", || format!("{}: half-edge {} -> {}", info(&h), he, r));
    }
    c.evn("half-edge-turned", turned.len() as u64);
    let got: BTreeMap<usize, Vec<usize>> = g.into_iter().filter(|(f, n)| soup.contains_key(f) || !n.is_empty()).map(|(f, n)| (f, sorted(n))).collect();
    c.check(got == want, "adjacency-graph", || format!("{}: {:?} want {:?}", info(&h), got, want));
    // ---- border loops rebuilt from scratch
    let scrambled = c.rng.bool();
    if scrambled {
        // the loops are computed, whatever the border pointers were before
        for he in 0..h.m.half_edges.len() {
            if !h.m.half_edges[he].removed && h.m.half_edges[he].face.is_none() {
                h.m.half_edges[he].next = he;
                h.m.half_edges[he].prev = he;
            }
        }
    }
    h.m.build_boundary_loops();
    c.ev("border-rebuilt");
    let v = validity(&h.m);
    c.check(v.as_ref() == Ok(&soup), "boundary-loops", || format!("{}: after build_boundary_loops: {:?}", info(&h), v));
    if c.failed() { None } else { Some(h) }
}
}
g3! {
fn queries3<T>(c: &mut Case, s: &Shape<3>, col: Collapser<T, 3>) {
    let Some(h) = queries::<T, 3>(c, s, col) else { return };
    let Ok(soup) = live(&h.m) else { return };
    let (tree, boxes) = h.m.build_face_tree_with_lookup();
    c.check(boxes.len() == h.m.faces.len(), "face-boxes", || format!("{} {} boxes for {} faces", T::NAME, boxes.len(), h.m.faces.len()));
    for (f, t) in &soup {
        let mut out = vec![];
        tree.query_valid(&boxes[*f], &mut out);
        let (lo, hi) = (rp(boxes[*f].min()), rp(boxes[*f].max()));
        let ok = t.iter().all(|&v| { let p = rp(&h.m.vertices[v].position); (0..3).all(|i| lo.0[i] <= p.0[i] && p.0[i] <= hi.0[i]) });
        c.check(ok && out.contains(&f) && out.iter().all(|x| soup.contains_key(x)), "face-boxes", || format!("{} face {} {:?}: box {} {} finds {:?}", T::NAME, f, t, lo.s(), hi.s(), out));
        let p = tri_pts(&h.m, &h.m.face_vertices(*f));
        let nn = normal(&p);
        let g = h.m.face_normal(*f);
        let gr = rp(&g.0);
        let ok = if T::EXACT { gr == nn } else { (0..3).all(|i| close(&gr.0[i], &nn.0[i], 1e-9)) };
        c.check(ok, "face-normal", || format!("{} face {} {:?}: {} want {}", T::NAME, f, t, gr.s(), nn.s()));
        if !nn.is_zero() && (T::EXACT || !thin(&p)) {
            let pl = h.m.plane_from_face(*f);
            let (n, dd) = (rp(&pl.normal.0), pl.d.r());
            for q in &p {
                let e = R::from(n.dot(q)) + &dd;
                let ok = if T::EXACT { sgn(&e) == 0 } else { e.clone().abs() < R::from((1, 1000)) };
                c.check(ok, "face-plane", || format!("{} face {}: {} {} misses {}", T::NAME, f, n.s(), dd, q.s()));
            }
            c.check(sgn(&n.dot(&nn)) > 0 && !n.is_zero(), "face-plane-side", || format!("{} face {}: {}", T::NAME, f, n.s()));
        }
        let k = c.rng.below(4);
        let to = V::i([c.rng.int(-9, 9), c.rng.int(-9, 9), c.rng.int(-9, 9)]);
        let mv = if k < 3 { t[k] } else { usize::MAX };
        let moved: [V3; 3] = std::array::from_fn(|i| if t[i] == mv { to.clone() } else { rp(&h.m.vertices[t[i]].position) });
        let a = h.m.area2x4_after_move(*f, mv, &pt(&to));
        c.check(same(&a, &normal(&moved).n2()), "area-after-move", || format!("{} face {} {} -> {}", T::NAME, f, mv, a.r()));
    }
}
}
fn q3(c: &mut Case) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => queries3::<T>(c, &s, Some(|m, u, v| m.collapse_edge(u, v).is_ok())))
}
fn q2(c: &mut Case) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => { queries::<T, 2>(c, &s, None); })
}
pub const P14: Prop = Prop {
    id: "P14", schedules: false,
    rule: "every adjacency and measure query for every vertex, edge and face of meshes reached by edit histories, compared with the answer computed from the list of live triangles; border loops are also rebuilt and checked. Non-trivial: distinct by mesh and history",
    assumptions: &["vertex queries are asked at vertices with a single fan of triangles"],
    workloads: &[Workload { name: "space", f: q3, quick: 40_000, thorough: 250_000 }, Workload { name: "plane", f: q2, quick: 20_000, thorough: 120_000 }],
    min_events: &[("vertex-queried", 5000), ("pair-queried", 20_000), ("face-queried", 5000), ("border-rebuilt", 1000)],
};

// ------------------------------------------------------------------ P15
/// a point at the same place, written differently where the scalar allows it
fn respell<T: Sc, const N: usize>(r: &mut Rng, v: &V<N>) -> cgar::geometry::point::Point<T, N>
where
    T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Div<Output = T>,
{
    let big = v.0.iter().any(|x| x.clone().abs() > ri(100_000_000));
    let k = if T::EXACT && !big { r.below(4) } else { 0 };
    let vals: [T; N] = std::array::from_fn(|i| {
        let x = T::of(&v.0[i]);
        match k {
            1 => x + T::of(&ri(3)) - T::of(&ri(3)),
            2 => x * T::of(&ri(7)) / T::of(&ri(7)),
            3 => T::of(&(R::from(&v.0[i] / ri(3)))) * T::of(&ri(3)),
            _ => x,
        }
    });
    cgar::geometry::point::Point::<T, N>::from_vals(vals)
}
fn sup<const N: usize>(a: &V<N>, b: &V<N>) -> R {
    (0..N).map(|i| R::from(&a.0[i] - &b.0[i]).abs()).max().unwrap()
}
/// triangles by corner positions
fn pos_bag<T: Sc, const N: usize>(m: &Mesh<T, N>, s: &Soup) -> Vec<[String; 3]> {
    let mut v: Vec<[String; 3]> = s
        .values()
        .map(|t| {
            let p: [String; 3] = t.map(|i| rp(&m.vertices[i].position).s());
            let k = (0..3).min_by_key(|&k| (p[k].clone(), p[(k + 1) % 3].clone())).unwrap();
            [p[k].clone(), p[(k + 1) % 3].clone(), p[(k + 2) % 3].clone()]
        })
        .collect();
    v.sort();
    v
}
gm! {
fn lookup_one<T, N>(c: &mut Case, h: &mut Hist<T, N>, p: &V<N>, ctx: &str) {
    let q: cgar::geometry::point::Point<T, N> = respell(&mut c.rng, p);
    let p = rp(&q);
    let n = h.m.vertices.len();
    let soup = live(&h.m);
    let (v, old) = h.m.get_or_insert_vertex(&q);
    let info = |h: &Hist<T, N>| format!("{} {} [{}] {} lookup of {}: {:?}", T::NAME, h.name, h.log.join(" "), ctx, p.s(), (v, old));
    let thr = T::point_merge_threshold().r();
    let slack = R::from(&thr * R::from((1001, 1000)));
    if old {
        c.ev("found");
        let ok = v < n && h.m.vertices.len() == n && !h.m.vertices[v].removed;
        if !c.check(ok, "lookup-live", || info(h)) { return; }
        let w = rp(&h.m.vertices[v].position);
        c.check(sup(&w, &p) <= slack, "lookup-far", || format!("{} at {}", info(h), w.s()));
    } else {
        c.ev("inserted");
        let ok = v == n && h.m.vertices.len() == n + 1 && !h.m.vertices[v].removed && rp(&h.m.vertices[v].position) == p && h.m.vertices[v].half_edge.is_none();
        if !c.check(ok, "insert-vertex", || info(h)) { return; }
        let near = if T::EXACT { R::new() } else { T::tolerance().r() / ri(2) };
        let hit = (0..n).find(|&i| !h.m.vertices[i].removed && sup(&rp(&h.m.vertices[i].position), &p) <= near);
        c.check(hit.is_none(), "lookup-misses", || format!("{}: vertex {:?} lies there", info(h), hit));
    }
    c.check(live(&h.m) == soup, "lookup-changes-faces", || info(h));
}
fn lookups<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>) {
    let Some(mut h) = edited(c, s, col, 8) else { return };
    c.nontrivial(mix(hash_str(&format!("{}{:?}", h.name, h.log)), c.idx));
    let huge = c.rng.chance(1, 8);
    for _ in 0..12 {
        let base = if c.rng.chance(2, 3) {
            let i = c.rng.below(h.m.vertices.len());
            rp(&h.m.vertices[i].position)
        } else {
            let mut p = V::<N>::zero();
            for k in 0..N {
                p.0[k] = match c.rng.below(5) {
                    0 => ri(c.rng.int(-5, 5)),
                    // near a border of the hash grid, on either side of zero too
                    1 => { let k = c.rng.int(-50, 50); rf(k as f64 * 9e-7) + rf(c.rng.f(-1.0, 1.0) * 1e-12) }
                    2 => if T::EXACT { R::from((c.rng.int(-40, 40), 7)) } else { rf(c.rng.f(-9.0, 9.0)) },
                    3 if huge => rf(c.rng.f(-1.0, 1.0) * 1e15),
                    _ => rf(c.rng.f(-9.0, 9.0)),
                };
            }
            p
        };
        let mut p = base;
        if c.rng.bool() {
            let k = c.rng.below(N);
            let e = *c.rng.pick(&[1e-13, 4e-11, 1e-9, 3e-7, 9e-7, 1.2e-6, 2e-6, 1e-5, 1e-3]);
            p.0[k] += rf(if c.rng.bool() { e } else { -e });
        }
        lookup_one(c, &mut h, &p, "direct");
        if c.failed() { return; }
        if c.rng.chance(1, 5) && h.m.faces.iter().any(|f| !f.removed) && !step(c, &mut h, col, Judge::None) { return; }
    }
}
fn explode<T, N>(c: &mut Case, s: &Shape<N>) -> Mesh<T, N> {
    let mut m: Mesh<T, N> = Mesh::new();
    let how = c.rng.below(3);
    let mut copies: Vec<Vec<usize>> = vec![vec![]; s.pos.len()];
    for t in &s.tris {
        let mut q = [0; 3];
        for k in 0..3 {
            let v = t[k];
            let reuse = !copies[v].is_empty() && match how { 0 => false, 1 => c.rng.bool(), _ => c.rng.chance(5, 6) };
            q[k] = if reuse { *c.rng.pick(&copies[v]) } else {
                let p = respell::<T, N>(&mut c.rng, &s.pos[v]);
                let i = m.add_vertex(p);
                copies[v].push(i);
                i
            };
        }
        m.add_triangle(q[0], q[1], q[2]);
    }
    m
}
fn compact_step<T, N>(c: &mut Case, h: &mut Hist<T, N>, which: usize) {
    let Ok(soup) = validity(&h.m) else { c.ev("invalid-mesh-skipped"); return; };
    let before = pos_bag(&h.m, &soup);
    let info = |h: &Hist<T, N>| format!("{} {} [{}] {:?}", T::NAME, h.name, h.log.join(" "), soup);
    let n = h.m.vertices.len();
    let what = ["remove_duplicate_vertices", "remove_unused_vertices", "remove_invalidated_faces"][which];
    h.log.push(what.into());
    c.ev(what);
    let lives: BTreeSet<String> = h.m.vertices.iter().filter(|v| !v.removed).map(|v| rp(&v.position).s()).collect();
    let live_n = h.m.vertices.iter().filter(|v| !v.removed).count();
    match which {
        0 => {
            let k = h.m.remove_duplicate_vertices();
            let after: Vec<String> = h.m.vertices.iter().filter(|v| !v.removed).map(|v| rp(&v.position).s()).collect();
            let set: BTreeSet<String> = after.iter().cloned().collect();
            if k > 0 { c.ev("duplicates-merged"); }
            c.check(k + h.m.vertices.len() == n, "merge-count", || format!("{}: returned {} of {} -> {}", info(h), k, n, h.m.vertices.len()));
            c.check(set == lives && (set.len() == after.len()), "merge-vertices", || format!("{}: {} live vertices on {} places, {} before", info(h), after.len(), set.len(), live_n));
        }
        1 => {
            h.m.remove_unused_vertices();
            let used: BTreeSet<usize> = live(&h.m).map(|s| s.values().flatten().copied().collect()).unwrap_or_default();
            c.check(h.m.vertices.iter().all(|v| !v.removed) && used.len() == h.m.vertices.len(), "unused-kept", || format!("{}: {} vertices, {} used", info(h), h.m.vertices.len(), used.len()));
        }
        _ => {
            h.m.remove_invalidated_faces();
            c.check(h.m.faces.iter().all(|f| !f.removed) && h.m.faces.len() == soup.len(), "removed-kept", || format!("{}: {} faces", info(h), h.m.faces.len()));
            c.check(h.m.vertices.len() == n, "vertices-lost", || info(h));
        }
    }
    let v = validity(&h.m);
    match &v {
        Err(e) => { c.fail("compaction-invalid", || format!("{}: after {}: {}", info(h), what, e)); return; }
        Ok(s) => {
            let after = pos_bag(&h.m, s);
            c.check(after == before, "compaction-triangles", || format!("{}: after {} {} triangles of {}: {:?}", info(h), what, after.len(), before.len(), s));
            let fan = fans(s);
            for (v, k) in &fan {
                if *k == 1 {
                    let w: Vec<usize> = s.iter().filter(|x| x.1.contains(v)).map(|x| *x.0).collect();
                    let g = sorted(h.m.faces_around_vertex(*v));
                    c.check(g == w, "compaction-fan", || format!("{}: after {} faces around {} are {:?} not {:?}", info(h), what, v, g, w));
                }
            }
        }
    }
    if soup.is_empty() { return; }
    h.tree = fresh_tree(&h.m);
    for _ in 0..3 {
        let i = c.rng.below(n.min(h.m.vertices.len()));
        let p = rp(&h.m.vertices[i].position);
        lookup_one(c, h, &p, what);
    }
}
fn compaction<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>) {
    let mut h = if c.rng.bool() {
        let m = explode::<T, N>(c, s);
        let tree = fresh_tree(&m);
        Hist { m, tree, log: vec![format!("exploded{:?}", s.tris)], name: s.name.clone(), fresh: 0 }
    } else {
        match edited(c, s, col, 6) { Some(h) => h, None => return }
    };
    // what is in domain for welding: corners that coincide belong to one consistent surface
    for _ in 0..c.rng.below(6) + 1 {
        let k = c.rng.below(3);
        if k == 0 && !weldable(&h.m) { c.ev("not-weldable"); continue; }
        compact_step(c, &mut h, k);
        if c.failed() { return; }
        for _ in 0..c.rng.below(3) {
            if !step(c, &mut h, col, Judge::Delta) || c.failed() { return; }
        }
    }
    c.nontrivial(hash_str(&format!("{}{}{:?}", T::NAME, h.name, h.log)));
    c.sample("history", || format!("{} {} {:?}", T::NAME, h.name, h.log));
}
}
/// coinciding corners merged, no directed edge occurs twice, no triangle collapses or doubles
fn weldable<T: Sc, const N: usize>(m: &Mesh<T, N>) -> bool {
    let Ok(s) = live(m) else { return false };
    let mut ids: BTreeMap<String, usize> = BTreeMap::new();
    let mut dirs = BTreeSet::new();
    let mut sets = BTreeSet::new();
    for t in s.values() {
        let q = t.map(|v| {
            let k = rp(&m.vertices[v].position).s();
            let n = ids.len();
            *ids.entry(k).or_insert(n)
        });
        if q[0] == q[1] || q[1] == q[2] || q[2] == q[0] || !sets.insert(sorted(q.to_vec())) {
            return false;
        }
        for k in 0..3 {
            if !dirs.insert((q[k], q[(k + 1) % 3])) {
                return false;
            }
        }
    }
    // for doubles: nothing nearly coincident
    if !T::EXACT {
        let p: Vec<V<N>> = m.vertices.iter().map(|v| rp(&v.position)).collect();
        for i in 0..p.len() {
            for j in 0..i {
                if p[i] != p[j] && sup(&p[i], &p[j]) < R::from((1, 1_000_000_000)) {
                    return false;
                }
            }
        }
    }
    true
}
fn l3(c: &mut Case) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => lookups::<T, 3>(c, &s, Some(|m, u, v| m.collapse_edge(u, v).is_ok())))
}
fn l2(c: &mut Case) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => lookups::<T, 2>(c, &s, None))
}
fn c3(c: &mut Case) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => compaction::<T, 3>(c, &s, Some(|m, u, v| m.collapse_edge(u, v).is_ok())))
}
fn c2(c: &mut Case) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => compaction::<T, 2>(c, &s, None))
}
pub const P15: Prop = Prop {
    id: "P15", schedules: false,
    rule: "every vertex lookup compared with a scan of all live vertices, and every merge, vertex compaction and face compaction compared with the triangles by position before it, inside edit histories that go on afterwards. Non-trivial: distinct by mesh and history",
    assumptions: &["positions within the merge tolerance but not equal may or may not be merged", "beyond 1e8 equal lazy coordinates are only looked up in the same spelling: their double approximations differ by more than a hash cell", "merging is judged where the merged triangles form a consistently oriented edge-manifold surface"],
    workloads: &[
        Workload { name: "lookup3", f: l3, quick: 30_000, thorough: 400_000 },
        Workload { name: "lookup2", f: l2, quick: 16_000, thorough: 200_000 },
        Workload { name: "compact3", f: c3, quick: 30_000, thorough: 400_000 },
        Workload { name: "compact2", f: c2, quick: 16_000, thorough: 200_000 },
    ],
    min_events: &[("found", 3000), ("inserted", 3000), ("remove_duplicate_vertices", 1000), ("duplicates-merged", 300), ("remove_unused_vertices", 1000), ("remove_invalidated_faces", 1000)],
};
