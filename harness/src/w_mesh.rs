//! P11 connectivity validity, P12 effect of edits, P13 edge collapse.
use crate::core::*;
use crate::{g3, gm};
use crate::oracle::*;
use crate::w_geo::{pt, rp};
use crate::zoo::*;
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::{Mesh, SplitResult, SplitResultKind};
use cgar::mesh::edge_collapse::{CollapseOpts, CollapseReject, Midpoint, Placement};
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::collections::BTreeSet;

pub type Tree<T, const N: usize> = AabbTree<T, N, Point<T, N>, usize>;
pub type Collapser<T, const N: usize> = Option<fn(&mut Mesh<T, N>, usize, usize) -> bool>;

/// an edit history on one mesh
pub struct Hist<T: Sc, const N: usize> {
    pub m: Mesh<T, N>,
    pub tree: Tree<T, N>,
    pub log: Vec<String>,
    pub name: String,
    /// vertices the history itself has put there
    pub fresh: i64,
}

fn dist_ok<const N: usize>(a: &V<N>, b: &V<N>) -> bool {
    (a - b).n2() > R::from((1, 64))
}
/// a live vertex at exactly this place / any vertex suspiciously near
fn at<T: Sc, const N: usize>(m: &Mesh<T, N>, p: &V<N>) -> (Vec<usize>, bool) {
    let mut v = vec![];
    let mut near = false;
    for (i, x) in m.vertices.iter().enumerate() {
        let q = rp(&x.position);
        if q == *p {
            if x.removed {
                near = true;
            } else {
                v.push(i);
            }
        } else if !dist_ok(&q, p) {
            near = true;
        }
    }
    (v, near)
}
fn frac(r: &mut Rng, exact: bool) -> R {
    if exact && r.chance(1, 3) { R::from((r.int(1, 6), 7)) } else { R::from((r.int(1, 3), 4)) }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Valid,
    Delta,
    None,
}

gm! {
fn fresh_tree<T, N>(m: &Mesh<T, N>) -> Tree<T, N> {
    m.build_face_tree()
}
fn check_split<T, N>(c: &mut Case, h: &Hist<T, N>, before: &Soup, res: &SplitResult, gone: &[usize], want: Vec<Tri>, p: &V<N>, nv: usize, what: &str) {
    let w = res.vertex;
    let after = match live(&h.m) { Ok(s) => s, Err(e) => { c.fail("split-corrupts", || format!("{} {}: {}", h.name, h.log.join(" "), e)); return; } };
    let info = || format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    c.check(w == nv && h.m.vertices.len() == nv + 1 && !h.m.vertices[w].removed, "split-vertex", || format!("{}: {} gave vertex {} of {}", info(), what, w, h.m.vertices.len()));
    if w >= h.m.vertices.len() { return; }
    let q = rp(&h.m.vertices[w].position);
    c.check(q == *p, "split-position", || format!("{}: {} at {} put the vertex at {}", info(), what, p.s(), q.s()));
    let mut want = want;
    for t in want.iter_mut() {
        *t = cyc(*t);
    }
    want.sort();
    let mut rest = before.clone();
    for g in gone {
        rest.remove(g);
    }
    let mut new: Vec<(usize, Tri)> = vec![];
    for (f, t) in &after {
        if rest.get(f) == Some(t) {
            rest.remove(f);
        } else {
            new.push((*f, *t));
        }
    }
    let mut nt: Vec<Tri> = new.iter().map(|x| x.1).collect();
    nt.sort();
    c.check(rest.is_empty() && nt == want, "split-triangles", || format!("{}: {} should replace faces {:?} by {:?}, but lost {:?} and made {:?}", info(), what, gone, want, rest, nt));
    let ids: BTreeSet<usize> = new.iter().map(|x| x.0).collect();
    let told: Vec<usize> = res.new_faces.iter().copied().filter(|&f| f != usize::MAX).collect();
    let set: BTreeSet<usize> = told.iter().copied().collect();
    c.check(set == ids && set.len() == told.len(), "split-reported-faces", || format!("{}: {} made faces {:?} but reports {:?}", info(), what, ids, res.new_faces));
    // geometry: same area and orientation
    let area = |ts: &[Tri]| -> Vec<V3> {
        ts.iter().map(|t| { let p = tri_pts(&h.m, t); n3(&p) }).collect()
    };
    let sum = |v: &[V3]| v.iter().fold(V3::zero(), |a, b| &a + b);
    let old: Vec<Tri> = gone.iter().map(|g| before[g]).collect();
    let (o, n) = (area(&old), area(&nt));
    let (so, sn) = (sum(&o), sum(&n));
    let ok = if T::EXACT { so == sn } else { (0..3).all(|i| close(&so.0[i], &sn.0[i], 1e-9)) };
    if rest.is_empty() && nt == want {
        c.check(ok, "split-area", || format!("{}: {} changes the area vector {} -> {}", info(), what, so.s(), sn.s()));
    }
}
fn check_tree<T, N>(c: &mut Case, h: &Hist<T, N>, what: &str) {
    let Ok(s) = live(&h.m) else { return };
    let info = || format!("{} {} [{}]", T::NAME, h.name, h.log.join(" "));
    for (f, t) in &s {
        let bx = h.m.face_aabb(*f);
        let mut out = vec![];
        h.tree.query_valid(&bx, &mut out);
        c.check(out.contains(&f), "tree-misses-face", || format!("{}: after {} the face tree misses live face {} {:?}", info(), what, f, t));
        if let Some(x) = out.iter().find(|&&&x| !s.contains_key(&x)) {
            c.fail("tree-keeps-removed", || format!("{}: after {} the face tree still returns removed face {}", info(), what, x));
        }
        // the face is found at each of its corners, and only faces around that point are
        if *f + 4 < h.m.faces.len() && !c.rng.chance(1, 8) { continue; }
        for &v in t {
            let q = &h.m.vertices[v].position;
            let mut out = vec![];
            h.tree.query_valid(&Aabb::from_points(q, q), &mut out);
            c.check(out.contains(&f), "tree-misses-corner", || format!("{}: after {} the face tree does not find face {} {:?} at its corner {}", info(), what, f, t, v));
            let q = rp(q);
            for x in out {
                let Some(u) = s.get(x) else { continue };
                let ps = tri_pts(&h.m, u);
                let near = (0..N).all(|i| {
                    let slack = R::from((1, 1_000_000)) * (R::from(1) + q.0[i].clone().abs());
                    ps.iter().any(|p| p.0[i] <= R::from(&q.0[i] + &slack)) && ps.iter().any(|p| p.0[i] >= R::from(&q.0[i] - &slack))
                });
                c.check(near, "tree-misplaces-face", || format!("{}: after {} the face tree finds face {} {:?} at vertex {}, where it is not", info(), what, x, u, v));
            }
        }
    }
}
// everything the tree returns as live
fn tree_entries<T, N>(t: &Tree<T, N>) -> Vec<usize> {
    let mut out = vec![];
    let big = R::from(10_000_000_000i64);
    let (lo, hi) = (pt::<T, N>(&V(std::array::from_fn(|_| R::from(-&big)))), pt::<T, N>(&V(std::array::from_fn(|_| big.clone()))));
    t.query_valid(&Aabb::from_points(&lo, &hi), &mut out);
    let mut out: Vec<usize> = out.into_iter().copied().collect();
    out.sort();
    out
}
fn step<T, N>(c: &mut Case, h: &mut Hist<T, N>, col: Collapser<T, N>, j: Judge) -> bool {
    let Ok(before) = live(&h.m) else { return false };
    let faces: Vec<usize> = before.keys().copied().collect();
    let dirs = dir_edges(&before);
    let delta = j == Judge::Delta;
    let nv = h.m.vertices.len();
    let op = c.rng.below(if col.is_some() { 14 } else { 12 });
    macro_rules! info { () => { format!("{} {} [{}]", T::NAME, h.name, h.log.join(" ")) } }
    macro_rules! newv { () => {{
        h.fresh += 1;
        let mut p = V::<N>::zero();
        for k in 0..N { p.0[k] = ri(c.rng.int(-90, 90)); }
        p.0[0] = ri(600 + 64 * h.fresh);
        p
    }} }
    let free = |s: &[(usize, usize)], extra: &BTreeSet<(usize, usize)>| s.iter().all(|e| !dirs.contains_key(e) && !extra.contains(e));
    let sides = |t: Tri| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])];
    match op {
        // ------------------------------------------------ add one triangle
        0 | 1 => {
            let border: Vec<(usize, usize)> = { let mut b: Vec<_> = dirs.keys().filter(|(a, b)| !dirs.contains_key(&(*b, *a))).map(|(a, b)| (*b, *a)).collect(); b.sort(); b };
            let lives: Vec<usize> = (0..nv).filter(|&i| !h.m.vertices[i].removed).collect();
            let mut tri: Tri;
            if op == 0 && !border.is_empty() {
                let (u, v) = *c.rng.pick(&border);
                let nexts: Vec<usize> = border.iter().filter(|e| e.0 == v && e.1 != u).map(|e| e.1).collect();
                let w = if !nexts.is_empty() && c.rng.chance(2, 3) { *c.rng.pick(&nexts) } else if c.rng.chance(1, 6) { *c.rng.pick(&lives) } else { let p = newv!(); h.m.add_vertex(pt(&p)) };
                tri = [u, v, w];
            } else if op == 1 && c.rng.bool() && !lives.is_empty() {
                // any three vertices: often refused, sometimes turned over
                tri = [*c.rng.pick(&lives), *c.rng.pick(&lives), *c.rng.pick(&lives)];
                if let (true, Some(f)) = (c.rng.bool(), before.keys().next()) { let t = before[f]; tri = if c.rng.bool() { t } else { rev(t) }; }
            } else {
                tri = std::array::from_fn(|_| { let p = newv!(); h.m.add_vertex(pt(&p)) });
            }
            if tri[0] == tri[1] || tri[1] == tri[2] || tri[2] == tri[0] { return true; }
            let k = c.rng.below(3);
            tri = [tri[k], tri[(k + 1) % 3], tri[(k + 2) % 3]];
            // an odd triangle must not be glued upside down onto a neighbour twice over
            let none = BTreeSet::new();
            let want = if free(&sides(tri), &none) { Some(tri) } else if free(&sides(rev(tri)), &none) { Some(rev(tri)) } else { None };
            h.log.push(format!("add{:?}", tri));
            if want.is_some() && before.values().any(|t| tri.iter().all(|v| t.contains(v))) {
                // a second face on the same three vertices: judged alone, the history goes on without it
                let mut m2 = h.m.clone();
                m2.add_triangle(tri[0], tri[1], tri[2]);
                c.ev("back-to-back");
                let mut e = bag(&before);
                e.push(cyc(want.unwrap()));
                e.sort();
                let got = validity(&m2);
                c.check(got.as_ref().map(|g| bag(g)) == Ok(e), "back-to-back", || format!("{}: {:?}", info!(), got));
                return !c.failed();
            }
            let t0 = if want.is_none() { Some(tables(&h.m)) } else { None };
            let f = h.m.add_triangle(tri[0], tri[1], tri[2]);
            c.ev(if want.is_some() { "triangle-added" } else { "triangle-refused" });
            if let Some(t0) = t0 {
                c.check(tables(&h.m) == t0 && f == usize::MAX, "refused-add-changes", || format!("{}: refused triangle {:?} changed the mesh or returned {}", info!(), tri, f));
            } else if delta {
                let mut e = before.clone();
                let good = f != usize::MAX && !before.contains_key(&f);
                e.insert(f, cyc(want.unwrap()));
                c.check(good && live(&h.m).as_ref() == Ok(&e), "add-triangle", || format!("{}: adding {:?} as {:?} returned {} and gave {:?}", info!(), tri, want, f, live(&h.m)));
            }
            h.tree = fresh_tree(&h.m);
        }
        // ------------------------------------------------ remove one
        2 => {
            if faces.len() < 2 { return true; }
            let f = *c.rng.pick(&faces);
            h.log.push(format!("del{}{:?}", f, before[&f]));
            h.m.remove_triangle(f);
            c.ev("triangle-removed");
            if delta {
                let mut e = before.clone();
                e.remove(&f);
                c.check(live(&h.m).as_ref() == Ok(&e), "remove-triangle", || format!("{}: removing {} {:?} gave {:?}", info!(), f, before[&f], live(&h.m)));
            }
            h.tree = fresh_tree(&h.m);
        }
        // ------------------------------------------------ remove several, put some back
        3 => {
            if faces.len() < 3 { return true; }
            let k = 1 + c.rng.below(faces.len().min(6) - 1);
            let mut sel = faces.clone();
            if c.rng.bool() {
                c.rng.shuffle(&mut sel);
            } else {
                // a connected patch
                let s = *c.rng.pick(&faces);
                sel.sort_by_key(|f| before[f].iter().filter(|v| before[&s].contains(v)).count() as i64 * -1);
            }
            sel.truncate(k);
            let mut old: Vec<Tri> = sel.iter().map(|f| before[f]).collect();
            h.log.push(format!("del*{:?}", old));
            let (st, aff) = h.m.remove_triangles_deferred(&sel);
            h.m.weld_border_components_from(&st);
            h.m.fix_vertices_outgoing_for(&aff);
            c.ev("batch-removed");
            let mut e = before.clone();
            for f in &sel { e.remove(f); }
            if delta {
                c.check(live(&h.m).as_ref() == Ok(&e), "remove-batch", || format!("{}: removing {:?} gave {:?}", info!(), sel, live(&h.m)));
            }
            if let (Err(x), true) = (validity(&h.m), j == Judge::Valid) {
                c.fail("invalid-after-batch-removal", || format!("{}: {}", info!(), x));
                return false;
            }
            if c.rng.chance(2, 3) {
                c.rng.shuffle(&mut old);
                let keep = 1 + c.rng.below(old.len());
                old.truncate(keep);
                let mut taken: BTreeSet<(usize, usize)> = e.values().flat_map(|t| sides(*t)).collect();
                let mut list: Vec<(usize, usize, usize)> = vec![];
                for &t in &old {
                    // the wrong way round where the neighbours tell which way is right
                    let turned = c.rng.chance(1, 3) && sides(rev(t)).iter().any(|s| taken.contains(s));
                    if turned { c.ev("batch-turned"); }
                    let x = if turned { rev(t) } else { t };
                    taken.extend(sides(t));
                    let k = c.rng.below(3);
                    list.push((x[k], x[(k + 1) % 3], x[(k + 2) % 3]));
                    // and once more where there is no room for it
                    if c.rng.chance(1, 5) && sides(rev(t)).iter().any(|s| taken.contains(s)) {
                        c.ev("batch-refused");
                        list.push((t[0], t[1], t[2]));
                    }
                }
                h.log.push(format!("add*{:?}", list));
                let ids = h.m.add_triangles_deferred(&list);
                c.ev("batch-added");
                if delta {
                    let mut used: BTreeSet<(usize, usize)> = e.values().flat_map(|t| sides(*t)).collect();
                    let mut want = vec![];
                    for &(a, b, d) in &list {
                        let t = [a, b, d];
                        for x in [t, rev(t)] {
                            if sides(x).iter().all(|s| !used.contains(s)) { used.extend(sides(x)); want.push(cyc(x)); break; }
                        }
                    }
                    let got = live(&h.m);
                    let ok = match &got {
                        Ok(g) => ids.len() == want.len() && g.len() == e.len() + want.len() && e.iter().all(|(f, t)| g.get(f) == Some(t)) && ids.iter().zip(&want).all(|(f, t)| g.get(f) == Some(t)),
                        Err(_) => false,
                    };
                    c.check(ok, "add-batch", || format!("{}: adding {:?} returned {:?} and gave {:?}", info!(), list, ids, got));
                }
            }
            h.tree = fresh_tree(&h.m);
        }
        // ------------------------------------------------ split an edge
        4 | 5 | 6 => {
            if faces.is_empty() { return true; }
            let f = *c.rng.pick(&faces);
            let k = c.rng.below(3);
            let t = before[&f];
            let (u, v, x) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            let (pu, pv) = (rp(&h.m.vertices[u].position), rp(&h.m.vertices[v].position));
            let p = pu.lerp(&pv, &frac(&mut c.rng, T::EXACT));
            if !T::EXACT && p != rp(&pt::<T, N>(&p)) { return true; }
            let (here, near) = at(&h.m, &p);
            if near || here.iter().any(|&i| i == u || i == v) { return true; }
            let other = dirs.get(&(v, u)).copied();
            let mut he = h.m.half_edge_between(u, v).unwrap_or(usize::MAX);
            let mut side = "";
            if he == usize::MAX { return true; }
            if other.is_none() && c.rng.chance(1, 3) { he = h.m.half_edges[he].twin; side = "'"; }
            h.log.push(format!("split{}({},{}){}", side, u, v, if other.is_none() { "|" } else { "" }));
            let keep = c.rng.chance(1, 8);
            let t0 = if keep { tree_entries::<T, N>(&h.tree) } else { vec![] };
            let r = h.m.split_edge(&mut h.tree, he, &pt(&p), !keep);
            if keep {
                // the caller asked for the tree to be left alone
                c.ev("tree-left-alone");
                let t1 = tree_entries::<T, N>(&h.tree);
                c.check(t0 == t1, "tree-touched", || format!("{}: split_edge without update changes the entries {:?} to {:?}", info!(), t0, t1));
                h.tree = fresh_tree(&h.m);
            }
            match r {
                Ok(res) => {
                    if !here.is_empty() {
                        c.ev("split-at-existing-vertex");
                        c.check(res.kind == SplitResultKind::NoSplit && here.contains(&res.vertex), "split-existing", || format!("{}: a vertex {:?} lies at {} but got {:?}", info!(), here, p.s(), res));
                        if delta { c.check(live(&h.m).as_ref() == Ok(&before), "nosplit-changes", || info!()); }
                        return true;
                    }
                    c.ev(if other.is_some() { "edge-split" } else { "border-edge-split" });
                    if delta {
                        c.check(res.kind == SplitResultKind::SplitEdge, "split-kind", || format!("{}: {:?}", info!(), res));
                        let w = nv;
                        let mut gone = vec![f];
                        let mut want = vec![[u, w, x], [w, v, x]];
                        if let Some(g) = other {
                            gone.push(g);
                            let y = *before[&g].iter().find(|&&y| y != u && y != v).unwrap();
                            want.extend([[v, w, y], [w, u, y]]);
                        }
                        check_split(c, h, &before, &res, &gone, want, &p, nv, "split_edge");
                        check_tree(c, h, "split_edge");
                    }
                }
                Err(e) => c.fail("split-refused", || format!("{}: split_edge({}, {}) at {}: {}", info!(), u, v, p.s(), e)),
            }
        }
        // ------------------------------------------------ split a face
        7 | 8 | 9 => {
            if faces.is_empty() { return true; }
            let f = *c.rng.pick(&faces);
            let t = before[&f];
            let q = tri_pts(&h.m, &t);
            if n3(&q).is_zero() { return true; }
            let kind = c.rng.below(6);
            let (s, tt) = (frac(&mut c.rng, T::EXACT), frac(&mut c.rng, T::EXACT));
            let k = c.rng.below(3);
            let p = match kind {
                0 => q[k].clone(),
                1 => q[k].lerp(&q[(k + 1) % 3], &s),
                _ => q[0].lerp(&q[1], &s).lerp(&q[2], &tt),
            };
            if !T::EXACT && (p != rp(&pt::<T, N>(&p)) || thin(&q)) { return true; }
            let (here, near) = at(&h.m, &p);
            if near || (kind != 0 && !here.is_empty()) { return true; }
            h.log.push(format!("splitf{}{}", f, ["v", "e", "", "", "", ""][kind]));
            let keep = c.rng.chance(1, 8);
            let t0 = if keep { tree_entries::<T, N>(&h.tree) } else { vec![] };
            let r = h.m.split_face(&mut h.tree, f, &pt(&p), !keep);
            if keep {
                c.ev("tree-left-alone");
                let t1 = tree_entries::<T, N>(&h.tree);
                c.check(t0 == t1, "tree-touched", || format!("{}: split_face without update changes the entries {:?} to {:?}", info!(), t0, t1));
                h.tree = fresh_tree(&h.m);
            }
            match r {
                Ok(res) => {
                    match kind {
                        0 => {
                            c.ev("face-split-at-vertex");
                            c.check(res.kind == SplitResultKind::NoSplit && res.vertex == t[k], "split-existing", || format!("{}: corner {} of face {} but got {:?}", info!(), t[k], f, res));
                            if delta { c.check(live(&h.m).as_ref() == Ok(&before), "nosplit-changes", || info!()); }
                            return true;
                        }
                        1 => {
                            c.ev("face-split-on-edge");
                            if delta {
                                c.check(res.kind == SplitResultKind::SplitEdge, "split-kind", || format!("{}: {:?}", info!(), res));
                                let (u, v, x) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
                                let mut gone = vec![f];
                                let mut want = vec![[u, nv, x], [nv, v, x]];
                                if let Some(&g) = dirs.get(&(v, u)) {
                                    gone.push(g);
                                    let y = *before[&g].iter().find(|&&y| y != u && y != v).unwrap();
                                    want.extend([[v, nv, y], [nv, u, y]]);
                                }
                                check_split(c, h, &before, &res, &gone, want, &p, nv, "split_face on an edge");
                                check_tree(c, h, "split_face");
                            }
                        }
                        _ => {
                            c.ev("face-split");
                            if delta {
                                c.check(res.kind == SplitResultKind::SplitFace, "split-kind", || format!("{}: {:?}", info!(), res));
                                check_split(c, h, &before, &res, &[f], vec![[t[0], t[1], nv], [t[1], t[2], nv], [t[2], t[0], nv]], &p, nv, "split_face");
                                check_tree(c, h, "split_face");
                            }
                        }
                    }
                }
                Err(e) => c.fail("split-refused", || format!("{}: split_face({}) at {}: {}", info!(), f, p.s(), e)),
            }
        }
        // ------------------------------------------------ flip
        10 | 11 => {
            if faces.is_empty() { return true; }
            let f = *c.rng.pick(&faces);
            let k = c.rng.below(3);
            let t = before[&f];
            let (u, v, x) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
            let Some(he) = h.m.half_edge_between(u, v) else { return true };
            let other = dirs.get(&(v, u)).copied();
            let mut he = he;
            if c.rng.chance(1, 8) {
                // half-edges that are not there
                let gone: Vec<usize> = (0..h.m.half_edges.len()).filter(|&x| h.m.half_edges[x].removed).collect();
                let x = if gone.is_empty() || c.rng.chance(1, 4) { h.m.half_edges.len() + c.rng.below(3) } else { *c.rng.pick(&gone) };
                let t0 = tables(&h.m);
                c.ev("stale-flip");
                let r = h.m.flip_edge(x);
                h.log.push(format!("flip({})", x));
                c.check(r.is_err() && tables(&h.m) == t0, "stale-flip", || format!("{}: flipping half-edge {}, which is not in use: {:?}", info!(), x, r));
                return true;
            }
            if other.is_none() && c.rng.bool() { he = h.m.half_edges[he].twin; }
            let t0 = tables(&h.m);
            h.log.push(format!("flip({},{})", u, v));
            let mut legal = false;
            let mut flat = false;
            let mut y = usize::MAX;
            if let Some(g) = other {
                y = *before[&g].iter().find(|&&y| y != u && y != v).unwrap();
                let area = |t: Tri| n3(&tri_pts(&h.m, &t)).n2();
                let (a1, a2) = (area([x, y, v]), area([y, x, u]));
                legal = x != y && !dirs.contains_key(&(x, y)) && !dirs.contains_key(&(y, x));
                if legal && N == 3 {
                    let lim = R::from((1, 1000));
                    flat = T::EXACT && (sgn(&a1) == 0 || sgn(&a2) == 0);
                    if flat { c.ev("flip-without-area"); }
                    if a1 < lim || a2 < lim {
                        if T::EXACT && sgn(&a1) > 0 && sgn(&a2) > 0 { /* thin but legal */ } else if sgn(&a1) == 0 || sgn(&a2) == 0 { legal = false; } else { return true; }
                    }
                }
            }
            match h.m.flip_edge(he) {
                Ok(()) => {
                    c.ev("edge-flipped");
                    let got = live(&h.m);
                    if other.is_none() || x == y || dirs.contains_key(&(x, y)) || dirs.contains_key(&(y, x)) {
                        c.fail("illegal-flip", || format!("{}: flip accepted", info!()));
                    } else if delta {
                        let g = other.unwrap();
                        c.check(!flat, "flat-flip", || format!("{}: flipping ({},{}) to ({},{}) makes a triangle without area", info!(), u, v, x, y));
                        let mut e = before.clone();
                        e.remove(&f); e.remove(&g);
                        let ok = match &got { Ok(s) => {
                            let mut s = s.clone();
                            let (p, q) = (s.remove(&f), s.remove(&g));
                            let mut pq = vec![p.unwrap_or([0; 3]), q.unwrap_or([0; 3])];
                            pq.sort();
                            let mut w = vec![cyc([u, y, x]), cyc([v, x, y])];
                            w.sort();
                            s == e && pq == w
                        } Err(_) => false };
                        c.check(ok, "flip-triangles", || format!("{}: flipping ({},{}) of {:?} {:?} gave {:?}", info!(), u, v, before[&f], before[&g], got));
                    }
                }
                Err(e) => {
                    c.ev("flip-refused");
                    c.check(tables(&h.m) == t0, "refused-flip-changes", || format!("{}: {}", info!(), e));
                    if delta { c.check(!legal, "flip-refused", || format!("{}: legal flip of ({},{}) to ({},{}) refused: {}", info!(), u, v, x, y, e)); }
                }
            }
            h.tree = fresh_tree(&h.m);
        }
        // ------------------------------------------------ collapse
        _ => {
            if faces.is_empty() { return true; }
            let f = *c.rng.pick(&faces);
            let k = c.rng.below(3);
            let t = before[&f];
            let (u, v) = if c.rng.bool() { (t[k], t[(k + 1) % 3]) } else { (t[(k + 1) % 3], t[k]) };
            // one fan at each end and around
            let fs = fans(&before);
            if fs.values().any(|&n| n > 1) { return true; }
            let t0 = tables(&h.m);
            h.log.push(format!("collapse({}<-{})", u, v));
            if (col.unwrap())(&mut h.m, u, v) {
                c.ev("edge-collapsed");
            } else {
                c.ev("collapse-refused");
                c.check(tables(&h.m) == t0, "refused-collapse-changes", || info!());
            }
            h.tree = fresh_tree(&h.m);
        }
    }
    if j == Judge::Valid {
        c.ev("validity-checked");
        if let Err(e) = validity(&h.m) {
            c.fail("invalid", || format!("{}: {}", info!(), e));
            return false;
        }
    }
    !c.failed()
}
fn start_hist<T, N>(c: &mut Case, s: &Shape<N>, j: Judge) -> Hist<T, N> {
    let s = scramble(&mut c.rng, s);
    let mut m = Mesh::<T, N>::new();
    let incremental = c.rng.bool();
    let mut name = s.name.clone();
    for p in &s.pos {
        m.add_vertex(pt(p));
    }
    if incremental {
        for t in &s.tris {
            m.add_triangle(t[0], t[1], t[2]);
            if j == Judge::Valid {
                if let Err(e) = validity(&m) {
                    c.fail("invalid", || format!("{} {}: building, after {:?} of {:?}: {}", T::NAME, s.name, t, s.tris, e));
                    break;
                }
            }
        }
    } else {
        let l: Vec<(usize, usize, usize)> = s.tris.iter().map(|t| (t[0], t[1], t[2])).collect();
        m.add_triangles_deferred(&l);
        name.push('*');
        if j == Judge::Valid {
            if let Err(e) = validity(&m) {
                c.fail("invalid", || format!("{} {}: building in one go {:?}: {}", T::NAME, s.name, s.tris, e));
            }
        }
    }
    let mut want: Vec<Tri> = s.tris.iter().map(|t| cyc(*t)).collect();
    want.sort();
    if j == Judge::Delta {
        let got = live(&m);
        c.check(got.as_ref().map(|g| bag(g)) == Ok(want), "build", || format!("{} {}: {:?} became {:?}", T::NAME, s.name, s.tris, got));
    }
    let tree = m.build_face_tree();
    Hist { m, tree, log: vec![], name, fresh: 0 }
}
fn history<T, N>(c: &mut Case, s: &Shape<N>, col: Collapser<T, N>, j: Judge) {
    let mut h = start_hist::<T, N>(c, s, j);
    let n = if c.thorough { 8 + c.rng.below(50) } else { 6 + c.rng.below(22) };
    for _ in 0..n {
        if c.failed() || !step(c, &mut h, col, j) { break; }
    }
    if !c.failed() && j == Judge::Valid {
        h.m.validate_connectivity();
        h.m.validate_half_edges();
    }
    let id = format!("{} {} {}", T::NAME, h.name, h.log.join(" "));
    c.nontrivial(hash_str(&id));
    c.sample("history", || id);
}
}
/// area vector (doubled), also for flat triangles
pub fn n3<const N: usize>(p: &[V<N>; 3]) -> V3 {
    let e: [V3; 3] = std::array::from_fn(|k| V(std::array::from_fn(|i| if i < N { p[k].0[i].clone() } else { R::new() })));
    normal(&e)
}
fn col3<T: Sc>(m: &mut Mesh<T, 3>, u: usize, v: usize) -> bool
where
    T: From<CgarRational>,
    for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T> + std::ops::Mul<&'a T, Output = T> + std::ops::Div<&'a T, Output = T> + std::ops::Neg<Output = T>,
{
    m.collapse_edge(u, v).is_ok()
}
#[macro_export]
macro_rules! per_scalar {
    ($c:expr, $T:ident => $e:expr) => {
        match $c.rng.below(4) {
            0 => {
                type $T = CgarRational;
                $e
            }
            1 => {
                type $T = CgarF64;
                $e
            }
            _ => {
                type $T = LazyExact;
                $e
            }
        }
    };
}
fn hist3(c: &mut Case, j: Judge) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => history::<T, 3>(c, &s, Some(col3::<T>), j))
}
fn hist2(c: &mut Case, j: Judge) {
    let s = flat(&mut c.rng);
    per_scalar!(c, T => history::<T, 2>(c, &s, None, j))
}
fn valid3(c: &mut Case) {
    hist3(c, Judge::Valid)
}
fn valid2(c: &mut Case) {
    hist2(c, Judge::Valid)
}
fn delta3(c: &mut Case) {
    hist3(c, Judge::Delta)
}
fn delta2(c: &mut Case) {
    hist2(c, Judge::Delta)
}

pub const P11: Prop = Prop {
    id: "P11", schedules: false,
    rule: "edit histories (build one by one or in one go; add, refuse, remove, batch remove and re-add, split edges and faces at interior, border, edge and corner points, flip, collapse) on open, closed, holed, toroidal and multi-piece surfaces in the plane and in space, all scalars, every public table checked after every edit. Non-trivial: distinct by history",
    assumptions: &["splits are at points of the edge or face", "the operands of an edit are live elements of the mesh"],
    workloads: &[Workload { name: "history3", f: valid3, quick: 60_000, thorough: 300_000 }, Workload { name: "history2", f: valid2, quick: 28_000, thorough: 150_000 }],
    min_events: &[("validity-checked", 20_000), ("edge-collapsed", 300), ("border-edge-split", 300), ("batch-removed", 300), ("triangle-refused", 100)],
};
pub const P12: Prop = Prop {
    id: "P12", schedules: false,
    rule: "the same edit histories with the triangle list, positions, returned indices and the caller's face tree compared with what the edit is documented to do. Non-trivial: distinct by history",
    assumptions: &["splits are at points of the edge or face", "the operands of an edit are live elements of the mesh"],
    workloads: &[Workload { name: "effect3", f: delta3, quick: 20_000, thorough: 80_000 }, Workload { name: "effect2", f: delta2, quick: 10_000, thorough: 40_000 }],
    min_events: &[("edge-split", 1000), ("border-edge-split", 300), ("face-split", 1000), ("edge-flipped", 500), ("triangle-removed", 300), ("batch-added", 300)],
};
/// too thin for double arithmetic to tell its edges from its inside
pub fn thin<const N: usize>(q: &[V<N>; 3]) -> bool {
    let l = (0..3).map(|k| (&q[k] - &q[(k + 1) % 3]).n2()).max().unwrap();
    n3(q).n2() * ri(1000) < l.clone() * l
}

// ---------------------------------------------------------------- P13
enum Place {
    Mid,
    Keep,
    Gone,
    Off(V3),
}
impl<T: Sc> Placement<T, 3> for Place
where
    for<'a> &'a T: std::ops::Add<&'a T, Output = T> + std::ops::Sub<&'a T, Output = T> + std::ops::Mul<&'a T, Output = T> + std::ops::Div<&'a T, Output = T> + std::ops::Neg<Output = T>,
{
    fn place(&self, m: &Mesh<T, 3>, a: usize, b: usize) -> Point<T, 3> {
        match self {
            Place::Mid => Midpoint.place(m, a, b),
            Place::Keep => m.vertices[a].position.clone(),
            Place::Gone => m.vertices[b].position.clone(),
            Place::Off(v) => pt(v),
        }
    }
}
/// does collapsing (u,v) keep the surface a manifold of the same type?
fn collapsible(s: &Soup, u: usize, v: usize) -> bool {
    let d = dir_edges(s);
    let mut vs: BTreeSet<usize> = BTreeSet::new();
    for t in s.values() {
        vs.extend(t.iter().copied());
    }
    let nb = |x: usize| -> BTreeSet<usize> { vs.iter().copied().filter(|&y| d.contains_key(&(x, y)) || d.contains_key(&(y, x))).collect() };
    let border = |x: usize| d.keys().any(|&(a, b)| (a == x || b == x) && !d.contains_key(&(b, a)));
    let opp: BTreeSet<usize> = s.values().filter(|t| t.contains(&u) && t.contains(&v)).flat_map(|t| t.iter().copied().filter(|&x| x != u && x != v)).collect();
    let common: BTreeSet<usize> = nb(u).intersection(&nb(v)).copied().collect();
    if common != opp {
        return false;
    }
    let interior = d.contains_key(&(u, v)) && d.contains_key(&(v, u));
    if interior && border(u) && border(v) {
        return false;
    }
    // every face at the edge must have a neighbour across its other sides
    for t in s.values().filter(|t| t.contains(&u) && t.contains(&v)) {
        let x = *t.iter().find(|&&x| x != u && x != v).unwrap();
        let open = |p: usize, q: usize| !(d.contains_key(&(p, q)) && d.contains_key(&(q, p)));
        if open(u, x) && open(v, x) {
            return false;
        }
    }
    // no two faces on the same vertices
    let mut seen = BTreeSet::new();
    for t in s.values() {
        if t.contains(&u) && t.contains(&v) {
            continue;
        }
        let mut k = t.map(|x| if x == v { u } else { x });
        k.sort();
        if !seen.insert(k) {
            return false;
        }
    }
    !seen.is_empty()
}
g3! {
fn collapse_case<T>(c: &mut Case, s: &Shape<3>) {
    let mut h = start_hist::<T, 3>(c, s, Judge::None);
    // some edits first, as long as the surface stays a manifold
    for _ in 0..c.rng.below(8) {
        let (m, l) = (h.m.clone(), h.log.len());
        step(c, &mut h, None, Judge::None);
        if c.failed() { return; }
        let ok = match validity(&h.m) { Ok(s) => manifold(&s) && !s.is_empty(), Err(_) => false };
        if !ok {
            h.m = m;
            h.tree = fresh_tree(&h.m);
            h.log.truncate(l);
        }
    }
    let rounds = if c.thorough { 12 } else { 8 };
    for _ in 0..rounds {
        let Ok(before) = validity(&h.m) else { return };
        if before.is_empty() || !manifold(&before) { break; }
        let dirs = dir_edges(&before);
        let mut edges: Vec<(usize, usize)> = dirs.keys().copied().collect();
        edges.sort();
        let (mut u, mut v) = *c.rng.pick(&edges);
        if c.rng.bool() { std::mem::swap(&mut u, &mut v); }
        let mut adjacent = true;
        if c.rng.chance(1, 12) {
            v = c.rng.pick(&edges).0;
            adjacent = dirs.contains_key(&(u, v)) || dirs.contains_key(&(v, u));
            if u == v { continue; }
        }
        let is_border = adjacent && !(dirs.contains_key(&(u, v)) && dirs.contains_key(&(v, u)));
        let (pu, pv) = (rp(&h.m.vertices[u].position), rp(&h.m.vertices[v].position));
        let place = match c.rng.below(6) {
            0 => Place::Keep,
            1 => Place::Gone,
            2 => Place::Off(pu.lerp(&pv, &R::from((c.rng.int(-8, 12), 4)))),
            3 => { let d = V::i([c.rng.int(-20, 20), c.rng.int(-20, 20), c.rng.int(-20, 20)]); Place::Off(&pu + &d) }
            _ => Place::Mid,
        };
        let star = rp(&Placement::<T, 3>::place(&place, &h.m, u, v));
        let mut opts = CollapseOpts::<T>::default();
        let mut eps2 = R::new();
        let simple = c.rng.chance(1, 4);
        if !simple {
            opts.forbid_border = c.rng.bool();
            opts.forbid_normal_flip = c.rng.bool();
            if c.rng.bool() {
                eps2 = ri(*c.rng.pick(&[1i64, 100, 2500, 10_000]));
                opts.area_eps2 = T::of(&eps2);
            }
        }
        let (fb, ff) = (opts.forbid_border, opts.forbid_normal_flip);
        let (star, place) = if simple { (pu.lerp(&pv, &R::from((1, 2))), Place::Mid) } else { (star, place) };
        // what has to happen
        let topo = adjacent && collapsible(&before, u, v);
        let mut small = false;      // certainly refused for area
        let mut maybe_small = false;
        let mut flips = false;
        let mut maybe_flip = false;
        for t in before.values() {
            if t.contains(&u) && t.contains(&v) || !(t.contains(&u) || t.contains(&v)) { continue; }
            let old = tri_pts(&h.m, t);
            let new: [V3; 3] = std::array::from_fn(|k| if t[k] == u || t[k] == v { star.clone() } else { old[k].clone() });
            let a2 = normal(&new).n2() / ri(4);
            let dot = normal(&old).dot(&normal(&new));
            let slack = if T::EXACT { R::new() } else { R::from((1, 1000)) };
            if a2 <= eps2 { if T::EXACT || R::from(&eps2 - &a2) > slack || sgn(&a2) == 0 { small = true; } else { maybe_small = true; } }
            else if R::from(&a2 - &eps2) <= slack { maybe_small = true; }
            if sgn(&dot) < 0 { if dot.clone().abs() > slack { flips = true; } else { maybe_flip = true; } }
            else if dot <= slack { maybe_flip = true; }
        }
        if maybe_small || (ff && maybe_flip) { continue; }
        let must_refuse = !topo || (fb && is_border) || small || (ff && flips);
        let desc = format!("collapse {}<-{} at {} {}", u, v, star.s(), if simple { "default".into() } else { format!("border {} flips {} area2>{}", !fb, !ff, eps2) });
        let t0 = tables(&h.m);
        let pos0: Vec<V3> = h.m.vertices.iter().map(|x| rp(&x.position)).collect();
        let way = c.rng.below(3);
        let res: Result<(), CollapseReject> = if simple {
            h.m.collapse_edge(u, v)
        } else if way == 0 && adjacent {
            let he = h.m.half_edge_between(u, v).unwrap_or(usize::MAX);
            match h.m.collapse_edge_begin_he(he, &place, &opts) { Ok(p) => { c.check(p.v_keep == u && p.v_gone == v, "plan-ends", || format!("{:?}", p)); h.m.collapse_edge_commit(p) } Err(e) => Err(e) }
        } else {
            match h.m.collapse_edge_begin_vertices(u, v, &place, &opts) { Ok(p) => h.m.collapse_edge_commit(p), Err(e) => Err(e) }
        };
        let info = |h: &Hist<T, 3>| format!("{} {} [{}] {} of {:?}", T::NAME, h.name, h.log.join(" "), desc, bag(&before));
        c.nontrivial(mix(hash_str(&desc), hash_str(&t0)));
        match res {
            Err(e) => {
                c.ev(if !adjacent { "refused-not-adjacent" } else if !topo { "refused-topology" } else if fb && is_border { "refused-border" } else if small { "refused-small" } else { "refused-flip" });
                c.check(tables(&h.m) == t0, "refused-changes", || format!("{}: {:?}", info(&h), e));
                c.check(must_refuse, "needlessly-refused", || format!("{}: {:?}", info(&h), e));
            }
            Ok(()) => {
                c.ev(if is_border { "collapsed-border" } else { "collapsed-inner" });
                let why = if !topo { "topology" } else if fb && is_border { "border" } else if small { "area" } else { "flip" };
                c.check(!must_refuse, &format!("accepted-despite-{}", why), || info(&h));
                match validity(&h.m) {
                    Err(e) => { c.fail("collapse-corrupts", || format!("{}: {}", info(&h), e)); }
                    Ok(after) => {
                        let mut want: Vec<Tri> = before.values().filter(|t| !(t.contains(&u) && t.contains(&v))).map(|t| cyc(t.map(|x| if x == v { u } else { x }))).collect();
                        want.sort();
                        c.check(bag(&after) == want, "collapse-triangles", || format!("{}: got {:?}", info(&h), bag(&after)));
                        let mut sets: Vec<Tri> = want.iter().map(|t| { let mut t = *t; t.sort(); t }).collect();
                        sets.sort();
                        let n = sets.len();
                        sets.dedup();
                        c.check(n == sets.len(), "collapse-duplicates", || info(&h));
                        c.check(manifold(&after) && euler(&after) == euler(&before), "collapse-topology", || format!("{}: {:?} -> {:?}", info(&h), euler(&before), euler(&after)));
                        c.check(h.m.vertices[v].removed && !h.m.vertices[u].removed, "collapse-vertices", || info(&h));
                        for (i, p) in pos0.iter().enumerate() {
                            if i == v { continue; }
                            let now = rp(&h.m.vertices[i].position);
                            let ok = if i == u { now == star || !T::EXACT && (&now - &star).n2() < R::from((1, 1_000_000_000)) } else { now == *p };
                            c.check(ok, "collapse-positions", || format!("{}: vertex {} at {}", info(&h), i, now.s()));
                        }
                    }
                }
            }
        }
        c.sample("collapse", || desc.clone());
        if c.failed() { return; }
        h.log.push(format!("{}<-{}", u, v));
    }
}
}
fn collapse3(c: &mut Case) {
    let s = surface(&mut c.rng);
    per_scalar!(c, T => collapse_case::<T>(c, &s))
}
pub const P13: Prop = Prop {
    id: "P13", schedules: false,
    rule: "series of collapses with every way of starting them, placements on and off the edge and all options, on open, closed, holed, toroidal and irregular surfaces after other edits; the outcome is compared with the link condition, area and normals computed from the triangle list, and the result with the rewritten list. Non-trivial: distinct by mesh and request",
    assumptions: &["the mesh is an orientable manifold with border", "for doubles, areas and normals away from the rounding threshold"],
    workloads: &[Workload { name: "collapse", f: collapse3, quick: 80_000, thorough: 150_000 }],
    min_events: &[("collapsed-inner", 1000), ("collapsed-border", 200), ("refused-topology", 1000), ("refused-border", 100), ("refused-small", 100), ("refused-flip", 50)],
};
