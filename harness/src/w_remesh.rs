//! P21 remeshing and smoothing.
use crate::core::*;
use crate::{g3, per_scalar};
use crate::oracle::*;
use crate::w_geo::{pt, rp};
use crate::w_mesh::*;
use crate::w_ray::{begin, body};
use crate::zoo::*;
use cgar::mesh_processing::remesh::RemeshOptions;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use std::collections::{BTreeMap, BTreeSet};

type F3 = [f64; 3];
fn f3(p: &V3) -> F3 { std::array::from_fn(|i| p.0[i].to_f64()) }
fn sub(a: &F3, b: &F3) -> F3 { std::array::from_fn(|i| a[i] - b[i]) }
fn dot(a: &F3, b: &F3) -> f64 { (0..3).map(|i| a[i] * b[i]).sum() }
fn add(a: &F3, b: &F3, s: f64) -> F3 { std::array::from_fn(|i| a[i] + s * b[i]) }
fn len(a: &F3) -> f64 { dot(a, a).sqrt() }
fn crs(a: &F3, b: &F3) -> F3 { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn seg_dist(p: &F3, a: &F3, b: &F3) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l > 0.0 { (dot(&sub(p, a), &d) / l).clamp(0.0, 1.0) } else { 0.0 };
    len(&sub(p, &add(a, &d, t)))
}
fn tri_dist(p: &F3, t: &[F3; 3]) -> f64 {
    let n = crs(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]));
    let nn = dot(&n, &n);
    if nn > 0.0 {
        let h = dot(&sub(p, &t[0]), &n) / nn;
        let q = add(p, &n, -h);
        if (0..3).all(|k| dot(&crs(&sub(&t[(k + 1) % 3], &t[k]), &sub(&q, &t[k])), &n) >= 0.0) {
            return h.abs() * nn.sqrt();
        }
    }
    (0..3).map(|k| seg_dist(p, &t[k], &t[(k + 1) % 3])).fold(f64::MAX, f64::min)
}
fn dist(p: &F3, ts: &[[F3; 3]]) -> f64 { ts.iter().map(|t| tri_dist(p, t)).fold(f64::MAX, f64::min) }
fn edges(s: &Soup) -> Vec<(usize, usize)> {
    let mut e = BTreeSet::new();
    for t in s.values() { for k in 0..3 { let (a, b) = (t[k], t[(k + 1) % 3]); e.insert((a.min(b), a.max(b))); } }
    e.into_iter().collect()
}
fn border(s: &Soup) -> Vec<(usize, usize)> {
    let d = dir_edges(s);
    let mut v: Vec<_> = d.keys().filter(|(a, b)| !d.contains_key(&(*b, *a))).copied().collect();
    v.sort();
    v
}
fn quant(mut v: Vec<f64>) -> (f64, f64, f64, f64) {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (v[0], v[v.len() / 2], v[v.len() - 1], v[v.len() * 9 / 10])
}
/// a flat shape laid into some plane of space; also the plane's normal
fn laid(r: &mut Rng) -> (Shape<3>, V3) {
    let f = flat(r);
    let (u, w): (V3, V3) = match r.below(5) {
        0 => (V::i([1, 0, 0]), V::i([0, 1, 0])),
        1 => (V::i([0, 1, 0]), V::i([0, 0, 1])),
        2 => (V::i([1, 0, 0]), V::i([0, 0, 1])),
        3 => (V::i([2, -1, 2]), V::i([2, 2, -1])),
        _ => (V::i([3, 0, 4]), V::i([0, 5, 0])),
    };
    let o = V::i([r.int(-40, 40), r.int(-40, 40), r.int(-40, 40)]);
    let n = cross3(&u, &w);
    let pos = f.pos.iter().map(|p| &(&u.scale(&p.0[0]) + &w.scale(&p.0[1])) + &o).collect();
    (Shape { name: format!("flat-{}", f.name), pos, tris: f.tris }, n)
}
struct Before {
    soup: Soup,
    tris: Vec<[F3; 3]>,
    border: Vec<[F3; 2]>,
    rms: f64,
    area: f64,
}
fn area(t: &[F3; 3]) -> f64 { len(&crs(&sub(&t[1], &t[0]), &sub(&t[2], &t[0]))) / 2.0 }
fn rms(l: &[f64]) -> f64 { (l.iter().map(|x| x * x).sum::<f64>() / l.len() as f64).sqrt() }
fn shape_of<T: Sc>(m: &cgar::mesh::basic_types::Mesh<T, 3>, s: &Soup) -> Before {
    let at = |v: usize| f3(&rp(&m.vertices[v].position));
    let tris: Vec<[F3; 3]> = s.values().map(|t| t.map(at)).collect();
    let l: Vec<f64> = edges(s).iter().map(|e| len(&sub(&at(e.0), &at(e.1)))).collect();
    let area = tris.iter().map(area).sum();
    Before { soup: s.clone(), tris, border: border(s).iter().map(|e| [at(e.0), at(e.1)]).collect(), rms: rms(&l), area }
}
g3! {
fn remesh<T>(c: &mut Case, s: &Shape<3>, plane: Option<V3>) {
    let steps = if T::EXACT { 3 } else { 12 };
    let Hist { m, log, .. } = begin::<T, 3>(c, s, steps, true);
    let mut m = m;
    let Ok(soup) = validity(&m) else { return };
    if soup.is_empty() || !manifold(&soup) { c.ev("skipped"); return; }
    // digits grow with every step that builds on another
    let rim: BTreeSet<usize> = border(&soup).iter().flat_map(|e| [e.0, e.1]).collect();
    let inner = soup.values().flatten().collect::<BTreeSet<_>>().len() - rim.len();
    if T::EXACT && (soup.len() > 8 || inner > 4) { return; }
    let b = shape_of(&m, &soup);
    let ratio = if T::EXACT { *c.rng.pick(&[0.8, 1.0, 1.3, 2.0]) } else { *c.rng.pick(&[0.3, 0.5, 0.8, 1.0, 1.3, 2.0]) };
    let auto = c.rng.chance(1, 12);
    let target = if auto { b.rms } else { b.rms * ratio };
    let mut o = RemeshOptions::new(T::from(if auto { 0.0 } else { target }));
    o.max_iterations = if T::EXACT { 1 } else if c.rng.chance(1, 3) { if ratio < 0.5 { 30 } else { 15 } } else { 1 + c.rng.below(10) };
    let its = o.max_iterations;
    let info = || format!("{} {} [{}] target {} ({} of the mean) iterations {}", T::NAME, s.name, log.join(" "), target, target / b.rms, its);
    let avg = m.compute_average_edge_length();
    c.check((avg - b.rms).abs() <= 1e-9 * b.rms, "average-edge", || format!("{}: average edge length {} but {}", info(), avg, b.rms));
    let e0 = euler(&soup);
    if m.isotropic_remesh(&o).is_err() { c.fail("refused", || info()); return; }
    c.ev(if its >= 15 { "long-run" } else { "run" });
    c.ev(if plane.is_some() { "flat" } else if e0.2 == 0 { "closed" } else { "open" });
    let a = match validity(&m) { Ok(a) => a, Err(e) => { c.fail("invalid", || format!("{}: {}", info(), e)); return; } };
    if a.len() != soup.len() { c.nontrivial(hash_str(&format!("{}{}{}", info(), a.len(), T::NAME))); }
    c.evn("result-triangle", a.len() as u64);
    let e1 = euler(&a);
    c.check(e1 == e0 && manifold(&a), "type", || format!("{}: (characteristic, parts, borders) {:?} became {:?}, manifold {}", info(), e0, e1, manifold(&a)));
    let mut seen = BTreeMap::new();
    for (f, t) in &a {
        let mut k = *t;
        k.sort();
        if let Some(g) = seen.insert(k, *f) { if a.len() != 2 { c.fail("duplicate", || format!("{}: faces {} and {} on {:?}", info(), f, g, t)); } }
        let n = n3(&tri_pts(&m, t));
        c.check(!n.is_zero(), "degenerate", || format!("{}: face {:?} has no area", info(), t));
        if let Some(up) = &plane {
            c.check(sgn(&n.dot(up)) > 0, "folded", || format!("{}: face {:?} of the flat mesh is turned over", info(), t));
        }
    }
    let r = shape_of(&m, &a);
    if let Some(up) = &plane {
        let u = f3(up);
        let l = len(&u);
        let (mut d, o) = (0.0f64, &b.tris[0][0]);
        for p in r.tris.iter().flatten() { d = d.max((dot(&sub(p, o), &u) / l).abs()); }
        c.check(d <= 1e-9 * (1.0 + b.rms), "off-plane", || format!("{}: flat mesh leaves its plane by {}", info(), d));
    }
    // drift
    let d1 = r.tris.iter().flatten().map(|p| dist(p, &b.tris)).fold(0.0, f64::max) / target;
    let d2 = b.tris.iter().flatten().map(|p| dist(p, &r.tris)).fold(0.0, f64::max) / target;
    let bd = r.border.iter().flatten().map(|p| b.border.iter().map(|e| seg_dist(p, &e[0], &e[1])).fold(f64::MAX, f64::min)).fold(0.0, f64::max) / target;
    let l: Vec<f64> = edges(&a).iter().map(|e| len(&sub(&f3(&rp(&m.vertices[e.0].position)), &f3(&rp(&m.vertices[e.1].position)))) / target).collect();
    let q = quant(l);
    let many = b.area / (target * target);
    c.sample("remeshed", || format!("{}: {} faces -> {}, area ratio {:.4}, drift {:.3}/{:.3}, border {:.3}, edges {:.2} {:.2} {:.2} of the target", info(), b.soup.len(), a.len(), r.area / b.area, d1, d2, bd, q.0, q.1, q.2));
    let far = if plane.is_some() { 1.0 } else { 4.0 };
    c.check(d1 <= far, "drift", || format!("{}: a vertex ends {} edge lengths off the old surface", info(), d1));
    c.check(d2 <= 6.0, "shrink", || format!("{}: an old vertex is {} edge lengths off the new surface", info(), d2));
    c.check(bd <= 3.0, "border-drift", || format!("{}: the border ends {} edge lengths off the old border", info(), bd));
    if its >= 15 {
        if plane.is_some() && ratio > 0.4 {
            c.check(q.2 <= 3.0, "long-edge", || format!("{}: an edge of {} target lengths remains", info(), q.2));
        }
        if many > 20.0 && ratio > 0.4 && e0.1 == 1 {
            c.check(q.3 <= 2.5, "long-edges", || format!("{}: a tenth of the edges is longer than {} target lengths", info(), q.3));
            c.ev("settled");
            c.check(q.1 > 0.65 && q.1 < 1.5, "median-edge", || format!("{}: median edge is {} target lengths", info(), q.1));
        }
    }
    // stored vertices are found where they are
    for v in a.values().flatten().copied().collect::<BTreeSet<_>>() {
        let p = m.vertices[v].position.clone();
        let n = m.vertices.len();
        let (w, old) = m.get_or_insert_vertex(&p);
        c.check(old && w < n && !m.vertices[w].removed, "lost-vertex", || format!("{}: vertex {} at {} is not found there (gives {} of {})", info(), v, rp(&p).s(), w, n));
        if c.failed() { return; }
    }
}
}
/// one smoothing step, exactly: None if the vertex has to stay
fn smoothed(pos: &BTreeMap<usize, V3>, s: &Soup, v: usize, alpha: &R, max2: &R) -> Result<V3, &'static str> {
    let d = dir_edges(s);
    let mine: Vec<(usize, usize)> = s.values().filter_map(|t| t.iter().position(|&x| x == v).map(|k| (t[(k + 1) % 3], t[(k + 2) % 3]))).collect();
    if mine.is_empty() { return Err("isolated"); }
    if mine.iter().any(|(b, e)| !d.contains_key(&(*b, v)) || !d.contains_key(&(v, *e))) { return Err("border"); }
    let p = &pos[&v];
    let mut n = V3::zero();
    let mut l = V3::zero();
    for (b, e) in &mine {
        n = &n + &cross3(&(&pos[b] - p), &(&pos[e] - p));
        l = &l + &(&pos[b] - p);
    }
    l = l.scale(&R::from((1, mine.len() as i64)));
    let nn = n.n2();
    if sgn(&nn) > 0 {
        let k = l.dot(&n) / nn;
        l = &l - &n.scale(&k);
    }
    let q = p + &l.scale(alpha);
    for (b, e) in &mine {
        if (&pos[b] - &q).n2() > *max2 { return Err("long"); }
        let (o, w) = (cross3(&(&pos[b] - p), &(&pos[e] - p)), cross3(&(&pos[b] - &q), &(&pos[e] - &q)));
        if w.is_zero() || sgn(&o.dot(&w)) < 0 { return Err("turned"); }
    }
    Ok(q)
}
g3! {
fn smooth<T>(c: &mut Case, s: &Shape<3>) {
    let Hist { m, log, .. } = begin::<T, 3>(c, s, 8, true);
    let mut m = m;
    let Ok(soup) = validity(&m) else { return };
    if soup.is_empty() || !manifold(&soup) { c.ev("skipped"); return; }
    let mut log = log;
    let n = m.vertices.len();
    let size = shape_of(&m, &soup).rms;
    for _ in 0..4 {
        let v = c.rng.below(n);
        if m.vertices[v].removed { continue; }
        let alpha = R::from((c.rng.int(1, 8), 8));
        let mx = R::from((c.rng.int(1, 64), 8)) * rf(size);
        let max2 = R::from(&mx * &mx);
        let pos: BTreeMap<usize, V3> = (0..n).map(|i| (i, rp(&m.vertices[i].position))).collect();
        let want = smoothed(&pos, &soup, v, &alpha, &max2);
        // decisions too close to call in floating point
        if !T::EXACT {
            let near = [R::from((999_999, 1_000_000)), R::from((1_000_001, 1_000_000))].iter().any(|f| {
                smoothed(&pos, &soup, v, &R::from(f * &alpha), &R::from(f * &max2)).is_ok() != want.is_ok() });
            let sliver = soup.values().any(|t| t.contains(&v) && thin(&tri_pts(&m, t)));
            if near || sliver { continue; }
        }
        let tab = tables(&m);
        let moved = m.smooth_tangential(v, T::of(&alpha), &T::of(&max2));
        log.push(format!("smooth({},{})", v, alpha));
        let info = || format!("{} {} [{}] max edge {}", T::NAME, s.name, log.join(" "), mx);
        match &want {
            Ok(q) => {
                c.ev("moved");
                let p = rp(&m.vertices[v].position);
                c.check(moved, "stuck", || format!("{}: vertex {} stays, should go to {}", info(), v, q.s()));
                if moved {
                    let ok = if T::EXACT { p == *q } else { (0..3).all(|i| close(&p.0[i], &q.0[i], 1e-9 * (1.0 + size))) };
                    c.check(ok, "smoothed-position", || format!("{}: vertex {} goes to {} instead of {}", info(), v, p.s(), q.s()));
                    c.nontrivial(hash_str(&format!("{}{}", s.name, q.s())));
                }
            }
            Err(why) => {
                c.ev(&format!("stays-{}", why));
                c.check(!moved && tables(&m) == tab, "moved-anyway", || format!("{}: vertex {} moves although {}", info(), v, why));
            }
        }
        for i in 0..n {
            if i != v && rp(&m.vertices[i].position) != pos[&i] { c.fail("bystander", || format!("{}: vertex {} moved", info(), i)); }
        }
        if live(&m).ok().as_ref() != Some(&soup) { c.fail("connectivity", || info()); }
        if c.failed() { return; }
        let p = m.vertices[v].position.clone();
        let (w, old) = m.get_or_insert_vertex(&p);
        c.check(old && w < n, "lost-vertex", || format!("{}: vertex {} at {} is not found there", info(), v, rp(&p).s()));
        if c.failed() || T::EXACT { return; }
    }
}
// sweeps over a whole mesh
fn sweeps<T>(c: &mut Case, s: &Shape<3>, plane: Option<V3>) {
    let Hist { m, log, .. } = begin::<T, 3>(c, s, 10, true);
    let mut m = m;
    let Ok(soup) = validity(&m) else { return };
    if soup.is_empty() || !manifold(&soup) { c.ev("skipped"); return; }
    if T::EXACT && soup.len() > 8 { return; }
    let b = shape_of(&m, &soup);
    let pos: Vec<V3> = m.vertices.iter().map(|v| rp(&v.position)).collect();
    let k = if T::EXACT { 1 } else { c.rng.below(6) };
    let mx = b.rms * *c.rng.pick(&[0.01, 0.8, 2.0, 50.0]);
    let moved = m.smooth_vertices(k, &T::from(mx));
    let info = || format!("{} {} [{}] {} sweeps, max edge {}", T::NAME, s.name, log.join(" "), k, mx);
    c.ev("sweep");
    match validity(&m) { Ok(a) => { c.check(a == soup, "connectivity", || info()); } Err(e) => { c.fail("invalid", || format!("{}: {}", info(), e)); } }
    let fixed: BTreeSet<usize> = border(&soup).iter().flat_map(|e| [e.0, e.1]).collect();
    let mut changed = 0;
    for (i, p) in pos.iter().enumerate() {
        let q = rp(&m.vertices[i].position);
        if q == *p { continue; }
        changed += 1;
        c.check(!m.vertices[i].removed && !fixed.contains(&i), "border-moved", || format!("{}: border vertex {} moved from {} to {}", info(), i, p.s(), q.s()));
        if let Some(up) = &plane {
            let d = R::from((&q - p).dot(up)).to_f64();
            c.check(d.abs() <= 1e-7 * (1.0 + b.rms), "off-plane", || format!("{}: vertex {} leaves the plane by {}", info(), i, d));
        }
    }
    c.evn("vertex-moved", changed as u64);
    c.check(moved >= changed && (k > 0 || moved == 0) && (moved <= k * pos.len()), "moved-count", || format!("{}: {} moves reported, {} vertices changed", info(), moved, changed));
    if let Some(up) = &plane {
        for t in soup.values() {
            let n = n3(&tri_pts(&m, t));
            c.check(sgn(&n.dot(up)) > 0, "folded", || format!("{}: face {:?} is turned over", info(), t));
        }
        let r = shape_of(&m, &soup);
        c.check((r.area - b.area).abs() <= 1e-9 * b.area, "area", || format!("{}: area {} became {}", info(), b.area, r.area));
    }
    c.nontrivial(hash_str(&info()));
}
// meshes that are as asked already
fn ideal<T>(c: &mut Case) {
    let h = 3f64.sqrt() / 2.0;
    let (name, pos, tris, side): (String, Vec<F3>, Vec<Tri>, f64) = match c.rng.below(if T::EXACT { 2 } else { 4 }) {
        0 => {
            let s = octa();
            (s.name, s.pos.iter().map(f3).collect(), s.tris, 16.0 * 2f64.sqrt())
        }
        1 => {
            let s = Shape { name: "tetra".into(), pos: vec![V3::i([1, 1, 1]), V::i([1, -1, -1]), V::i([-1, 1, -1]), V::i([-1, -1, 1])], tris: vec![[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]] };
            (s.name, s.pos.iter().map(f3).collect(), s.tris, 8f64.sqrt())
        }
        2 => {
            let g = (1.0 + 5f64.sqrt()) / 2.0;
            let mut p = vec![];
            for i in 0..3 { for a in [-1.0, 1.0] { for b in [-g, g] { let mut q = [0.0; 3]; q[i] = a; q[(i + 1) % 3] = b; p.push(q); } } }
            let mut t = vec![];
            for i in 0..12 { for j in 0..12 { for k in 0..12 {
                if i < j && i < k && [(i, j), (j, k), (k, i)].iter().all(|(x, y)| (len(&sub(&p[*x], &p[*y])) - 2.0).abs() < 1e-9) && dot(&crs(&sub(&p[j], &p[i]), &sub(&p[k], &p[i])), &p[i]) > 0.0 { t.push([i, j, k]); }
            } } }
            ("icosahedron".into(), p, t, 2.0)
        }
        _ => {
            let (a, b) = (1 + c.rng.below(6), 1 + c.rng.below(6));
            let mut p = vec![];
            for y in 0..=b { for x in 0..=a { p.push([x as f64 + 0.5 * y as f64, h * y as f64, 0.0]); } }
            let id = |x: usize, y: usize| y * (a + 1) + x;
            let mut t = vec![];
            for y in 0..b { for x in 0..a { t.push([id(x, y), id(x + 1, y), id(x, y + 1)]); t.push([id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)]); } }
            (format!("lattice{}x{}", a, b), p, t, 1.0)
        }
    };
    let size = *c.rng.pick(&[0.01, 1.0, 3.0, 1000.0]);
    let k = size / side;
    let sh = Shape { name, pos: pos.iter().map(|p| V(p.map(|x| rf(x * k)))).collect(), tris };
    let sh = scramble(&mut c.rng, &sh);
    let mut m: cgar::mesh::basic_types::Mesh<T, 3> = make(&sh);
    let Ok(b) = validity(&m) else { return };
    let mut o = RemeshOptions::new(T::from(if c.rng.bool() { size } else { 0.0 }));
    let wild = c.rng.chance(1, 3);
    o.max_iterations = if wild { 0 } else if T::EXACT { 1 } else { 1 + c.rng.below(12) };
    if wild { o.target_edge_length = T::from(size * 3.0); }
    let info = || format!("{} {} of size {} iterations {}", T::NAME, sh.name, size, o.max_iterations);
    if m.isotropic_remesh(&o).is_err() { c.fail("refused", || info()); return; }
    c.ev("ideal");
    c.nontrivial(hash_str(&info()));
    c.check(live(&m).ok() == Some(b.clone()), "ideal-changed", || format!("{}: triangles {:?} became {:?}", info(), b, live(&m)));
    for (i, p) in sh.pos.iter().enumerate() {
        let q = rp(&m.vertices[i].position);
        c.check((0..3).all(|x| close(&p.0[x], &q.0[x], 1e-9 * (1.0 + size))), "ideal-moved", || format!("{}: vertex {} went from {} to {}", info(), i, p.s(), q.s()));
    }
}
}
fn any(c: &mut Case) -> (Shape<3>, Option<V3>) {
    if c.rng.bool() { let (s, n) = laid(&mut c.rng); (s, Some(n)) } else { (if c.rng.bool() { body(&mut c.rng) } else { surface(&mut c.rng) }, None) }
}
fn w_remesh(c: &mut Case) {
    let (s, up) = any(c);
    if c.rng.chance(9, 10) { remesh::<CgarF64>(c, &s, up) } else { remesh::<LazyExact>(c, &s, up) }
}
fn w_smooth(c: &mut Case) {
    let (s, _) = any(c);
    per_scalar!(c, T => smooth::<T>(c, &s))
}
fn w_sweeps(c: &mut Case) {
    let (s, up) = any(c);
    if c.rng.chance(9, 10) { sweeps::<CgarF64>(c, &s, up) } else if s.pos.len() < 8 { sweeps::<CgarRational>(c, &s, up) }
}
fn w_ideal(c: &mut Case) {
    if c.rng.chance(19, 20) { ideal::<CgarF64>(c) } else { ideal::<LazyExact>(c) }
}
pub const P21: Prop = Prop {
    id: "P21", schedules: false,
    rule: "remeshing of flat and curved, open and closed meshes after edits with targets from a third to twice the mean edge; single smoothing steps against the exact tangential formula; smoothing sweeps; meshes that are as asked already. Results are checked for validity, topological type, degenerate, duplicate and turned faces, planarity, border, drift and edge lengths. Non-trivial: remeshing runs that change the mesh, distinct smoothing steps",
    assumptions: &["manifold meshes", "whole remeshing runs use double precision, and exact numbers on small meshes, where digits stay manageable"],
    workloads: &[
        Workload { name: "remesh", f: w_remesh, quick: 120_000, thorough: 3_000_000 },
        Workload { name: "smooth", f: w_smooth, quick: 16_000, thorough: 400_000 },
        Workload { name: "sweeps", f: w_sweeps, quick: 8_000, thorough: 200_000 },
        Workload { name: "ideal", f: w_ideal, quick: 2_000, thorough: 20_000 },
    ],
    min_events: &[("run", 1000), ("long-run", 500), ("settled", 100), ("flat", 500), ("closed", 300), ("open", 100), ("moved", 500), ("stays-border", 100), ("stays-long", 100), ("stays-turned", 5), ("sweep", 500), ("vertex-moved", 500), ("ideal", 300)],
};
