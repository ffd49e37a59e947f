//! P04 beyond single numbers: threads that share points, a mesh and its face
//! tree, and threads that release shared expressions in different orders.
use crate::core::*;
use crate::oracle::*;
use cgar::geometry::{Point2, Point3, spatial_element::SpatialElement};
use cgar::kernel;
use cgar::kernel::predicates;
use cgar::mesh::basic_types::{Mesh, PointInMeshResult};
use cgar::numeric::{lazy_exact::LazyExact, scalar::*};

/// the number as an expression nobody has evaluated yet
fn cold(r: &mut Rng, q: &R) -> LazyExact {
    let k = R::from((r.int(-30, 30), r.int(1, 9)));
    match r.below(4) {
        0 => &LazyExact::of(&R::from(q + &k)) - &LazyExact::of(&k),
        1 => &LazyExact::of(&R::from(q - &k)) + &LazyExact::of(&k),
        2 => {
            let d = R::from(r.int(2, 11));
            &LazyExact::of(&R::from(q * &d)) / &LazyExact::of(&d)
        }
        _ => {
            let x = &LazyExact::of(&R::from(q - &k)) + &LazyExact::of(&k);
            let y = LazyExact::of(&R::from((1, 3)));
            &(&x * &y) / &y
        }
    }
}
fn coords<const N: usize>(r: &mut Rng, near: i64) -> V<N> {
    V(std::array::from_fn(|_| if r.bool() { ri(r.int(-near, near)) } else { R::from((r.int(-9, 9), r.int(1, 6))) }))
}
fn gather(c: &mut Case, results: Vec<(u64, Vec<String>)>, what: &'static str, txt: &str) {
    for (n, bad) in results {
        c.evn(what, n);
        for b in bad {
            c.fail("thread-observation", || format!("{} in {}", b, txt));
        }
    }
}
fn run<F: Fn(&mut Rng) -> Option<String> + Sync>(c: &mut Case, rounds: usize, f: F) -> Vec<(u64, Vec<String>)> {
    let nth = 2 + c.rng.below(4);
    let barrier = std::sync::Barrier::new(nth);
    let seeds: Vec<u64> = (0..nth).map(|_| c.rng.next()).collect();
    c.evn("threads", nth as u64);
    std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&sd| {
                let (barrier, f) = (&barrier, &f);
                s.spawn(move || {
                    let mut r = Rng::new(sd);
                    let mut bad = vec![];
                    barrier.wait();
                    for _ in 0..rounds {
                        if let Some(b) = f(&mut r) {
                            bad.push(b);
                        }
                        if r.chance(1, 16) {
                            std::thread::yield_now();
                        }
                    }
                    (rounds as u64, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((0, vec!["thread panicked".into()]))).collect()
    })
}
pub fn p04_geometry(c: &mut Case) {
    let p2: Vec<V2> = (0..6).map(|_| coords(&mut c.rng, 4)).collect();
    let p3: Vec<V3> = (0..6).map(|_| coords(&mut c.rng, 3)).collect();
    let mut t: [V3; 4] = std::array::from_fn(|_| coords(&mut c.rng, 6));
    let o = sgn(&orient3(&t[0], &t[1], &t[2], &t[3]));
    if o == 0 { return; }
    if o > 0 { t.swap(0, 1); }
    let f = [[0usize, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]];
    // which way round is outward does not matter to the reference
    let mut probes: Vec<V3> = p3.clone();
    for _ in 0..6 {
        let w: [i64; 4] = std::array::from_fn(|_| c.rng.int(0, 4));
        let s: i64 = w.iter().sum();
        if s == 0 { continue; }
        let mut q = V3::zero();
        for k in 0..4 { q = &q + &t[k].scale(&R::from((w[k], s))); }
        probes.push(q);
    }
    let l2: Vec<Point2<LazyExact>> = p2.iter().map(|p| Point2::from_vals(std::array::from_fn(|i| cold(&mut c.rng, &p.0[i])))).collect();
    let l3: Vec<Point3<LazyExact>> = probes.iter().map(|p| Point3::from_vals(std::array::from_fn(|i| cold(&mut c.rng, &p.0[i])))).collect();
    let mut m: Mesh<LazyExact, 3> = Mesh::new();
    for p in &t {
        let q = Point3::from_vals(std::array::from_fn(|i| cold(&mut c.rng, &p.0[i])));
        m.add_vertex(q);
    }
    for x in &f { m.add_triangle(x[0], x[1], x[2]); }
    let tree = m.build_face_tree();
    let where_ = |p: &V3| -> i32 {
        let mut on = false;
        for x in &f {
            let k = 6 - x[0] - x[1] - x[2];
            let a = sgn(&orient3(&t[x[0]], &t[x[1]], &t[x[2]], &t[k]));
            let b = sgn(&orient3(&t[x[0]], &t[x[1]], &t[x[2]], p));
            if b == 0 { on = true; } else if a != b { return -1; }
        }
        if on { 0 } else { 1 }
    };
    let wants: Vec<i32> = probes.iter().map(|p| where_(p)).collect();
    let txt = format!("points {} | {} | tetrahedron {}", p2.iter().map(|p| p.s()).collect::<Vec<_>>().join(" "), probes.iter().map(|p| p.s()).collect::<Vec<_>>().join(" "), t.iter().map(|p| p.s()).collect::<Vec<_>>().join(" "));
    let results = run(c, 25, |r| match r.below(5) {
        0 => {
            let (i, j, k) = (r.below(6), r.below(6), r.below(6));
            let g = sgn(&kernel::orient(&[l2[i].clone(), l2[j].clone(), l2[k].clone()]).r());
            if g == sgn(&orient2(&p2[i], &p2[j], &p2[k])) { None } else { Some(format!("orientation of {} {} {}: {}", i, j, k, g)) }
        }
        1 => {
            let (i, j, k, l) = (r.below(6), r.below(6), r.below(6), r.below(6));
            if sgn(&orient2(&p2[i], &p2[j], &p2[k])) <= 0 { return None; }
            let g = sgn(&predicates::incircle(&l2[i], &l2[j], &l2[k], &l2[l]).r());
            if g == sgn(&incircle(&p2[i], &p2[j], &p2[k], &p2[l])) { None } else { Some(format!("in-circle of {} {} {} {}: {}", i, j, k, l, g)) }
        }
        2 => {
            let (i, j, k, l) = (r.below(6), r.below(6), r.below(6), r.below(6));
            let g = sgn(&kernel::orient(&[l3[i].clone(), l3[j].clone(), l3[k].clone(), l3[l].clone()]).r());
            if g == sgn(&orient3(&probes[i], &probes[j], &probes[k], &probes[l])) { None } else { Some(format!("orientation of {} {} {} {}: {}", i, j, k, l, g)) }
        }
        3 => {
            let (i, j) = (r.below(l3.len()), r.below(l3.len()));
            let g = l3[i] == l3[j];
            if g == (probes[i] == probes[j]) { None } else { Some(format!("points {} {} equal: {}", i, j, g)) }
        }
        _ => {
            let i = r.below(l3.len());
            let g = match m.point_in_mesh_3(&tree, &l3[i]) { PointInMeshResult::Outside => -1, PointInMeshResult::OnSurface => 0, PointInMeshResult::Inside => 1 };
            if g == wants[i] { None } else { Some(format!("place of point {}: {} want {}", i, g, wants[i])) }
        }
    });
    gather(c, results, "geometry_observations", &txt);
    c.ev("meshes");
    c.nontrivial(hash_str(&txt));
    c.sample("mesh", || txt.clone());
}
/// Threads own handles into one graph and give them up at different times;
/// whoever comes last takes the graph apart while others still evaluate.
pub fn p04_release(c: &mut Case) {
    let n = 3 + c.rng.below(200);
    let mut x = LazyExact::of(&R::from((c.rng.int(-9, 9), 7)));
    let mut q = R::from(x.r());
    let q0 = q.clone();
    let mut all: Vec<(LazyExact, R)> = vec![];
    for _ in 0..n {
        let k = R::from((c.rng.int(-9, 9), c.rng.int(1, 3)));
        let y = LazyExact::of(&k);
        if c.rng.bool() { x = &x + &y; q += &k; } else { x = &x - &y; q -= &k; }
        if c.rng.chance(1, 4) { all.push((x.clone(), q.clone())); }
    }
    all.push((x, q));
    let nth = 2 + c.rng.below(4);
    let barrier = std::sync::Barrier::new(nth);
    let txt = format!("chain of {} from {} with {} handles, {} threads", n, q0, all.len(), nth);
    let mut shares: Vec<Vec<(LazyExact, R)>> = (0..nth).map(|_| all.clone()).collect();
    for s in shares.iter_mut() { c.rng.shuffle(s); let k = 1 + c.rng.below(s.len()); s.truncate(k); }
    let last = all.last().cloned().unwrap();
    drop(all);
    let results: Vec<(u64, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = shares
            .into_iter()
            .map(|share| {
                let (barrier, sd) = (&barrier, c.rng.next());
                s.spawn(move || {
                    let mut r = Rng::new(sd);
                    let (mut bad, mut n) = (vec![], 0u64);
                    barrier.wait();
                    for (x, q) in share {
                        n += 1;
                        let ok = match r.below(4) {
                            0 => true,
                            1 => x.r() == q,
                            2 => x.sign() as i32 == sgn(&q),
                            _ => { let d = &x - &LazyExact::of(&q); d.sign() as i32 == 0 }
                        };
                        if !ok { bad.push(format!("value {}", q)); }
                        drop(x);
                    }
                    (n, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((0, vec!["thread panicked".into()]))).collect()
    });
    gather(c, results, "released", &txt);
    c.check(last.0.r() == last.1, "left-over-handle", || txt.clone());
    c.ev("chains");
    c.nontrivial(hash_str(&format!("{} {}", txt, last.1)));
    c.sample("chain", || txt.clone());
}
