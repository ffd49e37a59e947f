//! P05 linear algebra, P06 orientation and in-circle, P07 point location, P08 segment intersection.
use crate::core::*;
use crate::g;
use crate::r#gen::*;
use crate::oracle::*;
use cgar::geometry::canonical_edge::CanonicalEdge;
use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::plane::{Plane, PlaneOps};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::tri_tri_intersect::{convex_hull_2d_indices, segment_intersect_2d};
use cgar::geometry::util::barycentric_coords;
use cgar::geometry::vector::{Cross2, Cross3, Vector, VectorOps, vector_cross};
use cgar::geometry::{SegmentIntersection2, SegmentIntersection3, segment_segment_intersection_2, segment_segment_intersection_3};
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::predicates::{self, TrianglePoint};
use cgar::kernel::{self, Kernel2, Kernel3};
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};
use cgar::operations::Zero;
use std::hash::{Hash, Hasher};

pub fn pt<T: Sc, const N: usize>(v: &V<N>) -> Point<T, N> {
    Point { coords: std::array::from_fn(|i| T::of(&v.0[i])) }
}
pub fn rp<T: Sc, const N: usize>(p: &Point<T, N>) -> V<N> {
    V(std::array::from_fn(|i| p.coords[i].r()))
}
fn ve<T: Sc, const N: usize>(v: &V<N>) -> Vector<T, N> {
    Vector::from(pt::<T, N>(v))
}
fn rv<T: Sc, const N: usize>(p: &Vector<T, N>) -> V<N> {
    rp(&p.0)
}
/// equal, or for doubles equal to rounding
pub fn same<T: Sc>(t: &T, r: &R) -> bool {
    let x = t.r();
    if T::EXACT {
        return x == *r;
    }
    let (a, b) = (x.to_f64(), r.to_f64());
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn same_v<const N: usize>(exact: bool, x: &V<N>, y: &V<N>) -> bool {
    if exact {
        return x == y;
    }
    (0..N).all(|i| {
        let (a, b) = (x.0[i].to_f64(), y.0[i].to_f64());
        (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
    })
}
/// a number style the scalar represents without rounding (and, for doubles, computes with exactly)
pub fn style<T: Sc>(r: &mut Rng) -> Style {
    if T::EXACT { *r.pick(STYLES) } else { *r.pick(&[Style::Tiny, Style::Int]) }
}
fn hash_vs<const N: usize>(vs: &[&V<N>]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for v in vs {
        v.hash(&mut h);
    }
    h.finish()
}
fn h_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// functions generic over scalar and dimension
macro_rules! gn {
    ($(fn $n:ident<T, N>($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {$(
        fn $n<T: Sc, const N: usize>($($a: $t),*) $(-> $r)?
        where
            Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
            Vector<T, N>: VectorOps<T, N>,
            for<'a> &'a T: std::ops::Add<&'a T, Output = T>
                + std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    )*};
}
macro_rules! by_scalar {
    ($c:expr, $f:ident) => {
        match $c.rng.below(5) {
            0 | 1 => $f::<LazyExact>($c),
            2 | 3 => $f::<CgarRational>($c),
            _ => $f::<CgarF64>($c),
        }
    };
    ($c:expr, $f:ident, $n:literal) => {
        match $c.rng.below(5) {
            0 | 1 => $f::<LazyExact, $n>($c),
            2 | 3 => $f::<CgarRational, $n>($c),
            _ => $f::<CgarF64, $n>($c),
        }
    };
}

// ------------------------------------------------------------------ P05
gn! {
    fn points_vectors<T, N>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let a: V<N> = vec_n(&mut c.rng, s);
        let b: V<N> = vec_n(&mut c.rng, s);
        let k = num(&mut c.rng, s);
        let (pa, pb) = (pt::<T, N>(&a), pt::<T, N>(&b));
        let (va, vb) = (ve::<T, N>(&a), ve::<T, N>(&b));
        let ctx = || format!("{} a={} b={} k={}", T::NAME, a.s(), b.s(), k);
        let ex = T::EXACT;
        c.check(same_v(ex, &rp(&(&pa + &pb)), &(&a + &b)), "point-add", ctx);
        c.check(same_v(ex, &rp(&(pa.clone() + pb.clone())), &(&a + &b)), "point-add-owned", ctx);
        c.check(same_v(ex, &rp(&(&pa - &pb)), &(&a - &b)), "point-sub", ctx);
        c.check(same_v(ex, &rp(&(pa.clone() - pb.clone())), &(&a - &b)), "point-sub-owned", ctx);
        c.check(same_v(ex, &rp(&PointOps::sub(&pa, &pb)), &(&a - &b)), "point-ops-sub", ctx);
        c.check(same_v(ex, &rv(&pa.as_vector()), &a), "as-vector", ctx);
        c.check(same_v(ex, &rp(&pa.add_vector(&vb)), &(&a + &b)), "add-vector", ctx);
        c.check(same_v(ex, &rv(&pa.vector_to(&pb)), &(&b - &a)), "vector-to", ctx);
        let half = R::from((1, 2));
        c.check(same_v(ex, &rp(&pa.midpoint(&pb)), &a.lerp(&b, &half)), "midpoint", ctx);
        c.check(same_v(ex, &rv(&(&va + &vb)), &(&a + &b)), "vector-add", ctx);
        c.check(same_v(ex, &rv(&(va.clone() + vb.clone())), &(&a + &b)), "vector-add-owned", ctx);
        c.check(same_v(ex, &rv(&(&va - &vb)), &(&a - &b)), "vector-sub", ctx);
        c.check(same_v(ex, &rv(&(va.clone() - vb.clone())), &(&a - &b)), "vector-sub-owned", ctx);
        c.check(same_v(ex, &rv(&(-va.clone())), &-&a), "vector-neg", ctx);
        c.check(same(&va.dot(&vb), &a.dot(&b)), "dot", ctx);
        c.check(same(&va.norm2(), &a.n2()), "norm2", ctx);
        let tk = T::of(&k);
        c.check(same_v(ex, &rv(&va.scale(&tk)), &a.scale(&k)), "scale", ctx);
        let mut y = va.clone();
        y.axpy(&tk, &vb);
        c.check(same_v(ex, &rv(&y), &(&a + &b.scale(&k))), "axpy", ctx);
        c.check((a == b) == (pa == pb), "point-eq", ctx);
        c.check((a == b) == (va == vb), "vector-eq", ctx);
        if a.is_zero() || ex {
            c.check(Zero::is_zero(&va) == a.is_zero(), "vector-is-zero", ctx);
        }
        let z: Vector<T, N> = Zero::zero();
        c.check(rv(&z).is_zero(), "vector-zero", ctx);
        // containers of the same coordinates
        let arr: [T; N] = pa.clone().into();
        let varr: [T; N] = va.clone().into();
        c.check(V(arr.map(|t| t.r())) == a && V(varr.map(|t| t.r())) == a, "into-array", ctx);
        let back = Point::<T, N>::from(va.clone());
        let forth = Vector::<T, N>::from(pa.clone());
        let from = (Point::<T, N>::from(a.0.clone().map(|r| T::of(&r))), Vector::<T, N>::from(a.0.clone().map(|r| T::of(&r))));
        c.check(back == pa && forth == va && from.0 == pa && from.1 == va && Point::<T, N>::new(pa.coords.clone()) == pa && Vector::<T, N>::new(pa.coords.clone()) == va, "from-array", ctx);
        c.check(pa.iter().zip(va.iter()).zip(pa.coords().iter().zip(va.coords())).enumerate().all(|(i, ((p, q), (u, w)))| [p, q, u, w].iter().all(|t| t.r() == a.0[i])) && pa.iter().count() == N && va.iter().count() == N, "iter", ctx);
        let (mut ma, mut mv) = (pa.clone(), va.clone());
        let i = c.rng.below(N);
        ma.coords_mut()[i] = T::of(&b.0[i]);
        mv.coords_mut()[i] = T::of(&b.0[i]);
        let mut w = a.clone();
        w.0[i] = b.0[i].clone();
        c.check(rp(&ma) == w && rv(&mv) == w, "coords-mut", ctx);
        let (mut ma, mut mv) = (pa.clone(), va.clone());
        ma[i] = T::of(&b.0[i]);
        mv[i] = T::of(&b.0[i]);
        c.check(rp(&ma) == w && rv(&mv) == w, "index-mut", ctx);
        c.check(rp(&Point::<T, N>::default()).is_zero() && rv(&Vector::<T, N>::default()).is_zero() && rp(&<Point<T, N> as Zero>::zero()).is_zero(), "default", ctx);
        c.check(rp(&pa.cast::<T>()) == a && rv(&va.cast::<T>()) == a, "cast", ctx);
        // signs where they are clear cut: all coordinates on one side
        if ex && c.rng.chance(1, 4) {
            let k = *c.rng.pick(&[-1i64, 0, 1]);
            let w = V::<N>(a.0.clone().map(|r| (r.abs() + R::from((1, 7))) * k));
            let (p, v) = (pt::<T, N>(&w), ve::<T, N>(&w));
            let want = (k == 0, k > 0, k < 0, k >= 0, k <= 0);
            let f = (Zero::is_zero(&p), p.is_positive(), p.is_negative(), p.is_positive_or_zero(), p.is_negative_or_zero());
            let g = (Zero::is_zero(&v), v.is_positive(), v.is_negative(), v.is_positive_or_zero(), v.is_negative_or_zero());
            c.check(f == want && g == want, "uniform-signs", || format!("{} {} {:?} {:?}", T::NAME, w.s(), f, g));
        }
        if ex {
            // lexicographic order
            let mut w = b.clone();
            for k in 0..c.rng.below(N + 1) { w.0[k] = a.0[k].clone(); }
            let o = Some(a.0.cmp(&w.0));
            c.check(pa.partial_cmp(&pt(&w)) == o && va.partial_cmp(&ve(&w)) == o, "lexicographic-order", || format!("{} {} {}", T::NAME, a.s(), w.s()));
        }
        c.evn("vector_identities", 30);
        c.nontrivial(hash_vs(&[&a, &b]));
        c.sample("pair", ctx);
    }
    fn seg_ops<T, N>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let a: V<N> = vec_n(&mut c.rng, s);
        let b: V<N> = vec_n(&mut c.rng, s);
        let p: V<N> = vec_n(&mut c.rng, s);
        let sg = Segment::new(&pt::<T, N>(&a), &pt::<T, N>(&b));
        let ctx = || format!("{} a={} b={} p={}", T::NAME, a.s(), b.s(), p.s());
        let ex = T::EXACT;
        c.check(same(&sg.length2(), &(&b - &a).n2()), "length2", ctx);
        c.check(same_v(ex, &rp(&sg.midpoint()), &a.lerp(&b, &R::from((1, 2)))), "segment-midpoint", ctx);
        c.check(same_v(ex, &rv(&sg.direction()), &(&b - &a)), "direction", ctx);
        let i = sg.inverse();
        c.check(rp(i.a()) == b && rp(i.b()) == a, "inverse", ctx);
        let mut j = sg.clone();
        j.invert();
        c.check(j == i, "invert", ctx);
        j[0] = pt(&p);
        c.check(rp(&j[0]) == p && rp(&j[1]) == a && rp(&sg[0]) == a && rp(&sg[1]) == b, "segment-index", ctx);
        j[1] = pt(&b);
        c.check(rp(j.a()) == p && rp(j.b()) == b, "segment-index-mut", ctx);
        if a != b {
            c.check(same(&sg.parameter_of_point(&pt(&p)), &param(&p, &a, &b)), "parameter-of-point", ctx);
        }
        c.ev("segment_measures");
    }
}
fn p05_vectors(c: &mut Case) {
    match c.rng.below(3) {
        0 => by_scalar!(c, points_vectors, 2),
        1 => by_scalar!(c, points_vectors, 3),
        _ => {
            by_scalar!(c, seg_ops, 2);
            by_scalar!(c, seg_ops, 3);
        }
    }
    by_scalar!(c, crosses);
    by_scalar!(c, vec4);
}
g! {
    fn crosses<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let (a, b): (V2, V2) = (vec_n(&mut c.rng, s), vec_n(&mut c.rng, s));
        c.check(same(&ve::<T, 2>(&a).cross(&ve(&b)), &cross2(&a, &b)), "cross2", || format!("{} {} {}", T::NAME, a.s(), b.s()));
        let (a, mut b): (V3, V3) = (vec_n(&mut c.rng, s), vec_n(&mut c.rng, s));
        if c.rng.chance(1, 6) {
            b = a.scale(&num(&mut c.rng, Style::Tiny)); // parallel
        }
        let ctx = || format!("{} {} {}", T::NAME, a.s(), b.s());
        let w = cross3(&a, &b);
        let (ta, tb) = (ve::<T, 3>(&a), ve::<T, 3>(&b));
        c.check(same_v(T::EXACT, &rv(&Cross3::cross(&ta, &tb)), &w), "cross3", ctx);
        c.check(same_v(T::EXACT, &rv(&vector_cross(&ta, &tb)), &w), "vector-cross", ctx);
        c.check(same_v(T::EXACT, &rv(&ta.lerp(&tb, &T::of(&R::from((3, 4))))), &a.lerp(&b, &R::from((3, 4)))), "lerp3", ctx);
        if !a.is_zero() {
            let p = rv(&ta.any_perpendicular());
            c.check(!p.is_zero() && sgn(&p.dot(&a)) == 0, "perpendicular3", ctx);
            c.ev("perpendiculars");
        }
        c.ev("crosses");
    }
    fn vec4<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let (a, b): (V<4>, V<4>) = (vec_n(&mut c.rng, s), vec_n(&mut c.rng, s));
        let k = num(&mut c.rng, s);
        let ctx = || format!("{} {} {} k={}", T::NAME, a.s(), b.s(), k);
        let (ta, tb, tk) = (ve::<T, 4>(&a), ve::<T, 4>(&b), T::of(&k));
        c.check(same(&ta.dot(&tb), &a.dot(&b)), "dot4", ctx);
        c.check(same(&ta.norm2(), &a.n2()), "norm4", ctx);
        c.check(same_v(T::EXACT, &rv(&ta.scale(&tk)), &a.scale(&k)), "scale4", ctx);
        c.check(same_v(T::EXACT, &rv(&ta.lerp(&tb, &tk)), &a.lerp(&b, &k)), "lerp4", ctx);
        let mut y = ta.clone();
        y.axpy(&tk, &tb);
        c.check(same_v(T::EXACT, &rv(&y), &(&a + &b.scale(&k))), "axpy4", ctx);
        if !a.is_zero() && T::EXACT {
            let p = rv(&ta.any_perpendicular());
            c.check(!p.is_zero() && sgn(&p.dot(&a)) == 0, "perpendicular4", ctx);
        }
    }
    fn matrices<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        mat_det::<T, 2>(c, s);
        mat_det::<T, 3>(c, s);
        mat_det::<T, 4>(c, s);
        mat_det::<T, 1>(c, s);
        if c.rng.chance(1, 8) {
            mat_det::<T, 5>(c, s);
        }
        mat_ops::<T, 2, 3, 2>(c, s);
        mat_ops::<T, 3, 3, 3>(c, s);
        mat_ops::<T, 1, 4, 3>(c, s);
        mat_inv2::<T>(c, s);
        mat_inv3::<T>(c, s);
    }
    fn mat_inv2<T>(c: &mut Case, s: Style) {
        let m = mat_n::<2, 2>(&mut c.rng, s, true);
        let d = det(&rows(&m));
        let t: Matrix<T, 2, 2> = mat_t(&m);
        match t.inverse() {
            None => { c.check(sgn(&d) == 0, "inverse2-refused", || format!("{} {:?}", T::NAME, m)); }
            Some(i) => {
                let p = mat_mul(&m, &mat_r(&i));
                c.check(sgn(&d) != 0 && is_identity(T::EXACT, &p), "inverse2", || format!("{} {:?} -> {:?}", T::NAME, m, p));
                c.ev("inverses");
            }
        }
    }
    fn mat_inv3<T>(c: &mut Case, s: Style) {
        let m = mat_n::<3, 3>(&mut c.rng, s, true);
        let d = det(&rows(&m));
        let t: Matrix<T, 3, 3> = mat_t(&m);
        match t.inverse() {
            None => { c.check(sgn(&d) == 0, "inverse3-refused", || format!("{} {:?}", T::NAME, m)); }
            Some(i) => {
                let p = mat_mul(&m, &mat_r(&i));
                c.check(sgn(&d) != 0 && is_identity(T::EXACT, &p), "inverse3", || format!("{} {:?} -> {:?}", T::NAME, m, p));
                c.ev("inverses");
            }
        }
    }
    fn planes<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let mut t: [V3; 3] = std::array::from_fn(|_| vec_n(&mut c.rng, s));
        let first = t[0].clone();
        for x in &mut t[1..] {
            align(&mut c.rng, &first, x);
        }
        if c.rng.chance(1, 3) {
            // axis-parallel planes
            let k = c.rng.below(3);
            let v = num(&mut c.rng, s);
            for p in &mut t {
                p.0[k] = v.clone();
            }
        }
        let n = normal(&t);
        if !n.is_zero() {
            let ctx = || format!("{} {} {} {}", T::NAME, t[0].s(), t[1].s(), t[2].s());
            let p: [Point<T, 3>; 3] = std::array::from_fn(|i| pt(&t[i]));
            let pl = Plane::<T, 3>::from_points([&p[0], &p[1], &p[2]]);
            let pn = rv(&pl.normal);
            let pd = pl.d.r();
            let side = |x: &V3| R::from(&pn.dot(x) + &pd);
            // contains its points, normal positively proportional to (b-a)x(c-a)
            c.check(t.iter().all(|x| sgn(&side(x)) == 0), "plane-contains", ctx);
            c.check(cross3(&pn, &n).is_zero() && sgn(&pn.dot(&n)) > 0, "plane-normal", ctx);
            let o = rp(&pl.origin());
            c.check(if T::EXACT { sgn(&side(&o)) == 0 } else { side(&o).to_f64().abs() < 1e-6 * (1.0 + pd.to_f64().abs()) }, "plane-origin", ctx);
            let (u, v) = pl.basis();
            let (u, v) = (rv(&u), rv(&v));
            c.check(
                sgn(&u.dot(&pn)) == 0 && sgn(&v.dot(&pn)) == 0 && !cross3(&u, &v).is_zero() && sgn(&u.dot(&v)) == 0,
                "plane-basis",
                ctx,
            );
            // canonical form: the same plane, and one form per plane
            if T::EXACT {
                let cf = pl.canonicalized();
                let (cn, cd) = (rv(&cf.normal), cf.d.r());
                let lead = cn.0.iter().find(|x| sgn(x) != 0).cloned().unwrap_or_default();
                c.check(lead == 1, "canonical-lead", ctx);
                c.check(t.iter().all(|x| sgn(&R::from(&cn.dot(x) + &cd)) == 0), "canonical-plane", ctx);
                let mut perm = [0usize, 1, 2];
                c.rng.shuffle(&mut perm);
                let w = num(&mut c.rng, Style::Tiny);
                let q: [V3; 3] = [t[perm[0]].clone(), &t[perm[1]] + &(&t[perm[1]] - &t[perm[0]]).scale(&w), t[perm[2]].clone()];
                if !normal(&q).is_zero() {
                    let qq: [Point<T, 3>; 3] = std::array::from_fn(|i| pt(&q[i]));
                    let c2 = Plane::<T, 3>::from_points([&qq[0], &qq[1], &qq[2]]).canonicalized();
                    c.check(cf == c2, "canonical-equal", ctx);
                    c.check(h_of(&cf) == h_of(&c2), "canonical-hash", ctx);
                    c.ev("canonical_pairs");
                }
                // parallel planes and planes with another normal are other planes
                let w = num(&mut c.rng, s);
                let p2 = Plane::<T, 3>::new(pl.normal.clone(), T::of(&w));
                let flip = Plane::<T, 3>::new(ve(&pn.scale(&R::from(-1))), pl.d.clone());
                c.check((pl == p2) == (pd == w) && (p2 == pl) == (pd == w), "plane-equal", || format!("{} d {} and {}", ctx(), pd, w));
                c.check(pl == pl.clone() && pl != flip, "plane-equal", ctx);
                c.check(pl.partial_cmp(&p2) == Some(pd.cmp(&w)) && p2.partial_cmp(&pl) == Some(w.cmp(&pd)), "plane-order", || format!("{} d {} and {}", ctx(), pd, w));
                c.check(pl.partial_cmp(&flip).map(|o| o.reverse()) == flip.partial_cmp(&pl) && pl.partial_cmp(&flip) != Some(std::cmp::Ordering::Equal), "plane-order", ctx);
                c.ev("plane_pairs");
            }
            c.ev("planes");
            c.nontrivial(hash_vs(&[&t[0], &t[1], &t[2]]));
            c.sample("plane", ctx);
        }
        // lines in the plane
        let (a, b): (V2, V2) = (vec_n(&mut c.rng, s), vec_n(&mut c.rng, s));
        if a != b {
            let ctx = || format!("{} {} {}", T::NAME, a.s(), b.s());
            let l = Plane::<T, 2>::from_points([&pt(&a), &pt(&b)]);
            let (n, d) = (rv(&l.normal), l.d.r());
            let side = |x: &V2| R::from(&n.dot(x) + &d);
            c.check(sgn(&side(&a)) == 0 && sgn(&side(&b)) == 0 && !n.is_zero(), "line-contains", ctx);
            // left of a->b is positive
            let x: V2 = vec_n(&mut c.rng, s);
            c.check(sgn(&side(&x)) == sgn(&orient2(&a, &b, &x)), "line-side", ctx);
            let o = rp(&l.origin());
            c.check(if T::EXACT { sgn(&side(&o)) == 0 } else { side(&o).to_f64().abs() < 1e-6 * (1.0 + d.to_f64().abs()) }, "line-origin", ctx);
            c.check(sgn(&rv(&l.basis().0).dot(&n)) == 0 && !rv(&l.basis().0).is_zero(), "line-basis", ctx);
            if T::EXACT {
                let cf = l.canonicalized();
                let (cn, cd) = (rv(&cf.normal), cf.d.r());
                let lead = cn.0.iter().find(|x| sgn(x) != 0).cloned().unwrap_or_default();
                c.check(lead == 1, "canonical-line-lead", ctx);
                c.check([&a, &b].iter().all(|x| sgn(&R::from(&cn.dot(x) + &cd)) == 0), "canonical-line", ctx);
                let w = num(&mut c.rng, Style::Tiny);
                let e = a.lerp(&b, &w);
                if e != a {
                    let c2 = Plane::<T, 2>::from_points([&pt(&e), &pt(&a)]).canonicalized();
                    c.check(cf == c2 && h_of(&cf) == h_of(&c2), "canonical-line-equal", || format!("{} and {}", ctx(), e.s()));
                    c.ev("canonical_line_pairs");
                }
            }
            c.ev("lines");
        }
    }
}
fn mat_n<const A: usize, const B: usize>(r: &mut Rng, s: Style, maybe_singular: bool) -> [[R; B]; A] {
    let mut m: [[R; B]; A] = std::array::from_fn(|_| std::array::from_fn(|_| num(r, s)));
    if maybe_singular && A > 1 && r.chance(1, 4) {
        let k = num(r, Style::Tiny);
        let (i, j) = (r.below(A), r.below(A));
        if i != j {
            m[i] = std::array::from_fn(|x| R::from(&m[j][x] * &k));
        }
    }
    if r.chance(1, 3) {
        // zeros on the leading entries (pivots)
        m[0][0] = R::new();
    }
    m
}
fn mat_t<T: Sc, const A: usize, const B: usize>(m: &[[R; B]; A]) -> Matrix<T, A, B> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::of(&m[i][j]))))
}
fn mat_r<T: Sc, const A: usize, const B: usize>(m: &Matrix<T, A, B>) -> [[R; B]; A] {
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j].r()))
}
fn rows<const A: usize, const B: usize>(m: &[[R; B]; A]) -> Vec<Vec<R>> {
    m.iter().map(|r| r.to_vec()).collect()
}
fn mat_mul<const A: usize, const B: usize, const C: usize>(x: &[[R; B]; A], y: &[[R; C]; B]) -> [[R; C]; A] {
    std::array::from_fn(|i| {
        std::array::from_fn(|j| {
            let mut s = R::new();
            for k in 0..B {
                s += R::from(&x[i][k] * &y[k][j]);
            }
            s
        })
    })
}
fn near_m<const A: usize, const B: usize>(exact: bool, x: &[[R; B]; A], y: &[[R; B]; A]) -> bool {
    (0..A).all(|i| (0..B).all(|j| if exact { x[i][j] == y[i][j] } else { close(&x[i][j], &y[i][j], 1e-6 * (1.0 + y[i][j].to_f64().abs())) }))
}
fn is_identity<const A: usize>(exact: bool, x: &[[R; A]; A]) -> bool {
    let id: [[R; A]; A] = std::array::from_fn(|i| std::array::from_fn(|j| ri((i == j) as i64)));
    near_m(exact, x, &id)
}
fn mat_det<T: Sc, const A: usize>(c: &mut Case, s: Style)
where
    for<'a> &'a T: std::ops::Add<&'a T, Output = T>
        + std::ops::Sub<&'a T, Output = T>
        + std::ops::Mul<&'a T, Output = T>
        + std::ops::Div<&'a T, Output = T>
        + std::ops::Neg<Output = T>,
{
    let m = mat_n::<A, A>(&mut c.rng, s, true);
    let t: Matrix<T, A, A> = mat_t(&m);
    let d = det(&rows(&m));
    c.check(same(&t.det(), &d), "det", || format!("{} {:?}: {} expected {}", T::NAME, m, t.det().r(), d));
    c.check(is_identity(true, &mat_r(&Matrix::<T, A, A>::identity())), "identity", || format!("{}", A));
    c.ev("determinants");
    c.nontrivial(h_of(&m));
}
fn mat_ops<T: Sc, const A: usize, const B: usize, const C: usize>(c: &mut Case, s: Style)
where
    for<'a> &'a T: std::ops::Add<&'a T, Output = T>
        + std::ops::Sub<&'a T, Output = T>
        + std::ops::Mul<&'a T, Output = T>
        + std::ops::Div<&'a T, Output = T>
        + std::ops::Neg<Output = T>,
{
    let ex = T::EXACT;
    let x = mat_n::<A, B>(&mut c.rng, s, false);
    let y = mat_n::<A, B>(&mut c.rng, s, false);
    let z = mat_n::<B, C>(&mut c.rng, s, false);
    let k = num(&mut c.rng, s);
    let v: V<B> = vec_n(&mut c.rng, s);
    let u: V<A> = vec_n(&mut c.rng, s);
    let ctx = || format!("{} {:?} {:?} {:?} k={} v={}", T::NAME, x, y, z, k, v.s());
    let (tx, ty, tz): (Matrix<T, A, B>, Matrix<T, A, B>, Matrix<T, B, C>) = (mat_t(&x), mat_t(&y), mat_t(&z));
    let ew = |f: &dyn Fn(&R, &R) -> R| -> [[R; B]; A] { std::array::from_fn(|i| std::array::from_fn(|j| f(&x[i][j], &y[i][j]))) };
    c.check(near_m(ex, &mat_r(&(&tx + &ty)), &ew(&|p, q| R::from(p + q))), "matrix-add", ctx);
    c.check(near_m(ex, &mat_r(&(tx.clone() + ty.clone())), &ew(&|p, q| R::from(p + q))), "matrix-add-owned", ctx);
    c.check(near_m(ex, &mat_r(&(&tx - &ty)), &ew(&|p, q| R::from(p - q))), "matrix-sub", ctx);
    c.check(near_m(ex, &mat_r(&(tx.clone() - ty.clone())), &ew(&|p, q| R::from(p - q))), "matrix-sub-owned", ctx);
    c.check(near_m(ex, &mat_r(&(-tx.clone())), &ew(&|p, _| R::from(-p))), "matrix-neg", ctx);
    c.check(near_m(ex, &mat_r(&tx.scale(&T::of(&k))), &ew(&|p, _| R::from(p * &k))), "matrix-scale", ctx);
    let h = R::from((1, 4));
    c.check(near_m(ex, &mat_r(&tx.lerp(&ty, &T::of(&h))), &ew(&|p, q| R::from(p + &(R::from(q - p) * &h)))), "matrix-lerp", ctx);
    c.check(near_m(ex, &mat_r(&(&tx * &tz)), &mat_mul(&x, &z)), "matrix-mul", ctx);
    c.check(near_m(ex, &mat_r(&(tx.clone() * tz.clone())), &mat_mul(&x, &z)), "matrix-mul-owned", ctx);
    let tr: [[R; A]; B] = std::array::from_fn(|i| std::array::from_fn(|j| x[j][i].clone()));
    c.check(near_m(true, &mat_r(&tx.transpose()), &tr), "transpose", ctx);
    let mv = V::<A>(std::array::from_fn(|i| V::<B>(x[i].clone()).dot(&v)));
    c.check(same_v(ex, &rv(&(&tx * &ve::<T, B>(&v))), &mv), "matrix-vector", ctx);
    c.check(same_v(ex, &rv(&(tx.clone() * ve::<T, B>(&v))), &mv), "matrix-vector-owned", ctx);
    for i in 0..A {
        c.check(rv(&tx.row(i)).0 == x[i], "matrix-row", ctx);
    }
    for j in 0..B {
        c.check(rv(&tx.col(j)).0 == tr[j], "matrix-col", ctx);
    }
    let fr: Matrix<T, A, B> = Matrix::from_rows(std::array::from_fn(|i| std::array::from_fn(|j| T::of(&x[i][j]))));
    let fc: Matrix<T, A, B> = Matrix::from_cols(std::array::from_fn(|j| std::array::from_fn(|i| T::of(&x[i][j]))));
    c.check(fr == tx && fc == tx && h_of(&fr) == h_of(&tx), "matrix-from", ctx);
    let o: [[R; B]; A] = std::array::from_fn(|i| std::array::from_fn(|j| R::from(&u.0[i] * &v.0[j])));
    c.check(near_m(ex, &mat_r(&Matrix::<T, A, B>::outer(&ve(&u), &ve(&v))), &o), "outer", ctx);
    c.check(mat_r(&Matrix::<T, A, B>::splat(T::of(&k))).iter().all(|r| r.iter().all(|e| *e == k)), "splat", ctx);
    c.check((x == y) == (tx == ty), "matrix-eq", ctx);
    let raw: [[T; B]; A] = tx.clone().into();
    c.check(Matrix::<T, A, B>::from(raw.clone()) == tx && Matrix::<T, A, B>::new(raw) == tx && tx.cast::<T>() == tx, "matrix-array", ctx);
    c.check(Zero::is_zero(&Matrix::<T, A, B>::default()) && Zero::is_zero(&<Matrix<T, A, B> as Zero>::zero()), "matrix-zero", ctx);
    if ex {
        let mut w = y.clone();
        for k in 0..c.rng.below(A * B + 1) { w[k / B][k % B] = x[k / B][k % B].clone(); }
        c.check(tx.partial_cmp(&mat_t(&w)) == Some(x.cmp(&w)), "matrix-order", || format!("{} {:?} {:?}", T::NAME, x, w));
        let k = *c.rng.pick(&[-1i64, 0, 1]);
        let u: [[R; B]; A] = std::array::from_fn(|i| std::array::from_fn(|j| (x[i][j].clone().abs() + R::from((1, 7))) * k));
        let m: Matrix<T, A, B> = mat_t(&u);
        let f = (Zero::is_zero(&m), m.is_positive(), m.is_negative(), m.is_positive_or_zero(), m.is_negative_or_zero());
        c.check(f == (k == 0, k > 0, k < 0, k >= 0, k <= 0), "matrix-signs", || format!("{} {:?} {:?}", T::NAME, u, f));
        if x.iter().flatten().any(|r| sgn(r) != 0) { c.check(!Zero::is_zero(&tx), "matrix-is-zero", ctx); }
    }
    c.evn("matrix_identities", 14);
}
fn p05_matrices(c: &mut Case) {
    by_scalar!(c, matrices);
}
fn p05_planes(c: &mut Case) {
    by_scalar!(c, planes);
}

// ------------------------------------------------------------------ P06
/// points in nearly degenerate position: on a line/plane/circle, then nudged by a tiny amount
fn nudge<const N: usize>(r: &mut Rng, p: &mut V<N>) -> bool {
    if r.chance(1, 2) {
        return false;
    }
    let k = r.below(N);
    let e = match r.below(4) {
        0 => R::from((1, 1_000_000_007i64)),
        1 => rf((2f64).powi(-(r.int(20, 200) as i32))),
        2 => R::from((1, 3)) * rf(1e-40),
        _ => rf(1e-9),
    };
    p.0[k] += if r.bool() { e } else { -e };
    true
}
/// factor for figures whose products and squares no double can hold
pub fn large(r: &mut Rng) -> R {
    let k = R::from(r.int(1, 1 << 31)) * R::from((2f64).powi(r.int(0, 60) as i32) as i64);
    if r.bool() { k } else { k / *r.pick(&[3i64, 7, 1_000_003]) }
}
g! {
    fn orient_any<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        // plane
        let big = if T::EXACT && c.rng.chance(1, 6) { Some(large(&mut c.rng)) } else { None };
        let mut a: V2 = vec_n(&mut c.rng, s);
        let mut b: V2 = vec_n(&mut c.rng, s);
        if c.rng.chance(1, 5) {
            b.0[0] = a.0[0].clone(); // same abscissa
        }
        if let Some(k) = &big {
            a = a.scale(k);
            b = b.scale(k);
            c.ev("large_figures");
        }
        let mut p: V2 = vec_n(&mut c.rng, s);
        let deg = big.is_some() || c.rng.chance(1, 2);
        if deg {
            let k = num(&mut c.rng, Style::Tiny);
            p = a.lerp(&b, &k);
            if T::EXACT && nudge(&mut c.rng, &mut p) {
                c.ev("nudged");
            }
        }
        let ctx = || format!("{} {} {} {}", T::NAME, a.s(), b.s(), p.s());
        let want = orient2(&a, &b, &p);
        let (ta, tb, tp) = (pt::<T, 2>(&a), pt::<T, 2>(&b), pt::<T, 2>(&p));
        let got = kernel::orient(&[ta.clone(), tb.clone(), tp.clone()]).r();
        c.check(sgn(&got) == sgn(&want), "orient-2d", || format!("{}: {} expected sign {}", ctx(), got, sgn(&want)));
        let got = predicates::orient2d(&ta, &tb, &tp).r();
        c.check(sgn(&got) == sgn(&want), "orient2d", || format!("{}: {} expected sign {}", ctx(), got, sgn(&want)));
        c.ev(["orientation_cw", "orientation_zero", "orientation_ccw"][(sgn(&want) + 1) as usize]);
        c.nontrivial(hash_vs(&[&a, &b, &p]));
        c.sample("orient", ctx);
        // space
        let mut q: [V3; 4] = std::array::from_fn(|_| vec_n(&mut c.rng, s));
        let first = q[0].clone();
        for x in &mut q[1..] {
            align(&mut c.rng, &first, x);
        }
        if c.rng.chance(1, 4) {
            q[1].0[0] = q[0].0[0].clone();
        }
        if let Some(k) = &big {
            q = q.map(|x| x.scale(k));
        }
        if big.is_some() || c.rng.chance(1, 3) {
            let (x, y) = (num(&mut c.rng, Style::Tiny), num(&mut c.rng, Style::Tiny));
            q[3] = &(&q[0] + &(&q[1] - &q[0]).scale(&x)) + &(&q[2] - &q[0]).scale(&y);
            if T::EXACT && nudge(&mut c.rng, &mut q[3]) {
                c.ev("nudged");
            }
        }
        let want = orient3(&q[0], &q[1], &q[2], &q[3]);
        let tq: Vec<Point<T, 3>> = q.iter().map(pt).collect();
        let got = kernel::orient(&tq).r();
        c.check(sgn(&got) == sgn(&want), "orient-3d", || {
            format!("{} {} {} {} {}: {} expected sign {}", T::NAME, q[0].s(), q[1].s(), q[2].s(), q[3].s(), got, sgn(&want))
        });
        c.ev(["volume_negative", "volume_zero", "volume_positive"][(sgn(&want) + 1) as usize]);
    }
    fn incircle_any<T>(c: &mut Case) {
        let mut q: [V2; 4];
        let kind = c.rng.below(4);
        match kind {
            0 => {
                let s = style::<T>(&mut c.rng);
                q = std::array::from_fn(|_| vec_n(&mut c.rng, s));
            }
            1 => {
                // cocircular integer points: x^2+y^2 = 65, 85, 325, shifted
                let (r1, o) = (*c.rng.pick(&[65i64, 85, 325, 1105]), V2::i([c.rng.int(-50, 50), c.rng.int(-50, 50)]));
                let mut ps = vec![];
                for x in -40i64..=40 {
                    for y in -40i64..=40 {
                        if x * x + y * y == r1 {
                            ps.push(V2::i([x, y]));
                        }
                    }
                }
                c.rng.shuffle(&mut ps);
                q = std::array::from_fn(|i| &ps[i] + &o);
                if T::EXACT && c.rng.chance(1, 4) {
                    let k = large(&mut c.rng);
                    q = q.map(|x| x.scale(&k));
                    c.ev("large_figures");
                }
                if T::EXACT && nudge(&mut c.rng, &mut q[3]) {
                    c.ev("nudged");
                }
            }
            2 => {
                // rectangle
                let (w, h) = (c.rng.int(1, 50), c.rng.int(1, 50));
                q = [V2::i([0, 0]), V2::i([w, 0]), V2::i([w, h]), V2::i([0, h])];
                c.rng.shuffle(&mut q);
                if T::EXACT && c.rng.chance(1, 4) {
                    let (k, o) = (large(&mut c.rng), vec_n::<2>(&mut c.rng, Style::Tiny));
                    q = q.map(|x| &x.scale(&k) + &o);
                    if nudge(&mut c.rng, &mut q[3]) {
                        c.ev("nudged");
                    }
                    c.ev("large_figures");
                }
            }
            _ => {
                // tiny figure far from the origin
                let s = if T::EXACT { rf((2f64).powi(-(c.rng.int(5, 60) as i32))) } else { ri(1) };
                let o = V2::i([c.rng.int(-500, 500), c.rng.int(-500, 500)]);
                q = std::array::from_fn(|_| &vec_n::<2>(&mut c.rng, Style::Tiny).scale(&s) + &o);
                c.ev("tiny_figures");
            }
        }
        let o = orient2(&q[0], &q[1], &q[2]);
        if sgn(&o) < 0 {
            q.swap(0, 1);
        }
        if sgn(&o) == 0 {
            return;
        }
        let want = incircle(&q[0], &q[1], &q[2], &q[3]);
        let t: Vec<Point<T, 2>> = q.iter().map(pt).collect();
        let got = predicates::incircle(&t[0], &t[1], &t[2], &t[3]).r();
        c.check(sgn(&got) == sgn(&want), "incircle", || {
            format!("{} {} {} {} {}: {} expected sign {}", T::NAME, q[0].s(), q[1].s(), q[2].s(), q[3].s(), got, sgn(&want))
        });
        let got = predicates::orient2d(&t[0], &t[1], &t[2]).r();
        c.check(sgn(&got) > 0, "orient2d", || format!("{} {} {} {}: {} expected sign 1", T::NAME, q[0].s(), q[1].s(), q[2].s(), got));
        c.ev(["circle_outside", "circle_on", "circle_inside"][(sgn(&want) + 1) as usize]);
        c.nontrivial(hash_vs(&[&q[0], &q[1], &q[2], &q[3]]));
        c.sample("incircle", || format!("{} {} {} {}", q[0].s(), q[1].s(), q[2].s(), q[3].s()));
    }
}
fn p06_orient(c: &mut Case) {
    by_scalar!(c, orient_any)
}
fn p06_incircle(c: &mut Case) {
    by_scalar!(c, incircle_any)
}
/// doubles of any kind: right whenever the determinant is clearly away from zero
fn p06_double(c: &mut Case) {
    let sc = 10f64.powi(c.rng.int(-2, 4) as i32);
    let f = |c: &mut Case| rf(c.rng.f(-1.0, 1.0) * sc);
    let mut p2: Vec<V2> = (0..4).map(|_| V([f(c), f(c)])).collect();
    if c.rng.chance(1, 3) {
        // close to the line through the first two
        let k = rf(c.rng.f(-2.0, 2.0));
        let off = rf(10f64.powi(-(c.rng.int(3, 8) as i32)) * sc * c.rng.f(0.2, 1.0));
        let q = p2[0].lerp(&p2[1], &k);
        p2[2] = V([rf(q.0[0].to_f64()), rf(R::from(&q.0[1] + &off).to_f64())]);
    }
    let p3: Vec<V3> = (0..4).map(|_| V([f(c), f(c), f(c)])).collect();
    let t2: Vec<Point<CgarF64, 2>> = p2.iter().map(pt).collect();
    let t3: Vec<Point<CgarF64, 3>> = p3.iter().map(pt).collect();
    let w = orient2(&p2[0], &p2[1], &p2[2]);
    if w.to_f64().abs() > 1e-6 * sc * sc.max(1.0) {
        for (n, g) in [
            ("orient-2d", kernel::orient(&t2[..3]).0),
            ("orient2d", predicates::orient2d(&t2[0], &t2[1], &t2[2]).0),
            ("kernel-orient2d", F64Kernel::orient2d(&t2[0], &t2[1], &t2[2]).0),
        ] {
            c.check((g > 0.0) == (sgn(&w) > 0) && g != 0.0, n, || format!("{} {} {}: {}", p2[0].s(), p2[1].s(), p2[2].s(), g));
            c.check(F64Kernel::are_collinear2(&t2[0], &t2[1], &t2[2]) == false, "kernel-collinear2", || format!("{:?}", t2));
            c.ev("double_orientations");
        }
    }
    if w.to_f64().abs() > 2e-9 * sc * sc.max(1.0) {
        let g = predicates::orient2d(&t2[0], &t2[1], &t2[2]).0;
        c.check((g > 0.0) == (sgn(&w) > 0) && g != 0.0, "orient2d", || format!("{} {} {}: {}", p2[0].s(), p2[1].s(), p2[2].s(), g));
        c.ev("double_orientations_close");
    }
    let w = orient3(&p3[0], &p3[1], &p3[2], &p3[3]);
    if w.to_f64().abs() > 1e-6 * sc * sc * sc.max(1.0) {
        for (n, g) in [("orient-3d", kernel::orient(&t3).0), ("kernel-orient3d", F64Kernel::orient3d(&t3[0], &t3[1], &t3[2], &t3[3]).0)] {
            c.check((g > 0.0) == (sgn(&w) > 0) && g != 0.0, n, || format!("{:?}: {} expected sign {}", t3, g, sgn(&w)));
            c.ev("double_orientations");
        }
    }
    let o = orient2(&p2[0], &p2[1], &p2[2]);
    let w = incircle(&p2[0], &p2[1], &p2[2], &p2[3]);
    if w.to_f64().abs() > 1e-5 * sc.powi(4).max(1e-3) {
        let g = predicates::incircle(&t2[0], &t2[1], &t2[2], &t2[3]).0;
        c.check((g > 0.0) == (sgn(&w) > 0) && g != 0.0, "incircle", || format!("{:?}: {} expected sign {} ({})", t2, g, sgn(&w), sgn(&o)));
        c.ev("double_incircles");
    }
    c.nontrivial(hash_vs(&[&p2[0], &p2[1], &p2[2]]));
}

// ------------------------------------------------------------------ P07
gn! {
    fn locate_any<T, N>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let mut t: [V<N>; 3] = std::array::from_fn(|_| vec_n(&mut c.rng, s));
        let first = t[0].clone();
        for x in &mut t[1..] {
            align(&mut c.rng, &first, x);
        }
        if N == 3 && c.rng.chance(1, 4) {
            let k = c.rng.below(3);
            for i in 1..3 {
                let z = t[0].0[k % N].clone();
                t[i].0[k % N] = z;
            }
        }
        if T::EXACT && c.rng.chance(1, 8) {
            let k = large(&mut c.rng);
            t = t.map(|x| x.scale(&k));
            c.ev("large_figures");
        }
        let kind = c.rng.below(8);
        let p: V<N> = match kind {
            0 => vec_n(&mut c.rng, s),
            1 => t[c.rng.below(3)].clone(),
            2 => {
                let (i, u) = (c.rng.below(3), unit_frac(&mut c.rng, s));
                t[i].lerp(&t[(i + 1) % 3], &u)
            }
            3 => {
                // extension of an edge
                let (i, u) = (c.rng.below(3), ri(*c.rng.pick(&[-2i64, -1, 2, 3])));
                t[i].lerp(&t[(i + 1) % 3], &u)
            }
            4 => {
                let (u, w) = (unit_frac(&mut c.rng, s), unit_frac(&mut c.rng, s));
                t[0].lerp(&t[1], &u).lerp(&t[2], &w)
            }
            5 => {
                // in the plane, anywhere
                let (u, w) = (num(&mut c.rng, Style::Tiny), num(&mut c.rng, Style::Tiny));
                t[0].lerp(&t[1], &u).lerp(&t[2], &w)
            }
            6 => {
                let (i, u) = (c.rng.below(3), unit_frac(&mut c.rng, s));
                let mut p = t[i].lerp(&t[(i + 1) % 3], &u);
                if N == 2 && T::EXACT && nudge(&mut c.rng, &mut p) {
                    c.ev("nudged");
                }
                p
            }
            _ => {
                let i = c.rng.below(3);
                let mut p = t[i].clone();
                if T::EXACT && nudge(&mut c.rng, &mut p) {
                    c.ev("nudged");
                }
                p
            }
        };
        // doubles must carry the point exactly
        if !T::EXACT && rp(&pt::<T, N>(&p)) != p {
            return;
        }
        let ctx = || format!("{} p={} triangle {} {} {}", T::NAME, p.s(), t[0].s(), t[1].s(), t[2].s());
        let tp = pt::<T, N>(&p);
        let tt: [Point<T, N>; 3] = std::array::from_fn(|i| pt(&t[i]));
        let (a, b) = (&t[0], &t[1]);
        let (ta, tb) = (&tt[0], &tt[1]);

        c.check(kernel::are_equal(&tp, ta) == (p == *a), "are-equal", ctx);
        c.check(kernel::are_equal(&tt[1], &tt[1].clone()), "are-equal-self", ctx);
        let col = collinear(a, b, &p);
        if a != b {
            c.check(kernel::are_collinear(ta, tb, &tp) == col, "are-collinear", || format!("{} expected {}", ctx(), col));
            c.check(kernel::are_collinear(tb, ta, &tp) == col, "are-collinear-swapped", || format!("{} expected {}", ctx(), col));
            c.ev(if col { "collinear" } else { "not_collinear" });
        }
        if *a != p {
            c.check(kernel::are_collinear(ta, &tp, tb) == col, "are-collinear-rotated", || format!("{} expected {}", ctx(), col));
        }
        let degenerate = collinear(&t[0], &t[1], &t[2]);
        c.check(kernel::triangle_is_degenerate(&tt[0], &tt[1], &tt[2]) == degenerate, "degenerate", || format!("{} expected {}", ctx(), degenerate));
        for (i, j) in [(0, 1), (1, 0), (1, 2), (2, 0)] {
            let on = on_segment(&p, &t[i], &t[j]);
            let sg = Segment::new(&tt[i], &tt[j]);
            c.check(kernel::is_point_on_segment(&tp, &sg) == on, "is-point-on-segment", || format!("{} edge {}{} expected {}", ctx(), i, j, on));
            c.check(sg.is_point_on(&tp) == on, "segment-is-point-on", || format!("{} edge {}{} expected {}", ctx(), i, j, on));
            let u = kernel::point_u_on_segment(&tt[i], &tt[j], &tp);
            c.check(u.is_some() == on, "point-u-on-segment", || format!("{} edge {}{} expected {}", ctx(), i, j, on));
            if let Some(u) = &u {
                if on && t[i] != t[j] {
                    let w = param(&p, &t[i], &t[j]);
                    c.check(same(u, &w), "point-u-value", || format!("{} edge {}{}: {} expected {}", ctx(), i, j, u.r(), w));
                }
            }
            if T::EXACT || on {
                let tol = *c.rng.pick(&[0i64, 1, 2]);
                let tol = R::from((tol, 4));
                let ut = kernel::point_u_on_segment_with_tolerance(&tt[i], &tt[j], &tp, &T::of(&tol));
                let near = dist2(&p, &t[i], &t[j]) <= R::from(&tol * &tol);
                c.check(ut.is_some() == near, "point-u-tolerance", || format!("{} edge {}{} tol {} expected {}", ctx(), i, j, tol, near));
                if let Some(u) = &ut {
                    if near && t[i] != t[j] {
                        let w = param(&p, &t[i], &t[j]);
                        c.check(same(u, &w), "point-u-tolerance-value", || format!("{} edge {}{}: {} expected {}", ctx(), i, j, u.r(), w));
                    }
                }
            }
            if t[i] != t[j] {
                let ce = CanonicalEdge::new(&tt[i], &tt[j]);
                let cf = CanonicalEdge::new(&tt[j], &tt[i]);
                c.check(ce == cf, "canonical-edge", ctx);
                let (x, y) = (rp(&ce.a), rp(&ce.b));
                c.check((x == t[i] && y == t[j]) || (x == t[j] && y == t[i]), "canonical-edge-ends", ctx);
                let w = param(&p, &x, &y);
                c.check(same(&ce.parameter_t(&tp), &w), "canonical-parameter", || format!("{} edge {}{}: {} expected {}", ctx(), i, j, ce.parameter_t(&tp).r(), w));
            }
            c.ev(if on { "on_segment" } else { "off_segment" });
        }
        // triangle (the point in its plane)
        let planar = N == 2 || degenerate || rank2(&t, &p);
        if !degenerate && planar {
            let want = locate_flat(&p, &t[0], &t[1], &t[2]);
            let mut perm = [0usize, 1, 2];
            c.rng.shuffle(&mut perm);
            let got = kernel::point_in_or_on_triangle(&tp, &tt[perm[0]], &tt[perm[1]], &tt[perm[2]]);
            c.check(tp_loc(&got) == want, "point-in-triangle", || format!("{} order {:?}: {:?} expected {:?}", ctx(), perm, got, want));
            let got = predicates::point_in_or_on_triangle_old(&tp, &tt[perm[0]], &tt[perm[1]], &tt[perm[2]]);
            if T::EXACT {
                c.check(tp_loc(&got) == want, "point-in-triangle-old", || format!("{} order {:?}: {:?} expected {:?}", ctx(), perm, got, want));
            }
            match (barycentric_coords(&tp, &tt[0], &tt[1], &tt[2]), bary(&p, &t[0], &t[1], &t[2])) {
                (Some((x, y, z)), Some(w)) => {
                    c.check(same(&x, &w[0]) && same(&y, &w[1]) && same(&z, &w[2]), "barycentric", || format!("{}: {} {} {} expected {:?}", ctx(), x.r(), y.r(), z.r(), w));
                    c.ev("barycentric");
                }
                (x, y) => {
                    c.check(x.is_some() == y.is_some(), "barycentric-some", ctx);
                }
            }
            c.ev(match want { Loc::Out => "tri_out", Loc::Vertex => "tri_vertex", Loc::Edge => "tri_edge", Loc::In => "tri_in" });
        } else if degenerate {
            c.check(barycentric_coords(&tp, &tt[0], &tt[1], &tt[2]).is_none(), "barycentric-degenerate", ctx);
            let got = kernel::point_in_or_on_triangle(&tp, &tt[0], &tt[1], &tt[2]);
            c.check(got == TrianglePoint::Off, "point-in-degenerate", || format!("{}: {:?}", ctx(), got));
            c.ev("tri_degenerate");
        }
        c.nontrivial(hash_vs(&[&p, &t[0], &t[1], &t[2]]));
        c.sample("locate", ctx);
    }
}
fn tp_loc(t: &TrianglePoint) -> Loc {
    match t {
        TrianglePoint::Off => Loc::Out,
        TrianglePoint::OnEdge => Loc::Edge,
        TrianglePoint::OnVertex => Loc::Vertex,
        TrianglePoint::In => Loc::In,
    }
}
/// p in the plane of the triangle (N = 3)
fn rank2<const N: usize>(t: &[V<N>; 3], p: &V<N>) -> bool {
    let f = |v: &V<N>| V::<3>(std::array::from_fn(|i| if i < N { v.0[i].clone() } else { R::new() }));
    sgn(&orient3(&f(&t[0]), &f(&t[1]), &f(&t[2]), &f(p))) == 0
}
/// squared distance from p to the segment a..b
pub fn dist2<const N: usize>(p: &V<N>, a: &V<N>, b: &V<N>) -> R {
    if a == b {
        return (p - a).n2();
    }
    let mut u = param(p, a, b);
    if u < 0 {
        u = R::new();
    }
    if u > 1 {
        u = ri(1);
    }
    (p - &a.lerp(b, &u)).n2()
}
fn p07_locate2(c: &mut Case) {
    by_scalar!(c, locate_any, 2)
}
fn p07_locate3(c: &mut Case) {
    by_scalar!(c, locate_any, 3)
}
g! {
    fn boxes<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let n = 1 + c.rng.below(8);
        let p2: Vec<V2> = (0..n).map(|_| vec_n(&mut c.rng, s)).collect();
        let p3: Vec<V3> = (0..n).map(|_| vec_n(&mut c.rng, s)).collect();
        let t2: Vec<Point<T, 2>> = p2.iter().map(pt).collect();
        let t3: Vec<Point<T, 3>> = p3.iter().map(pt).collect();
        let (lo, hi) = predicates::bbox2d(&t2);
        for k in 0..2 {
            let mn = p2.iter().map(|p| &p.0[k]).min().unwrap();
            let mx = p2.iter().map(|p| &p.0[k]).max().unwrap();
            c.check(rp(&lo).0[k] == *mn && rp(&hi).0[k] == *mx, "bbox2d", || format!("{} {:?}", T::NAME, p2));
        }
        let (lo, hi) = predicates::bbox3d(&t3);
        for k in 0..3 {
            let mn = p3.iter().map(|p| &p.0[k]).min().unwrap();
            let mx = p3.iter().map(|p| &p.0[k]).max().unwrap();
            c.check(rp(&lo).0[k] == *mn && rp(&hi).0[k] == *mx, "bbox3d", || format!("{} {:?}", T::NAME, p3));
        }
        let (lo, hi) = predicates::bbox_approx2d(&t2);
        let (l3, h3) = predicates::bbox_approx3d(&t3);
        for k in 0..2 {
            let mn = p2.iter().map(|p| &p.0[k]).min().unwrap();
            let mx = p2.iter().map(|p| &p.0[k]).max().unwrap();
            let e = 1e-9 * (1.0 + mn.to_f64().abs().max(mx.to_f64().abs()));
            c.check(close(&rp(&lo).0[k], mn, e) && close(&rp(&hi).0[k], mx, e), "bbox-approx2d", || format!("{} {:?}", T::NAME, p2));
        }
        for k in 0..3 {
            let mn = p3.iter().map(|p| &p.0[k]).min().unwrap();
            let mx = p3.iter().map(|p| &p.0[k]).max().unwrap();
            let e = 1e-9 * (1.0 + mn.to_f64().abs().max(mx.to_f64().abs()));
            c.check(close(&rp(&l3).0[k], mn, e) && close(&rp(&h3).0[k], mx, e), "bbox-approx3d", || format!("{} {:?}", T::NAME, p3));
        }
        let m = rp(&predicates::centroid2(&t2[0], &t2[n - 1]));
        c.check(same_v(T::EXACT, &m, &p2[0].lerp(&p2[n - 1], &R::from((1, 2)))), "centroid2", || format!("{} {} {}", T::NAME, p2[0].s(), p2[n - 1].s()));
        c.ev("boxes");
        // points equal within the merge threshold (coordinate-wise), far from the threshold itself
        let (a, d) = (&p3[0], *c.rng.pick(&[0.0, 1e-9, 1e-7, 9e-7, 1.2e-6, 1e-5, 0.1, 3.0]));
        let mut b = a.clone();
        let k = c.rng.below(3);
        b.0[k] += rf(if c.rng.bool() { d } else { -d });
        if rp(&pt::<T, 3>(&b)) == b {
            let got = kernel::are_approximately_equal(&pt::<T, 3>(a), &pt::<T, 3>(&b));
            // a lazy scalar without a cached approximation may fall back to exact equality
            let lax = T::NAME == "lazy" && d > 0.0 && d < 1e-6;
            c.check(lax || got == (d < 1e-6), "approximately-equal", || format!("{} {} {} -> {}", T::NAME, a.s(), b.s(), got));
            c.ev("approximate_pairs");
        }
    }
    fn hull<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let n = 3 + c.rng.below(9);
        let mut ps: Vec<V2> = (0..n).map(|_| vec_n(&mut c.rng, s)).collect();
        let mut seen = std::collections::HashSet::new();
        ps.retain(|p| seen.insert(p.clone()));
        if ps.len() < 3 {
            return;
        }
        let h = convex_hull_2d_indices(&ps.iter().map(pt::<T, 2>).collect());
        let ctx = || format!("{} {:?} -> {:?}", T::NAME, ps.iter().map(|p| p.s()).collect::<Vec<_>>(), h);
        if !c.check(h.iter().all(|&i| i < ps.len()), "hull-index", ctx) {
            return;
        }
        let flat = (2..ps.len()).all(|i| collinear(&ps[0], &ps[1], &ps[i]));
        if flat {
            return;
        }
        // strictly convex, counter-clockwise, everything inside
        let m = h.len();
        let ok = m >= 3
            && (0..m).all(|i| {
                let (a, b, d) = (&ps[h[i]], &ps[h[(i + 1) % m]], &ps[h[(i + 2) % m]]);
                sgn(&orient2(a, b, d)) >= 0 && ps.iter().all(|p| sgn(&orient2(a, b, p)) >= 0)
            });
        c.check(ok, "hull", ctx);
        c.ev("hulls");
    }
}
/// full doubles, clearly inside, outside, on or off
fn p07_double(c: &mut Case) {
    let sc = 10f64.powi(c.rng.int(-1, 3) as i32);
    doubles::<2>(c, sc);
    doubles::<3>(c, sc);
}
fn doubles<const N: usize>(c: &mut Case, sc: f64)
where
    Point<CgarF64, N>: PointOps<CgarF64, N, Vector = Vector<CgarF64, N>>,
    Vector<CgarF64, N>: VectorOps<CgarF64, N>,
{
    let f: Vec<[f64; N]> = (0..3).map(|_| std::array::from_fn(|_| c.rng.f(-1.0, 1.0) * sc)).collect();
    let mix2 = |a: &[f64; N], b: &[f64; N], u: f64| -> [f64; N] { std::array::from_fn(|i| a[i] + (b[i] - a[i]) * u) };
    let v: Vec<V<N>> = f.iter().map(|p| V(p.map(rf))).collect();
    let p: Vec<Point<CgarF64, N>> = f.iter().map(|p| Point { coords: p.map(CgarF64) }).collect();
    // height of every corner at least a tenth of the size
    let edge2 = |i: usize, j: usize| (&v[i] - &v[j]).n2().to_f64();
    let n2 = {
        let (e, g) = (&v[1] - &v[0], &v[2] - &v[0]);
        (R::from(e.n2() * g.n2()) - R::from(e.dot(&g).square())).to_f64()
    };
    let longest = edge2(0, 1).max(edge2(1, 2)).max(edge2(0, 2));
    if n2 < 0.01 * longest * longest || longest < 0.01 * sc * sc {
        return;
    }
    let (i, j, k) = { let i = c.rng.below(3); (i, (i + 1) % 3, (i + 2) % 3) };
    let u = c.rng.f(0.05, 0.95);
    let on = mix2(&f[i], &f[j], u);
    let q: Point<CgarF64, N> = Point { coords: on.map(CgarF64) };
    let sg = Segment::new(&p[i], &p[j]);
    let ctx = || format!("{:?} u={} edge {}{} of {:?}", on, u, i, j, f);
    let outside = mix2(&f[i], &f[j], if c.rng.bool() { c.rng.f(-0.9, -0.1) } else { c.rng.f(1.1, 1.9) });
    let w = c.rng.f(0.05, 0.9);
    let within = mix2(&on, &f[k], w);
    let beyond = mix2(&on, &f[k], c.rng.f(-0.9, -0.1));
    let pt_of = |x: &[f64; N]| -> Point<CgarF64, N> { Point { coords: x.map(CgarF64) } };
    c.check(!kernel::is_point_on_segment(&pt_of(&outside), &sg) && !kernel::is_point_on_segment(&pt_of(&within), &sg) && kernel::is_point_on_segment(&p[i], &sg) && kernel::is_point_on_segment(&p[j], &sg), "double-on-segment", ctx);
    c.check(kernel::are_equal(&q, &q.clone()) && !kernel::are_equal(&p[0], &p[1]), "double-equal", ctx);
    c.check(!kernel::are_collinear(&p[0], &p[1], &p[2]) && !kernel::triangle_is_degenerate(&p[0], &p[1], &p[2]), "double-collinear", ctx);
    if N == 2 || c.rng.bool() {
        let mut perm = [0usize, 1, 2];
        c.rng.shuffle(&mut perm);
        let at = |x: &[f64; N]| kernel::point_in_or_on_triangle(&pt_of(x), &p[perm[0]], &p[perm[1]], &p[perm[2]]);
        let (a, b, d) = (at(&within), at(&beyond), at(&f[i]));
        c.check(a == TrianglePoint::In && b == TrianglePoint::Off && d == TrianglePoint::OnVertex, "double-triangle", || format!("{} within {:?} {:?} beyond {:?} {:?} corner {:?}", ctx(), within, a, beyond, b, d));
        if let Some((x, y, z)) = barycentric_coords(&pt_of(&within), &p[0], &p[1], &p[2]) {
            let mut want = [0.0; 3];
            want[i] = (1.0 - u) * (1.0 - w);
            want[j] = u * (1.0 - w);
            want[k] = w;
            let got = [x.0, y.0, z.0];
            c.check((0..3).all(|m| (got[m] - want[m]).abs() < 1e-9), "double-barycentric", || format!("{} {:?} expected {:?}", ctx(), got, want));
        } else {
            c.check(false, "double-barycentric", ctx);
        }
    }
    let t = kernel::point_u_on_segment_with_tolerance(&p[i], &p[j], &q, &CgarF64(1e-7));
    c.check(t.as_ref().map_or(false, |t| (t.0 - u).abs() < 1e-6), "double-parameter", || format!("{} got {:?}", ctx(), t));
    c.check(kernel::point_u_on_segment_with_tolerance(&p[i], &p[j], &pt_of(&within), &CgarF64(1e-7)).is_none(), "double-parameter-off", ctx);
    c.ev("doubles");
    c.nontrivial(hash_vs(&[&v[0], &v[1], &v[2]]));
}
/// the packaged double kernel answers like the exact model on integers
fn p07_kernel(c: &mut Case) {
    let s = Style::Tiny;
    let q2: [V2; 3] = std::array::from_fn(|_| vec_n(&mut c.rng, s));
    let mut q3: [V3; 3] = std::array::from_fn(|_| vec_n(&mut c.rng, s));
    let mut q2 = q2;
    if c.rng.bool() {
        let k = ri(c.rng.int(-2, 3));
        q2[2] = q2[0].lerp(&q2[1], &k);
        q3[2] = q3[0].lerp(&q3[1], &k);
    }
    let t2: Vec<Point<CgarF64, 2>> = q2.iter().map(pt).collect();
    let t3: Vec<Point<CgarF64, 3>> = q3.iter().map(pt).collect();
    let ctx = || format!("{:?} {:?}", q2, q3);
    c.check(F64Kernel::are_equal2(&t2[0], &t2[1]) == (q2[0] == q2[1]) && F64Kernel::are_equal3(&t3[0], &t3[1]) == (q3[0] == q3[1]), "kernel-equal", ctx);
    if q2[0] != q2[1] {
        let (s2, on) = (Segment::new(&t2[0], &t2[1]), on_segment(&q2[2], &q2[0], &q2[1]));
        c.check(F64Kernel::are_collinear2(&t2[0], &t2[1], &t2[2]) == collinear(&q2[0], &q2[1], &q2[2]), "kernel-collinear2", ctx);
        c.check(F64Kernel::is_point_on_segment2(&t2[2], &s2) == on, "kernel-on-segment2", ctx);
        let u = F64Kernel::point_u_on_segment2(&t2[0], &t2[1], &t2[2]);
        c.check(u.is_some() == on && u.map_or(true, |u| same(&u, &param(&q2[2], &q2[0], &q2[1]))), "kernel-u2", ctx);
    }
    if q3[0] != q3[1] {
        let (s3, on) = (Segment::new(&t3[0], &t3[1]), on_segment(&q3[2], &q3[0], &q3[1]));
        c.check(F64Kernel::are_collinear3(&t3[0], &t3[1], &t3[2]) == collinear(&q3[0], &q3[1], &q3[2]), "kernel-collinear3", ctx);
        c.check(F64Kernel::is_point_on_segment3(&t3[2], &s3) == on, "kernel-on-segment3", ctx);
        let u = F64Kernel::point_u_on_segment3(&t3[0], &t3[1], &t3[2]);
        c.check(u.is_some() == on && u.map_or(true, |u| same(&u, &param(&q3[2], &q3[0], &q3[1]))), "kernel-u3", ctx);
    }
    c.ev("kernel_calls");
    c.nontrivial(hash_vs(&[&q3[0], &q3[1], &q3[2]]));
}
fn p07_boxes(c: &mut Case) {
    by_scalar!(c, boxes);
    by_scalar!(c, hull);
}

// ------------------------------------------------------------------ P08
/// two segments in one of many relations
fn seg_pair<const N: usize>(r: &mut Rng, s: Style) -> [V<N>; 4] {
    let a: V<N> = vec_n(r, s);
    let mut b: V<N> = vec_n(r, s);
    align(r, &a, &mut b);
    let on = |r: &mut Rng| -> V<N> {
        match r.below(4) {
            0 => a.clone(),
            1 => b.clone(),
            2 => a.lerp(&b, &unit_frac(r, s)),
            _ => a.lerp(&b, &ri(*r.pick(&[-2i64, -1, 2, 3]))),
        }
    };
    let (c, d) = match r.below(7) {
        0 | 1 => (vec_n(r, s), vec_n(r, s)),
        2 => (on(r), vec_n(r, s)),           // starts on the line of the first
        3 => (on(r), on(r)),                 // collinear
        4 => {
            // passes through a point of the first
            let m = on(r);
            let c: V<N> = vec_n(r, s);
            let k = ri(*r.pick(&[-1i64, -2, 1, 2]));
            let d = c.lerp(&m, &(ri(1) + R::from(1) / &k));
            (c, d)
        }
        5 => {
            // parallel
            let o: V<N> = vec_n(r, s);
            (&a + &o, &b + &o)
        }
        _ => {
            let m = a.lerp(&b, &R::from((1, 2)));
            let w: V<N> = vec_n(r, s);
            (&m + &w, &m - &w)
        }
    };
    let mut q = [a, b, c, d];
    if r.bool() {
        q.swap(0, 2);
        q.swap(1, 3);
    }
    if r.bool() {
        q.swap(0, 1);
    }
    if r.bool() {
        q.swap(2, 3);
    }
    q
}
fn segx_name<const N: usize>(x: &SegX<N>) -> &'static str {
    match x {
        SegX::None => "share_nothing",
        SegX::Point(_) => "share_point",
        SegX::Seg(..) => "share_stretch",
    }
}
fn segx_same<const N: usize>(exact: bool, got: &SegX<N>, want: &SegX<N>) -> bool {
    match (got, want) {
        (SegX::None, SegX::None) => true,
        (SegX::Point(p), SegX::Point(q)) => same_v(exact, p, q),
        (SegX::Seg(a, b), SegX::Seg(x, y)) => (same_v(exact, a, x) && same_v(exact, b, y)) || (same_v(exact, a, y) && same_v(exact, b, x)),
        _ => false,
    }
}
g! {
    fn seg2<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let mut q = seg_pair::<2>(&mut c.rng, s);
        if T::EXACT && c.rng.chance(1, 8) {
            let k = large(&mut c.rng);
            q = q.map(|x| x.scale(&k));
            c.ev("large_figures");
        }
        if !T::EXACT && q.iter().any(|p| rp(&pt::<T, 2>(p)) != *p) {
            return;
        }
        let want = seg_seg(&q[0], &q[1], &q[2], &q[3]);
        let t: Vec<Point<T, 2>> = q.iter().map(pt).collect();
        let ctx = || format!("{} {}-{} x {}-{} expected {:?}", T::NAME, q[0].s(), q[1].s(), q[2].s(), q[3].s(), want);
        let nd = q[0] != q[1] && q[2] != q[3];
        if nd {
            let got = segment_segment_intersection_2(&Segment::new(&t[0], &t[1]), &Segment::new(&t[2], &t[3]));
            let g = match &got {
                SegmentIntersection2::None => SegX::None,
                SegmentIntersection2::Point(p) => SegX::Point(rp(p)),
                SegmentIntersection2::Overlapping(s) => SegX::Seg(rp(&s.a), rp(&s.b)),
            };
            c.check(segx_same(T::EXACT, &g, &want), "segment-segment-2", || format!("{} got {:?}", ctx(), g));
            let (o, x, y) = (SegmentIntersection2::None, SegmentIntersection2::Point(t[0].clone()), SegmentIntersection2::Overlapping(Segment::new(&t[0], &t[1])));
            let ok = got == got.clone() && o == o.clone() && x == x.clone() && y == y.clone() && o != x && x != y && y != o && x != SegmentIntersection2::Point(t[1].clone()) && y != SegmentIntersection2::Overlapping(Segment::new(&t[0], &t[0]));
            c.check(ok, "intersection-eq-2", ctx);
            c.ev(segx_name(&want));
            // the shared point of two non-parallel edges
            let par = sgn(&cross2(&(&q[1] - &q[0]), &(&q[3] - &q[2]))) == 0;
            if !par {
                let got = edge_edge_intersection_2(&t[0], &t[1], &t[2], &t[3]).map(|p| rp(&p));
                let w = match &want { SegX::Point(p) => Some(p.clone()), _ => None };
                let ok = match (&got, &w) { (None, None) => true, (Some(a), Some(b)) => same_v(T::EXACT, a, b), _ => false };
                c.check(ok, "edge-edge", || format!("{} got {:?}", ctx(), got));
                c.ev("edge_edge");
            }
            // the helper of the triangle code reports a degenerate segment for a single point
            let got = segment_intersect_2d(&t[0], &t[1], &t[2], &t[3]);
            let g = match &got {
                None => SegX::None,
                Some(s) if rp(&s.a) == rp(&s.b) => SegX::Point(rp(&s.a)),
                Some(s) => SegX::Seg(rp(&s.a), rp(&s.b)),
            };
            c.check(segx_same(T::EXACT, &g, &want), "segment-intersect-2d", || format!("{} got {:?}", ctx(), g));
        }
        c.nontrivial(hash_vs(&[&q[0], &q[1], &q[2], &q[3]]));
        c.sample(segx_name(&want), ctx);
    }
    fn seg3<T>(c: &mut Case) {
        let s = style::<T>(&mut c.rng);
        let mut q = seg_pair::<3>(&mut c.rng, s);
        if T::EXACT && c.rng.chance(1, 8) {
            let k = large(&mut c.rng);
            q = q.map(|x| x.scale(&k));
            c.ev("large_figures");
        }
        if !T::EXACT && q.iter().any(|p| rp(&pt::<T, 3>(p)) != *p) {
            return;
        }
        if q[0] == q[1] || q[2] == q[3] {
            return;
        }
        let want = seg_seg(&q[0], &q[1], &q[2], &q[3]);
        let t: Vec<Point<T, 3>> = q.iter().map(pt).collect();
        let ctx = || format!("{} {}-{} x {}-{} expected {:?}", T::NAME, q[0].s(), q[1].s(), q[2].s(), q[3].s(), want);
        let got = segment_segment_intersection_3(&Segment::new(&t[0], &t[1]), &Segment::new(&t[2], &t[3]));
        let g = match &got {
            SegmentIntersection3::None => SegX::None,
            SegmentIntersection3::Point(p) => SegX::Point(rp(p)),
            SegmentIntersection3::Overlapping(s) => SegX::Seg(rp(&s.a), rp(&s.b)),
        };
        c.check(segx_same(T::EXACT, &g, &want), "segment-segment-3", || format!("{} got {:?}", ctx(), g));
        let (o, x, y) = (SegmentIntersection3::None, SegmentIntersection3::Point(t[0].clone()), SegmentIntersection3::Overlapping(Segment::new(&t[0], &t[1])));
        let ok = got == got.clone() && o == o.clone() && x == x.clone() && y == y.clone() && o != x && x != y && y != o && x != SegmentIntersection3::Point(t[1].clone()) && y != SegmentIntersection3::Overlapping(Segment::new(&t[0], &t[0]));
        c.check(ok, "intersection-eq-3", ctx);
        c.ev(segx_name(&want));
        c.nontrivial(hash_vs(&[&q[0], &q[1], &q[2], &q[3]]));
        c.sample(segx_name(&want), ctx);
    }
}
/// full doubles: segments that clearly cross, or clearly stay apart
fn p08_double(c: &mut Case) {
    let sc = 10f64.powi(c.rng.int(-1, 3) as i32);
    let x: [f64; 3] = std::array::from_fn(|_| c.rng.f(-1.0, 1.0) * sc);
    let d: [[f64; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| c.rng.f(-1.0, 1.0) * sc));
    // where along the second segment the first one is met; outside 0..1 they miss
    let (s, hit) = (c.rng.f(0.05, 0.95), c.rng.bool());
    let t = if hit { c.rng.f(0.05, 0.95) } else if c.rng.bool() { c.rng.f(-0.9, -0.1) } else { c.rng.f(1.1, 1.9) };
    let n = |a: &[f64]| a.iter().map(|v| v * v).sum::<f64>();
    let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(p, q)| p * q).sum::<f64>();
    let at = |k: usize, u: f64| -> [f64; 3] { std::array::from_fn(|i| x[i] + d[k][i] * u) };
    let e = [at(0, -s), at(0, 1.0 - s), at(1, -t), at(1, 1.0 - t)];
    let ctx = || format!("{:?} x {:?} {}", &e[..2], &e[2..], if hit { format!("meet at {:?}", x) } else { "apart".into() });
    for m in [2usize, 3] {
        let (a, b) = (n(&d[0][..m]), n(&d[1][..m]));
        let sin2 = a * b - dot(&d[0][..m], &d[1][..m]).powi(2);
        if a.min(b) < 0.01 * sc * sc || sin2 < 0.01 * a * b {
            continue;
        }
        let got: Option<Vec<f64>> = if m == 2 {
            let p: Vec<Point<CgarF64, 2>> = e.iter().map(|v| Point { coords: [CgarF64(v[0]), CgarF64(v[1])] }).collect();
            match segment_segment_intersection_2(&Segment::new(&p[0], &p[1]), &Segment::new(&p[2], &p[3])) {
                SegmentIntersection2::Point(p) => Some(p.coords.iter().map(|v| v.0).collect()),
                SegmentIntersection2::None => None,
                SegmentIntersection2::Overlapping(_) => Some(vec![f64::NAN; 2]),
            }
        } else {
            let p: Vec<Point<CgarF64, 3>> = e.iter().map(|v| Point { coords: v.map(CgarF64) }).collect();
            match segment_segment_intersection_3(&Segment::new(&p[0], &p[1]), &Segment::new(&p[2], &p[3])) {
                SegmentIntersection3::Point(p) => Some(p.coords.iter().map(|v| v.0).collect()),
                SegmentIntersection3::None => None,
                SegmentIntersection3::Overlapping(_) => Some(vec![f64::NAN; 3]),
            }
        };
        let ok = match &got {
            Some(p) => hit && (0..m).all(|i| (p[i] - x[i]).abs() < 1e-9 * (1.0 + sc)),
            None => !hit,
        };
        c.check(ok, if m == 2 { "double-2" } else { "double-3" }, || format!("{} got {:?}", ctx(), got));
        c.ev(if hit { "double_crossing" } else { "double_apart" });
    }
    c.nontrivial(e.iter().flatten().fold(7, |h, v| mix(h, v.to_bits())));
}
fn p08_seg2(c: &mut Case) {
    by_scalar!(c, seg2)
}
fn p08_seg3(c: &mut Case) {
    by_scalar!(c, seg3)
}

const EXACT_ASSUMPTION: &str = "coordinates are finite; doubles are exercised on integers, where their arithmetic is exact, and on random values clearly away from degeneracy";
pub const P05: Prop = Prop {
    id: "P05", schedules: false,
    rule: "random vectors, points, segments, matrices and planes in five number styles (small integers with many coincidences, integers, dyadic, full doubles, non-dyadic fractions), singular matrices, zero pivots, parallel vectors and axis-parallel planes, for all three scalar types; every operation compared with plain rational arithmetic. Non-trivial: distinct by operands",
    assumptions: &[EXACT_ASSUMPTION],
    workloads: &[
        Workload { name: "vectors", f: p05_vectors, quick: 300_000, thorough: 2_000_000 },
        Workload { name: "matrices", f: p05_matrices, quick: 75_000, thorough: 400_000 },
        Workload { name: "planes", f: p05_planes, quick: 200_000, thorough: 1_200_000 },
    ],
    min_events: &[("vector_identities", 10_000), ("matrix_identities", 10_000), ("determinants", 5_000), ("inverses", 2_000), ("planes", 2_000), ("canonical_pairs", 1_000), ("perpendiculars", 2_000)],
};
pub const P06: Prop = Prop {
    id: "P06", schedules: false,
    rule: "point sets in general, degenerate (collinear, coplanar, cocircular, rectangles) and nearly degenerate position (degenerate ones nudged by 1e-9 down to 2^-200), tiny figures far from the origin, for all three scalar types; random doubles with a determinant clearly away from zero. The sign is compared with the exact determinant. Non-trivial: distinct by points",
    assumptions: &[EXACT_ASSUMPTION],
    workloads: &[
        Workload { name: "orient", f: p06_orient, quick: 900_000, thorough: 4_000_000 },
        Workload { name: "incircle", f: p06_incircle, quick: 480_000, thorough: 2_500_000 },
        Workload { name: "double", f: p06_double, quick: 360_000, thorough: 2_000_000 },
    ],
    min_events: &[("orientation_cw", 1000), ("orientation_zero", 1000), ("orientation_ccw", 1000), ("volume_zero", 1000), ("circle_on", 1000), ("circle_inside", 1000), ("circle_outside", 1000), ("nudged", 1000), ("large_figures", 1000), ("double_orientations", 1000), ("double_incircles", 1000)],
};
pub const P07: Prop = Prop {
    id: "P07", schedules: false,
    rule: "triangles and points placed at corners, on edges, on edge extensions, inside, outside, in the plane, nudged off by tiny amounts; degenerate triangles; both dimensions and all three scalar types; every predicate in several argument orders against exact rational geometry. Non-trivial: distinct by points",
    assumptions: &[EXACT_ASSUMPTION, "the first two points handed to the collinearity test differ", "in space the point handed to the triangle test lies in the triangle's plane"],
    workloads: &[
        Workload { name: "plane", f: p07_locate2, quick: 150_000, thorough: 2_000_000 },
        Workload { name: "space", f: p07_locate3, quick: 150_000, thorough: 2_000_000 },
        Workload { name: "boxes", f: p07_boxes, quick: 75_000, thorough: 800_000 },
        Workload { name: "double", f: p07_double, quick: 150_000, thorough: 2_000_000 },
        Workload { name: "kernel", f: p07_kernel, quick: 75_000, thorough: 800_000 },
    ],
    min_events: &[("doubles", 1000), ("kernel_calls", 1000), ("collinear", 1000), ("on_segment", 1000), ("off_segment", 1000), ("tri_out", 1000), ("tri_vertex", 1000), ("tri_edge", 1000), ("tri_in", 1000), ("tri_degenerate", 300), ("barycentric", 1000), ("nudged", 300), ("boxes", 1000), ("hulls", 500)],
};
pub const P08: Prop = Prop {
    id: "P08", schedules: false,
    rule: "pairs of segments: random, crossing, touching at ends and in the middle, collinear overlapping, nested, touching and apart, parallel; ends and segments swapped at random; plane and space; all three scalar types. Non-trivial: distinct by end points",
    assumptions: &[EXACT_ASSUMPTION, "segments have distinct end points"],
    workloads: &[
        Workload { name: "plane", f: p08_seg2, quick: 600_000, thorough: 4_000_000 },
        Workload { name: "space", f: p08_seg3, quick: 600_000, thorough: 4_000_000 },
        Workload { name: "double", f: p08_double, quick: 300_000, thorough: 2_000_000 },
    ],
    min_events: &[("double_crossing", 1000), ("double_apart", 1000), ("share_nothing", 1000), ("share_point", 1000), ("share_stretch", 1000), ("edge_edge", 1000)],
};
