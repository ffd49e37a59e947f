//! Independent exact reference: plain rationals, no code of the library.
pub use rug::Rational as R;
use std::ops::{Add, Div, Mul, Neg, Sub};

use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact, scalar::Scalar};

/// Scalars under test, with a bridge to the reference numbers.
pub trait Sc: Scalar + 'static {
    const NAME: &'static str;
    const EXACT: bool;
    fn r(&self) -> R;
    fn of(r: &R) -> Self;
}
impl Sc for CgarRational {
    const NAME: &'static str = "rational";
    const EXACT: bool = true;
    fn r(&self) -> R {
        self.0.clone()
    }
    fn of(r: &R) -> Self {
        CgarRational(r.clone())
    }
}
impl Sc for LazyExact {
    const NAME: &'static str = "lazy";
    const EXACT: bool = true;
    fn r(&self) -> R {
        // a private copy of the node would not share the cache; exact() is the
        // public accessor and is itself checked by P01
        self.exact().0
    }
    fn of(r: &R) -> Self {
        // dyadic values enter as floats, as user data does; others as rationals
        let f = r.to_f64();
        if f.is_finite() && R::from_f64(f).as_ref() == Some(r) {
            LazyExact::from_f64(f)
        } else {
            LazyExact::from_rug_rational(r.clone())
        }
    }
}
impl Sc for CgarF64 {
    const NAME: &'static str = "f64";
    const EXACT: bool = false;
    fn r(&self) -> R {
        R::from_f64(self.0).unwrap_or_default()
    }
    fn of(r: &R) -> Self {
        CgarF64(r.to_f64())
    }
}

/// Declares functions generic over the scalar with the operator bounds the library asks for.
#[macro_export]
macro_rules! g {
    ($(fn $n:ident<T>($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {$(
        #[allow(dead_code)]
        pub fn $n<T: $crate::oracle::Sc>($($a: $t),*) $(-> $r)?
        where
            for<'a> &'a T: std::ops::Add<&'a T, Output = T>
                + std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    )*};
}

pub fn ri(i: i64) -> R {
    R::from(i)
}
pub fn rf(f: f64) -> R {
    R::from_f64(f).expect("finite")
}
pub fn sgn(r: &R) -> i32 {
    match r.cmp0() {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V<const N: usize>(pub [R; N]);
pub type V2 = V<2>;
pub type V3 = V<3>;

impl<const N: usize> V<N> {
    pub fn i(a: [i64; N]) -> Self {
        V(a.map(R::from))
    }
    pub fn f(a: [f64; N]) -> Self {
        V(a.map(rf))
    }
    pub fn zero() -> Self {
        V(std::array::from_fn(|_| R::new()))
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| sgn(x) == 0)
    }
    pub fn dot(&self, o: &Self) -> R {
        let mut s = R::new();
        for k in 0..N {
            s += R::from(&self.0[k] * &o.0[k]);
        }
        s
    }
    pub fn n2(&self) -> R {
        self.dot(self)
    }
    pub fn scale(&self, k: &R) -> Self {
        V(std::array::from_fn(|i| R::from(&self.0[i] * k)))
    }
    pub fn lerp(&self, o: &Self, t: &R) -> Self {
        self + &(o - self).scale(t)
    }
    pub fn s(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|x| x.to_string()).collect();
        format!("({})", v.join(","))
    }
    pub fn fl(&self) -> [f64; N] {
        std::array::from_fn(|i| self.0[i].to_f64())
    }
}
impl<'a, const N: usize> Add<&'a V<N>> for &'a V<N> {
    type Output = V<N>;
    fn add(self, o: &V<N>) -> V<N> {
        V(std::array::from_fn(|i| R::from(&self.0[i] + &o.0[i])))
    }
}
impl<'a, const N: usize> Sub<&'a V<N>> for &'a V<N> {
    type Output = V<N>;
    fn sub(self, o: &V<N>) -> V<N> {
        V(std::array::from_fn(|i| R::from(&self.0[i] - &o.0[i])))
    }
}
impl<'a, const N: usize> Mul<&'a R> for &'a V<N> {
    type Output = V<N>;
    fn mul(self, o: &R) -> V<N> {
        self.scale(o)
    }
}
impl<'a, const N: usize> Div<&'a R> for &'a V<N> {
    type Output = V<N>;
    fn div(self, o: &R) -> V<N> {
        self.scale(&R::from(o.recip_ref()))
    }
}
impl<const N: usize> Neg for &V<N> {
    type Output = V<N>;
    fn neg(self) -> V<N> {
        V(std::array::from_fn(|i| R::from(-&self.0[i])))
    }
}
pub fn cross2(a: &V2, b: &V2) -> R {
    R::from(&a.0[0] * &b.0[1]) - R::from(&a.0[1] * &b.0[0])
}
pub fn cross3(a: &V3, b: &V3) -> V3 {
    let c = |i: usize, j: usize| R::from(&a.0[i] * &b.0[j]) - R::from(&a.0[j] * &b.0[i]);
    V([c(1, 2), c(2, 0), c(0, 1)])
}
/// > 0: a, b, c counter-clockwise
pub fn orient2(a: &V2, b: &V2, c: &V2) -> R {
    cross2(&(b - a), &(c - a))
}
/// det(b-a, c-a, d-a)
pub fn orient3(a: &V3, b: &V3, c: &V3, d: &V3) -> R {
    (b - a).dot(&cross3(&(c - a), &(d - a)))
}
/// > 0 when d lies inside the circle through counter-clockwise a, b, c
pub fn incircle(a: &V2, b: &V2, c: &V2, d: &V2) -> R {
    let (x, y, z) = (a - d, b - d, c - d);
    let (xx, yy, zz) = (x.n2(), y.n2(), z.n2());
    xx * cross2(&y, &z) - yy * cross2(&x, &z) + zz * cross2(&x, &y)
}
pub fn normal(t: &[V3; 3]) -> V3 {
    cross3(&(&t[1] - &t[0]), &(&t[2] - &t[0]))
}
pub fn det(m: &[Vec<R>]) -> R {
    let n = m.len();
    if n == 0 {
        return ri(1);
    }
    if n == 1 {
        return m[0][0].clone();
    }
    let mut s = R::new();
    for j in 0..n {
        if sgn(&m[0][j]) == 0 {
            continue;
        }
        let minor: Vec<Vec<R>> = (1..n).map(|i| (0..n).filter(|&k| k != j).map(|k| m[i][k].clone()).collect()).collect();
        let t = R::from(&m[0][j] * &det(&minor));
        if j % 2 == 0 { s += t } else { s -= t }
    }
    s
}

// ------------------------------------------------------------ point / segment / triangle
pub fn collinear<const N: usize>(a: &V<N>, b: &V<N>, c: &V<N>) -> bool {
    let u = b - a;
    let v = c - a;
    // Gram determinant
    R::from(&u.n2() * &v.n2()) == { let d = u.dot(&v); R::from(&d * &d) }
}
pub fn on_segment<const N: usize>(p: &V<N>, a: &V<N>, b: &V<N>) -> bool {
    if a == b {
        return p == a;
    }
    if !collinear(a, b, p) {
        return false;
    }
    let u = b - a;
    let t = u.dot(&(p - a));
    sgn(&t) >= 0 && t <= u.n2()
}
/// parameter of p along a..b (p on the line)
pub fn param<const N: usize>(p: &V<N>, a: &V<N>, b: &V<N>) -> R {
    let u = b - a;
    let d = u.n2();
    u.dot(&(p - a)) / d
}
/// barycentric coordinates of p with respect to a non-degenerate triangle (p in its plane)
pub fn bary<const N: usize>(p: &V<N>, a: &V<N>, b: &V<N>, c: &V<N>) -> Option<[R; 3]> {
    let (u, v, w) = (b - a, c - a, p - a);
    let (uu, uv, vv, wu, wv) = (u.n2(), u.dot(&v), v.n2(), w.dot(&u), w.dot(&v));
    let d = R::from(&uu * &vv) - R::from(&uv * &uv);
    if sgn(&d) == 0 {
        return None;
    }
    let s = (R::from(&wu * &vv) - R::from(&wv * &uv)) / &d;
    let t = (R::from(&wv * &uu) - R::from(&wu * &uv)) / &d;
    let r = ri(1) - &s - &t;
    Some([r, s, t])
}
pub fn in_plane(p: &V3, t: &[V3; 3]) -> bool {
    sgn(&orient3(&t[0], &t[1], &t[2], p)) == 0
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    Out,
    Vertex,
    Edge,
    In,
}
pub fn locate3(p: &V3, t: &[V3; 3]) -> Loc {
    if !in_plane(p, t) {
        return Loc::Out;
    }
    locate_flat(p, &t[0], &t[1], &t[2])
}
pub fn locate_flat<const N: usize>(p: &V<N>, a: &V<N>, b: &V<N>, c: &V<N>) -> Loc {
    let Some(w) = bary(p, a, b, c) else { return Loc::Out };
    if w.iter().any(|x| sgn(x) < 0) {
        return Loc::Out;
    }
    match w.iter().filter(|x| sgn(x) == 0).count() {
        0 => Loc::In,
        1 => Loc::Edge,
        _ => Loc::Vertex,
    }
}

/// What two segments share.
#[derive(Clone, Debug, PartialEq)]
pub enum SegX<const N: usize> {
    None,
    Point(V<N>),
    Seg(V<N>, V<N>),
}
pub fn seg_seg<const N: usize>(a: &V<N>, b: &V<N>, c: &V<N>, d: &V<N>) -> SegX<N> {
    if a == b {
        return if on_segment(a, c, d) { SegX::Point(a.clone()) } else { SegX::None };
    }
    if c == d {
        return if on_segment(c, a, b) { SegX::Point(c.clone()) } else { SegX::None };
    }
    let u = b - a;
    let v = d - c;
    let w = c - a;
    // a + s u = c + t v  -> least squares on Gram matrix, then verify
    let (uu, uv, vv) = (u.n2(), u.dot(&v), v.n2());
    let dd = R::from(&uu * &vv) - R::from(&uv * &uv);
    if sgn(&dd) == 0 {
        // parallel
        if !collinear(a, b, c) {
            return SegX::None;
        }
        let t0 = param(c, a, b);
        let t1 = param(d, a, b);
        let (lo, hi) = if t0 <= t1 { (t0, t1) } else { (t1, t0) };
        let lo = if lo < 0 { R::new() } else { lo };
        let hi = if hi > 1 { ri(1) } else { hi };
        if lo > hi {
            return SegX::None;
        }
        let p = a.lerp(b, &lo);
        let q = a.lerp(b, &hi);
        return if p == q { SegX::Point(p) } else { SegX::Seg(p, q) };
    }
    let (wu, wv) = (w.dot(&u), w.dot(&v));
    let s = (R::from(&wu * &vv) - R::from(&wv * &uv)) / &dd;
    let t = (R::from(&wu * &uv) - R::from(&wv * &uu)) / &dd;
    if s < 0 || s > 1 || t < 0 || t > 1 {
        return SegX::None;
    }
    let p = a.lerp(b, &s);
    let q = c.lerp(d, &t);
    if p == q { SegX::Point(p) } else { SegX::None }
}

/// The set two non-degenerate triangles in space share.
#[derive(Clone, Debug, PartialEq)]
pub enum TriX {
    None,
    Point(V3),
    Seg(V3, V3),
    /// coplanar: convex hull vertices (>= 3, in order)
    Poly(Vec<V3>),
}

/// interval in which the segment p..q lies inside the triangle's prism-plane (coplanar segment)
fn clip_coplanar(p: &V3, q: &V3, t: &[V3; 3]) -> Option<(R, R)> {
    let n = normal(t);
    let (mut lo, mut hi) = (R::new(), ri(1));
    for i in 0..3 {
        let (a, b) = (&t[i], &t[(i + 1) % 3]);
        let inw = cross3(&n, &(b - a)); // points inwards
        let f0 = inw.dot(&(p - a));
        let f1 = inw.dot(&(q - a));
        if sgn(&f0) < 0 && sgn(&f1) < 0 {
            return None;
        }
        let df = R::from(&f1 - &f0);
        match sgn(&df) {
            0 => {
                if sgn(&f0) < 0 {
                    return None;
                }
            }
            s => {
                let x = R::from(-&f0) / &df;
                if s > 0 {
                    if x > lo { lo = x }
                } else if x < hi {
                    hi = x
                }
            }
        }
        if lo > hi {
            return None;
        }
    }
    Some((lo, hi))
}
/// what a segment shares with a closed triangle (segment may be coplanar)
pub fn seg_tri(p: &V3, q: &V3, t: &[V3; 3]) -> SegX<3> {
    let f0 = orient3(&t[0], &t[1], &t[2], p);
    let f1 = orient3(&t[0], &t[1], &t[2], q);
    let (s0, s1) = (sgn(&f0), sgn(&f1));
    if s0 * s1 > 0 {
        return SegX::None;
    }
    if s0 == 0 && s1 == 0 {
        return match clip_coplanar(p, q, t) {
            None => SegX::None,
            Some((lo, hi)) => {
                let a = p.lerp(q, &lo);
                let b = p.lerp(q, &hi);
                if a == b { SegX::Point(a) } else { SegX::Seg(a, b) }
            }
        };
    }
    let x = R::from(&f0 / &R::from(&f0 - &f1));
    let m = p.lerp(q, &x);
    if locate3(&m, t) != Loc::Out { SegX::Point(m) } else { SegX::None }
}
pub fn tri_tri(s: &[V3; 3], t: &[V3; 3]) -> TriX {
    let n = normal(s);
    let m = normal(t);
    let coplanar = cross3(&n, &m).is_zero() && in_plane(&t[0], s);
    if coplanar {
        // Sutherland-Hodgman of t against s
        let mut poly: Vec<V3> = t.to_vec();
        for i in 0..3 {
            let (a, b) = (&s[i], &s[(i + 1) % 3]);
            let inw = cross3(&n, &(b - a));
            let f = |p: &V3| inw.dot(&(p - a));
            let mut out: Vec<V3> = vec![];
            for k in 0..poly.len() {
                let p = &poly[k];
                let q = &poly[(k + 1) % poly.len()];
                let (fp, fq) = (f(p), f(q));
                if sgn(&fp) >= 0 {
                    out.push(p.clone());
                }
                if sgn(&fp) * sgn(&fq) < 0 {
                    let x = R::from(&fp / &R::from(&fp - &fq));
                    out.push(p.lerp(q, &x));
                }
            }
            let mut ded: Vec<V3> = vec![];
            for p in out {
                if !ded.contains(&p) {
                    ded.push(p);
                }
            }
            poly = ded;
            if poly.is_empty() {
                return TriX::None;
            }
        }
        return match poly.len() {
            1 => TriX::Point(poly[0].clone()),
            2 => TriX::Seg(poly[0].clone(), poly[1].clone()),
            _ => TriX::Poly(poly),
        };
    }
    let mut pts: Vec<V3> = vec![];
    let mut add = |x: SegX<3>| match x {
        SegX::None => {}
        SegX::Point(p) => pts.push(p),
        SegX::Seg(p, q) => {
            pts.push(p);
            pts.push(q);
        }
    };
    for i in 0..3 {
        add(seg_tri(&s[i], &s[(i + 1) % 3], t));
        add(seg_tri(&t[i], &t[(i + 1) % 3], s));
    }
    pts.sort();
    pts.dedup();
    match pts.len() {
        0 => TriX::None,
        1 => TriX::Point(pts.pop().unwrap()),
        // all points lie on one line; lexicographic extremes are the ends
        _ => TriX::Seg(pts[0].clone(), pts[pts.len() - 1].clone()),
    }
}

pub fn close(a: &R, b: &R, tol: f64) -> bool {
    R::from(a - b).to_f64().abs() <= tol
}
