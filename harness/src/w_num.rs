//! P01 exact value semantics, P02 enclosures, P03 equality/order/hash, P04 sharing between threads.
use crate::core::*;
use crate::oracle::*;
use cgar::numeric::{ball::Ball, cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact, scalar::*};
use cgar::operations::{Abs, One, Zero};
use num_traits::ToPrimitive;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn next_up(x: f64) -> f64 {
    f64::from_bits(if x >= 0.0 { x.to_bits() + 1 } else { x.to_bits() - 1 })
}

/// hostile finite doubles
pub fn hostile_f64(r: &mut Rng, wide: bool) -> f64 {
    match r.below(if wide { 12 } else { 9 }) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -7.0]),
        1 => r.int(-20, 20) as f64,
        2 => 1.0 / (r.int(1, 50) as f64),
        3 => r.f(-1.0, 1.0),
        4 => r.f(-1e6, 1e6),
        5 => {
            let b = r.int(1, 9) as f64 / 3.0;
            let mut x = b;
            for _ in 0..r.below(3) {
                x = next_up(x);
            }
            x
        }
        6 => r.f(1.0, 2.0) * (2f64).powi(r.int(-60, 60) as i32) * if r.bool() { 1.0 } else { -1.0 },
        7 => 1.0 + (r.int(-3, 3) as f64) * f64::EPSILON,
        8 => 0.1 * r.int(-30, 30) as f64,
        9 => r.f(1.0, 2.0) * (2f64).powi(r.int(-300, 300) as i32),
        10 => *r.pick(&[f64::MIN_POSITIVE, 5e-324, -5e-324, 1e-310, 1e300, -1e300, 1e154, 1e-160]),
        _ => r.f(-1.0, 1.0) * 1e-200,
    }
}
pub fn leaf(r: &mut Rng, wide: bool) -> (LazyExact, R) {
    match r.below(7) {
        0 => {
            let i = r.int(-1000, 1000) as i32;
            (LazyExact::from_i32(i), R::from(i))
        }
        1 => {
            let (n, d) = (r.int(-50, 50) as i32, r.int(1, 50) as i32);
            (LazyExact::from_num_den(n, d), R::from((n, d)))
        }
        2 => {
            let q = R::from((r.next() as i64, (r.next() >> 2) as i64 | 1));
            (LazyExact::from_rug_rational(q.clone()), q)
        }
        3 => {
            let x = hostile_f64(r, wide);
            (LazyExact::from(x), rf(x))
        }
        4 => {
            let q = R::from((r.int(-300, 300), *r.pick(&[3i64, 7, 9, 11])));
            (CgarRational(q.clone()).ref_into(), q)
        }
        5 => {
            let x = hostile_f64(r, wide);
            (<CgarF64 as RefInto<LazyExact>>::ref_into(&CgarF64(x)), rf(x))
        }
        _ => {
            let x = hostile_f64(r, wide);
            (LazyExact::from(CgarF64(x)), rf(x))
        }
    }
}
fn ord(a: &R, b: &R) -> Ordering {
    a.cmp(b)
}
fn too_big(q: &R) -> bool {
    q.numer().significant_bits() + q.denom().significant_bits() > 30_000
}
fn h_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// one arithmetic step over a pool; returns (new value, reference, text)
fn step(c: &mut Case, pool: &mut Vec<(LazyExact, R)>) -> Option<String> {
    let i = c.rng.below(pool.len());
    let j = if c.rng.chance(1, 8) { i } else { c.rng.below(pool.len()) };
    let (a, ra) = pool[i].clone();
    let (b, rb) = pool[j].clone();
    let op = c.rng.below(12);
    let mode = c.rng.below(3);
    let (v, q, name) = match op {
        0 | 1 => (
            match mode {
                0 => &a + &b,
                1 => a.clone() + b.clone(),
                _ => {
                    let mut x = a.clone();
                    x += &b;
                    x
                }
            },
            R::from(&ra + &rb),
            "+",
        ),
        2 | 3 | 4 => (
            match mode {
                0 => &a - &b,
                1 => a.clone() - b.clone(),
                _ => {
                    let mut x = a.clone();
                    x -= &b;
                    x
                }
            },
            R::from(&ra - &rb),
            "-",
        ),
        5 | 6 => (if mode == 0 { &a * &b } else { a.clone() * b.clone() }, R::from(&ra * &rb), "*"),
        7 => {
            if sgn(&rb) == 0 {
                return None;
            }
            (if mode == 0 { &a / &b } else { a.clone() / b.clone() }, R::from(&ra / &rb), "/")
        }
        8 => (if mode == 0 { -&a } else { -a.clone() }, R::from(-&ra), "neg"),
        9 => (a.abs(), ra.clone().abs(), "abs"),
        10 => (Scalar::min(a.clone(), b.clone()), ra.clone().min(rb.clone()), "min"),
        _ => (Scalar::max(a.clone(), b.clone()), ra.clone().max(rb.clone()), "max"),
    };
    if too_big(&q) {
        return None;
    }
    let t = format!("#{} = #{} {} #{} (form {})", pool.len(), i, name, j, mode);
    pool.push((v, q));
    Some(t)
}

fn observe_value(c: &mut Case, v: &LazyExact, q: &R, what: &dyn Fn() -> String) {
    let s = sgn(q);
    match c.rng.below(9) {
        0 => {
            c.ev("sign");
            let g = v.sign() as i32;
            c.check(g == s, "sign", || format!("sign={} expected {} value {} {}", g, s, q, what()));
        }
        1 => {
            c.ev("exact");
            let e = v.exact();
            c.check(e.0 == *q, "exact-value", || format!("exact={} expected {} {}", e.0, q, what()));
        }
        2 => {
            c.ev("sign_predicates");
            let g = (Zero::is_zero(v), v.is_positive(), v.is_negative(), v.is_positive_or_zero(), v.is_negative_or_zero());
            let e = (s == 0, s > 0, s < 0, s >= 0, s <= 0);
            c.check(g == e, "sign-predicates", || format!("{:?} expected {:?} value {} {}", g, e, q, what()));
        }
        3 => {
            c.ev("cmp_zero");
            let g = v.cmp_zero();
            c.check(g == 0.cmp(&0i32).then(s.cmp(&0)), "cmp-zero", || format!("{:?} value {} {}", g, q, what()));
        }
        4 => {
            c.ev("convert_rational");
            let a: CgarRational = v.ref_into();
            let b = CgarRational::from(v.clone());
            let d = <CgarRational as FromRef<LazyExact>>::from_ref(v);
            let e = CgarRational::from(v);
            c.check(a.0 == *q && b.0 == *q && d.0 == *q && e.0 == *q, "convert-rational", || format!("{} expected {} {}", a.0, q, what()));
        }
        5 => {
            c.ev("force_exact");
            v.force_exact();
            let ok = v.has_exact() && v.exact().0 == *q;
            c.check(ok, "force-exact", || format!("value {} {}", q, what()));
        }
        6 => {
            if let Some(f) = v.to_f64() {
                c.ev("to_f64");
                // truncation towards zero: never farther than one ulp
                let ok = !f.is_finite() || close_ulp(f, q);
                c.check(ok, "to-f64", || format!("{} expected {} {}", f, q, what()));
            }
        }
        7 => {
            c.ev("as_f64_if_exact");
            if let Some(f) = v.as_f64_if_exact() {
                c.check(f.is_finite() && rf(f) == *q, "as-f64-if-exact", || format!("{} expected {} {}", f, q, what()));
            }
        }
        _ => {
            c.ev("debug_format");
            let _ = format!("{:?}", v);
            let g = v.sign() as i32;
            c.check(g == s, "sign", || format!("sign={} expected {} value {} {}", g, s, q, what()));
        }
    }
}
fn close_ulp(f: f64, q: &R) -> bool {
    let lo = rf(f) ;
    let e = R::from(&lo - q).abs();
    let ulp = if f == 0.0 { rf(f64::MIN_POSITIVE) } else { rf((next_up(f.abs()) - f.abs()).max(5e-324)) };
    e <= ulp
}

fn observe_pair(c: &mut Case, a: &(LazyExact, R), b: &(LazyExact, R), what: &dyn Fn() -> String) {
    let o = ord(&a.1, &b.1);
    match c.rng.below(6) {
        0 => {
            c.ev("cmp_ref");
            let g = LazyExact::cmp_ref(&a.0, &b.0);
            c.check(g == o, "cmp-ref", || format!("{:?} expected {:?}: {} vs {} {}", g, o, a.1, b.1, what()));
        }
        1 => {
            c.ev("partial_cmp");
            let g = a.0.partial_cmp(&b.0);
            c.check(g == Some(o), "partial-cmp", || format!("{:?} expected {:?}: {} vs {} {}", g, o, a.1, b.1, what()));
        }
        2 => {
            c.ev("eq");
            let g = a.0 == b.0;
            c.check(g == (o == Ordering::Equal), "eq", || format!("{} : {} vs {} {}", g, a.1, b.1, what()));
        }
        3 => {
            c.ev("cmp_exact");
            let g = LazyExact::cmp_exact(&a.0, &b.0) as i32;
            c.check(g == o as i32, "cmp-exact", || format!("{} expected {:?}: {} vs {} {}", g, o, a.1, b.1, what()));
        }
        4 => {
            c.ev("cmp_fast");
            if let Some(g) = a.0.cmp_fast(&b.0) {
                c.check(g == o, "cmp-fast", || format!("{:?} expected {:?}: {} vs {} {}", g, o, a.1, b.1, what()));
            }
        }
        _ => {
            c.ev("operators_lt_ge");
            let g = (a.0 < b.0, a.0 <= b.0, a.0 > b.0, a.0 >= b.0);
            let e = (a.1 < b.1, a.1 <= b.1, a.1 > b.1, a.1 >= b.1);
            c.check(g == e, "operators", || format!("{:?} expected {:?}: {} vs {} {}", g, e, a.1, b.1, what()));
        }
    }
    if o == Ordering::Equal {
        c.ev("equal_pairs");
    }
}

/// random expression graphs, queries interleaved with construction
fn p01_expr(c: &mut Case) {
    let wide = c.rng.chance(1, 4);
    let mut pool: Vec<(LazyExact, R)> = (0..c.rng.below(4) + 2).map(|_| leaf(&mut c.rng, wide)).collect();
    let mut txt = String::new();
    for (k, (_, q)) in pool.iter().enumerate() {
        txt += &format!("#{}={}; ", k, q);
    }
    let n = 10 + c.rng.below(30);
    let mut h = 0u64;
    for _ in 0..n {
        if let Some(t) = step(c, &mut pool) {
            h = mix(h, hash_str(&t));
            txt += &t;
            txt += "; ";
        }
        for _ in 0..c.rng.below(3) {
            let k = c.rng.below(pool.len());
            let x = pool[k].clone();
            let t = txt.clone();
            observe_value(c, &x.0, &x.1, &|| format!("node #{} of {}", k, t));
        }
        if c.rng.chance(1, 2) {
            let (k, l) = (c.rng.below(pool.len()), c.rng.below(pool.len()));
            let (x, y) = (pool[k].clone(), pool[l].clone());
            let t = txt.clone();
            observe_pair(c, &x, &y, &|| format!("nodes #{} #{} of {}", k, l, t));
        }
        if c.failed() {
            return;
        }
    }
    // everything again at the end: nothing built later may have changed it
    for k in 0..pool.len() {
        let e = pool[k].0.exact();
        let (s, q) = (pool[k].0.sign() as i32, pool[k].1.clone());
        let t = &txt;
        c.ev("final_recheck");
        c.check(e.0 == q && s == sgn(&q), "final-value", || format!("node #{}: {} sign {} expected {} in {}", k, e.0, s, q, t));
    }
    c.nontrivial(mix(h, hash_str(&txt)));
    c.sample("expression", || txt.clone());
}

/// values that cancel to zero or almost zero through different formulas
fn p01_cancel(c: &mut Case) {
    let r = &mut c.rng;
    let (a, qa) = leaf(r, false);
    let (b, qb) = leaf(r, false);
    let (d, qd) = leaf(r, false);
    // identities: value exactly zero
    let k = r.below(9);
    let (z, name): (LazyExact, &str) = match k {
        0 => (&(&(&a + &b) * &(&a - &b)) - &(&(&a * &a) - &(&b * &b)), "(a+b)(a-b)-(a²-b²)"),
        1 => (&(&a + &(&b + &d)) - &(&(&a + &b) + &d), "assoc +"),
        2 => (&(&a * &(&b + &d)) - &(&(&a * &b) + &(&a * &d)), "distrib"),
        3 => {
            if sgn(&qb) == 0 {
                return;
            }
            (&(&(&a / &b) * &b) - &a, "a/b*b-a")
        }
        4 => (&(&a - &b) + &(&b - &a), "(a-b)+(b-a)"),
        5 => {
            if sgn(&qb) == 0 || sgn(&qd) == 0 {
                return;
            }
            (&(&a / &b) / &d - &a / &(&b * &d), "a/b/d-a/(bd)")
        }
        6 => (&(&(&a - &d) * &(&b - &d)) - &(&(&(&a * &b) - &(&d * &(&a + &b))) + &(&d * &d)), "(a-d)(b-d) expanded"),
        7 => {
            let t = LazyExact::from_num_den(1, 3);
            (&(&t * &a) + &(&(&t * &a) + &(&t * &a)) - a.clone(), "a/3*3-a")
        }
        _ => (&(-&a) + &a, "-a+a"),
    };
    let desc = format!("{} with a={} b={} d={}", name, qa, qb, qd);
    c.ev("exact_zero_expressions");
    c.nontrivial(hash_str(&desc));
    c.sample("zero identity", || desc.clone());
    c.check(z.sign() == 0, "zero-sign", || format!("sign {} of {}", z.sign(), desc));
    c.check(Zero::is_zero(&z) && !z.is_positive() && !z.is_negative(), "zero-predicates", || desc.clone());
    // now perturb by something tiny on either side
    let e = c.rng.int(-200, -20) as i32;
    let tiny = if c.rng.bool() { rf(2f64.powi(e)) } else { R::from((1, 3)) * rf(2f64.powi(e)) };
    let tiny = if c.rng.bool() { -tiny } else { tiny };
    let le = LazyExact::of(&tiny);
    let y = match c.rng.below(3) {
        0 => &z + &le,
        1 => &le - &z,
        _ => -&(&z - &le),
    };
    c.ev("near_zero_expressions");
    let s = y.sign() as i32;
    c.check(s == sgn(&tiny), "near-zero-sign", || format!("sign {} of {} ± tiny {}", s, desc, tiny));
    let o = LazyExact::cmp_ref(&(&a + &le), &a);
    c.check(o == ord(&R::from(&qa + &tiny), &qa), "near-equal-cmp", || format!("{:?} a+{} vs a={}", o, tiny, qa));
    let o = (&a + &le).partial_cmp(&a);
    c.check(o == Some(ord(&R::from(&qa + &tiny), &qa)), "near-equal-partial-cmp", || format!("{:?} a+{} vs a={}", o, tiny, qa));
    let mm = Scalar::max(&a + &le, a.clone()).exact().0;
    let mi = Scalar::min(&a + &le, a.clone()).exact().0;
    let (x1, x2) = (R::from(&qa + &tiny), qa.clone());
    c.check(mm == x1.clone().max(x2.clone()) && mi == x1.min(x2), "near-equal-minmax", || format!("min/max of a+{} and a={}", tiny, qa));
    // non-dyadic leaf against the doubles next to it
    let q = R::from((c.rng.int(1, 200), *c.rng.pick(&[3i64, 7, 11, 13, 49, 101])));
    let f = q.to_f64();
    let lx = LazyExact::from_rug_rational(q.clone());
    for g in [f, next_up(f), f64::from_bits(f.to_bits() - 1)] {
        let lg = LazyExact::from_f64(g);
        let d = &lx - &lg;
        let ex = R::from(&q - &rf(g));
        let s = d.sign() as i32;
        c.ev("rational_vs_neighbour_double");
        c.check(s == sgn(&ex), "neighbour-sign", || format!("sign({} - {:e}) = {}", q, g, s));
        let o = LazyExact::cmp_ref(&lx, &lg);
        c.check(o == ord(&q, &rf(g)), "neighbour-cmp", || format!("{:?} {} vs {:e}", o, q, g));
        let o = lx.partial_cmp(&lg);
        c.check(o == Some(ord(&q, &rf(g))), "neighbour-partial-cmp", || format!("{:?} {} vs {:e}", o, q, g));
        // subtract the double difference again: magnifies a lost rounding
        let dd = ex.to_f64();
        for k in [-1i64, 0, 1] {
            let w = f64::from_bits((dd.to_bits() as i64 + k) as u64);
            if !w.is_finite() {
                continue;
            }
            let x = &d - &LazyExact::from_f64(w);
            let s = x.sign() as i32;
            let t = sgn(&R::from(&ex - &rf(w)));
            c.ev("second_difference");
            c.check(s == t, "second-difference-sign", || format!("sign(({} - {:e}) - {:e}) = {} expected {}", q, g, w, s, t));
        }
        // and through a quotient
        let den = c.rng.int(3, 99);
        let x = &LazyExact::from_f64(1.0) / &LazyExact::from_i32(den as i32);
        let v = 1.0 / den as f64;
        let y = &x - &LazyExact::from_f64(v);
        let ex2 = R::from((1, den)) - rf(v);
        let w = ex2.to_f64();
        let z = &y - &LazyExact::from_f64(w);
        let t = sgn(&(ex2.clone() - rf(w)));
        let s = z.sign() as i32;
        c.ev("quotient_residual");
        c.check(s == t, "quotient-residual-sign", || format!("sign((1/{} - {:e}) - {:e}) = {} expected {}", den, v, w, s, t));
    }
}

/// long chains: beyond the depth at which graphs are folded
fn p01_deep(c: &mut Case) {
    let n = 900 + c.rng.below(700);
    let style = c.rng.below(3);
    let (mut v, mut q) = leaf(&mut c.rng, false);
    let step: Vec<(LazyExact, R)> = (0..4)
        .map(|_| {
            let x = c.rng.f(-4.0, 4.0);
            if c.rng.chance(1, 3) {
                let t = R::from((c.rng.int(-20, 20), 7));
                (LazyExact::from_rug_rational(t.clone()), t)
            } else {
                (LazyExact::from_f64(x), rf(x))
            }
        })
        .collect();
    for i in 0..n {
        let (s, qs) = &step[i % 4];
        match style {
            0 => {
                v = &v + s;
                q += qs;
            }
            1 => {
                if i % 2 == 0 {
                    v = &v - s;
                    q -= qs;
                } else {
                    v = -&v;
                    q = -q;
                }
            }
            _ => {
                if i % 300 == 299 {
                    v = &v * s;
                    q *= qs;
                } else {
                    v += s;
                    q += qs;
                }
            }
        }
        if i % 257 == 0 {
            let g = v.sign() as i32;
            c.ev("deep_sign");
            c.check(g == sgn(&q), "deep-sign", || format!("after {} steps style {} sign {} value {}", i, style, g, q.to_f64()));
        }
    }
    c.ev("deep_chains");
    c.nontrivial(mix(hash_str(&q.to_string()), n as u64));
    c.sample("deep", || format!("{} steps style {} value {}", n, style, q.to_f64()));
    let g = v.sign() as i32;
    let e = v.exact();
    c.check(g == sgn(&q) && e.0 == q, "deep-value", || format!("after {} steps style {} sign {} exact {} value {}", n, style, g, e.0.to_f64(), q.to_f64()));
    let z = &v - &LazyExact::from_rug_rational(q.clone());
    c.check(z.sign() == 0, "deep-zero", || format!("after {} steps style {}", n, style));
}

/// plain rationals and the float scalar
fn p01_plain(c: &mut Case) {
    let r = &mut c.rng;
    let (_, qa) = leaf(r, false);
    let (_, qb) = leaf(r, false);
    let (a, b) = (CgarRational(qa.clone()), CgarRational(qb.clone()));
    let mut pa = a.clone();
    pa += &b;
    let mut ma = a.clone();
    ma -= &b;
    let ok = (&a + &b).0 == R::from(&qa + &qb)
        && (a.clone() + b.clone()).0 == R::from(&qa + &qb)
        && (&a - &b).0 == R::from(&qa - &qb)
        && (a.clone() - b.clone()).0 == R::from(&qa - &qb)
        && (&a * &b).0 == R::from(&qa * &qb)
        && (a.clone() * b.clone()).0 == R::from(&qa * &qb)
        && (-&a).0 == R::from(-&qa)
        && (-a.clone()).0 == R::from(-&qa)
        && a.abs().0 == qa.clone().abs()
        && pa.0 == R::from(&qa + &qb)
        && ma.0 == R::from(&qa - &qb)
        && (sgn(&qb) == 0 || ((&a / &b).0 == R::from(&qa / &qb) && (a.clone() / b.clone()).0 == R::from(&qa / &qb)));
    c.ev("rational_ops");
    c.check(ok, "rational-ops", || format!("a={} b={}", qa, qb));
    let o = ord(&qa, &qb);
    let ok = CgarRational::cmp_ref(&a, &b) == o
        && a.partial_cmp(&b) == Some(o)
        && (a == b) == (o == Ordering::Equal)
        && a.sign() as i32 == sgn(&qa)
        && Scalar::min(a.clone(), b.clone()).0 == qa.clone().min(qb.clone())
        && Scalar::max(a.clone(), b.clone()).0 == qa.clone().max(qb.clone())
        && (Zero::is_zero(&a), a.is_positive(), a.is_negative(), a.is_positive_or_zero(), a.is_negative_or_zero())
            == (sgn(&qa) == 0, sgn(&qa) > 0, sgn(&qa) < 0, sgn(&qa) >= 0, sgn(&qa) <= 0)
        && a.approx_eq(&b) == (o == Ordering::Equal)
        && a.approx_eq(&a);
    c.check(ok, "rational-cmp", || format!("a={} b={}", qa, qb));
    c.check(CgarRational::zero().0 == 0 && CgarRational::one().0 == 1 && LazyExact::zero().exact().0 == 0 && LazyExact::one().exact().0 == 1, "constants", || String::new());
    c.nontrivial(mix(hash_str(&qa.to_string()), hash_str(&qb.to_string())));
    c.sample("rational pair", || format!("{} , {}", qa, qb));
    // the float scalar computes with IEEE doubles and is tolerant only within 1e-10
    let (x, y) = (hostile_f64(&mut c.rng, false), hostile_f64(&mut c.rng, false));
    let (fx, fy) = (CgarF64(x), CgarF64(y));
    let mut px = fx.clone();
    px += &fy;
    let mut mx = fx.clone();
    mx -= &fy;
    let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    let ok = same((&fx + &fy).0, x + y)
        && same((&fx - &fy).0, x - y)
        && same((&fx * &fy).0, x * y)
        && same((&fx / &fy).0, x / y)
        && same((fx.clone() + fy.clone()).0, x + y)
        && same((fx.clone() - fy.clone()).0, x - y)
        && same((fx.clone() * fy.clone()).0, x * y)
        && same((fx.clone() / fy.clone()).0, x / y)
        && same((-&fx).0, -x)
        && same(fx.abs().0, x.abs())
        && same(px.0, x + y)
        && same(mx.0, x - y);
    c.ev("float_ops");
    c.check(ok, "float-ops", || format!("x={:e} y={:e}", x, y));
    let s = fx.sign() as i32;
    let tol = 1.01e-10;
    let e = if x > tol { Some(1) } else if x < -tol { Some(-1) } else if x.abs() < 0.99e-10 { Some(0) } else { None };
    if let Some(e) = e {
        let ok = s == e && Zero::is_zero(&fx) == (e == 0) && fx.is_positive() == (e > 0) && fx.is_negative() == (e < 0) && fx.is_positive_or_zero() == (e >= 0) && fx.is_negative_or_zero() == (e <= 0);
        c.check(ok, "float-sign", || format!("x={:e} sign {}", x, s));
    }
    let d = x - y;
    if d.abs() > tol || d.abs() < 0.99e-10 {
        let e = if d > tol { Ordering::Greater } else if d < -tol { Ordering::Less } else { Ordering::Equal };
        let g = fx.partial_cmp(&fy);
        c.check(g == Some(e), "float-cmp", || format!("{:e} vs {:e}: {:?}", x, y, g));
        c.check(fx.approx_eq(&fy) == (e == Ordering::Equal), "float-approx-eq", || format!("{:e} vs {:e}", x, y));
    }
    // conversions keep the value
    let q = rf(x);
    let l: LazyExact = fx.ref_into();
    let ra: CgarRational = fx.ref_into();
    let lz = <LazyExact as FromRef<CgarF64>>::from_ref(&fx);
    let rz = <CgarRational as FromRef<CgarF64>>::from_ref(&fx);
    let lr = <LazyExact as FromRef<CgarRational>>::from_ref(&a);
    c.ev("conversions");
    let ok = l.exact().0 == q && ra.0 == q && lz.exact().0 == q && rz.0 == q && lr.exact().0 == qa && CgarRational::from(x).0 == q && CgarRational::from(fx.clone()).0 == q && LazyExact::from(a.clone()).exact().0 == qa;
    c.check(ok, "conversions", || format!("x={:e} a={}", x, qa));
    let (n, d) = (c.rng.int(-999, 999) as i32, c.rng.int(1, 999) as i32);
    let ok = CgarRational::from_num_den(n, d).0 == R::from((n, d)) && LazyExact::from_num_den(n, d).exact().0 == R::from((n, d)) && (CgarF64::from_num_den(n, d).0 - n as f64 / d as f64).abs() < 1e-12 && CgarRational::from(n).0 == n && LazyExact::from(n).exact().0 == n && CgarF64::from(n).0 == n as f64;
    c.check(ok, "from-num-den", || format!("{}/{}", n, d));
}

// every conversion between the three numbers, rug's and the primitive ones
fn p01_convert(c: &mut Case) {
    let (_, q) = leaf(&mut c.rng, false);
    // magnitudes a double holds comfortably
    if sgn(&q) != 0 && (q.clone().abs() > rf(1e200) || q.clone().abs() < rf(1e-200)) {
        c.ev("convert_skipped");
        return;
    }
    let ra = CgarRational(q.clone());
    let lz = match c.rng.below(3) {
        0 => LazyExact::from(q.clone()),
        1 => LazyExact::from(ra.clone()) + LazyExact::from(0),
        _ => LazyExact::from(R::from(&q * 3i32)) / LazyExact::from(3),
    };
    if c.rng.bool() {
        lz.force_exact();
    }
    let what = || q.to_string();
    let same_r = CgarRational::from(q.clone()).0 == q
        && CgarRational::from(lz.clone()).0 == q
        && CgarRational::from(&lz).0 == q
        && <CgarRational as FromRef<LazyExact>>::from_ref(&lz).0 == q
        && <CgarRational as FromRef<CgarRational>>::from_ref(&ra).0 == q
        && RefInto::<CgarRational>::ref_into(&ra).0 == q
        && RefInto::<CgarRational>::ref_into(&lz).0 == q;
    c.check(same_r, "to-rational", what);
    let same_l = RefInto::<LazyExact>::ref_into(&ra).exact().0 == q
        && RefInto::<LazyExact>::ref_into(&lz).exact().0 == q
        && <LazyExact as FromRef<LazyExact>>::from_ref(&lz).exact().0 == q
        && <LazyExact as FromRef<CgarRational>>::from_ref(&ra).exact().0 == q
        && LazyExact::from(q.clone()).exact().0 == q;
    c.check(same_l, "to-lazy", what);
    // doubles: the nearest or next to it from a rational, close for a lazily computed one
    let rel = |f: f64, tol: f64| if sgn(&q) == 0 { f == 0.0 } else { f.is_finite() && (R::from(&rf(f) - &q) / &q).abs() < rf(tol) };
    let direct = [CgarF64::from(q.clone()).0, CgarF64::from(ra.clone()).0, <CgarF64 as FromRef<CgarRational>>::from_ref(&ra).0, RefInto::<CgarF64>::ref_into(&ra).0, ra.to_f64().unwrap_or(f64::NAN), lz.to_f64().unwrap_or(f64::NAN)];
    c.check(direct.iter().all(|f| rel(*f, 2.3e-16)), "rational-to-double", || format!("{} {:?}", q, direct));
    let lazy = [CgarF64::from(lz.clone()).0, CgarF64::from(&lz).0, <CgarF64 as FromRef<LazyExact>>::from_ref(&lz).0, RefInto::<CgarF64>::ref_into(&lz).0];
    c.check(lazy.iter().all(|f| rel(*f, 1e-14)), "lazy-to-double", || format!("{} {:?}", q, lazy));
    let f = direct[0];
    let (fx, back) = (CgarF64(f), f64::from(CgarF64(f)));
    c.check(back == f && <CgarF64 as FromRef<CgarF64>>::from_ref(&fx).0 == f && RefInto::<CgarF64>::ref_into(&fx).0 == f && fx.to_f64() == Some(f), "double-to-double", what);
    c.check(CgarRational::from(rug::Float::with_val(53, f)).0 == rf(f), "from-rug-float", what);
    // integers: truncation, where every integer of that size is a double
    if q.clone().abs() < (1i64 << 50) {
        let t = q.clone().trunc().numer().to_i64().unwrap_or(i64::MAX);
        let got = [ra.to_i64(), lz.to_i64()];
        c.check(got.iter().all(|g| *g == Some(t)), "to-i64", || format!("{} {:?}", q, got));
        if sgn(&q) >= 0 {
            let got = [ra.to_u64(), lz.to_u64()];
            c.check(got.iter().all(|g| *g == Some(t as u64)), "to-u64", || format!("{} {:?}", q, got));
        }
        c.check(fx.to_i64() == Some(f as i64) && fx.to_u64() == Some(f as u64), "double-to-int", what);
        c.ev("to_integer");
    }
    if sgn(&q) == 0 || (q.clone().abs() > rf(1e-35) && q.clone().abs() < rf(1e35)) {
        let got = [ra.to_f32(), lz.to_f32(), fx.to_f32()];
        c.check(got.iter().all(|g| g.map_or(false, |g| rel(g as f64, 1.3e-7))), "to-f32", || format!("{} {:?}", q, got));
    }
    // thresholds are small, not negative, and the squares are squares
    fn thresholds<T: Sc + Scalar>(c: &mut Case) {
        let pairs = [(T::tolerance(), T::tolerance_squared()), (T::query_tolerance(), T::query_tolerance_squared()), (T::point_merge_threshold(), T::point_merge_threshold_squared())];
        for (i, (t, s)) in pairs.iter().enumerate() {
            let (t, s) = (t.r(), s.r());
            let want = R::from(&t * &t);
            let ok = sgn(&t) >= 0 && t < rf(1e-3) && if T::EXACT { s == want } else { R::from(&s - &want).abs() <= want * rf(1e-15) };
            c.check(ok, "threshold", || format!("{} {} {} {}", T::NAME, i, t, s));
        }
        for t in [T::point_merge_threshold(), T::edge_degeneracy_threshold(), T::area_degeneracy_threshold(), T::query_tolerance()] {
            c.check(sgn(&t.r()) > 0 && t.r() < rf(1e-3), "threshold-positive", || T::NAME.to_string());
        }
        c.check(!T::EXACT || sgn(&T::tolerance().r()) == 0, "exact-tolerance", || T::NAME.to_string());
        c.check(sgn(&T::default().r()) == 0 && sgn(&T::zero().r()) == 0 && T::one().r() == 1, "identities", || T::NAME.to_string());
    }
    thresholds::<CgarF64>(c);
    thresholds::<CgarRational>(c);
    thresholds::<LazyExact>(c);
    c.ev("converted");
    c.nontrivial(hash_str(&q.to_string()));
    c.sample("number", what);
}

// ------------------------------------------------------------------ P02
fn ball_contains(b: &Ball, q: &R) -> Option<bool> {
    if !b.m.is_finite() || !b.r.is_finite() {
        return None;
    }
    let e = R::from(q - &rf(b.m)).abs();
    Some(e <= rf(b.r))
}
fn enclosure_checks(c: &mut Case, v: &LazyExact, q: &R, what: &dyn Fn() -> String) {
    let b = *v.ball_ref();
    match ball_contains(&b, q) {
        None => c.ev("ball_unbounded"),
        Some(ok) => {
            c.ev("ball_contains");
            if b.r > 0.0 {
                c.ev("ball_nontrivial");
            }
            c.check(ok, "ball", || format!("ball m={:e} r={:e} excludes {} {}", b.m, b.r, q, what()));
        }
    }
    if let Some(s) = b.sign_if_certain() {
        c.ev("certain_sign");
        c.check(s as i32 == sgn(q), "certain-sign", || format!("ball m={:e} r={:e} says {} value {} {}", b.m, b.r, s, q, what()));
    } else {
        c.ev("uncertain_sign");
    }
    if let Some((lo, hi)) = v.double_interval() {
        if !lo.is_nan() && !hi.is_nan() {
            c.ev("interval_contains");
            let ok = (lo.is_infinite() || rf(lo) <= *q) && (hi.is_infinite() || rf(hi) >= *q);
            c.check(ok && lo <= hi, "interval", || format!("[{:e},{:e}] excludes {} {}", lo, hi, q, what()));
        }
    }
    if let Some(f) = v.as_f64_fast() {
        if f.is_finite() && sgn(q) != 0 && q.clone().abs() > rf(1e-290) {
            c.ev("fast_double");
            let rel = (R::from(&rf(f) - q) / q).abs();
            c.check(rel < rf(1e-9), "fast-double", || format!("{:e} for {} {}", f, q, what()));
        }
    }
    let m = v.ball_center_f64();
    c.check(m == b.m || (m.is_nan() && b.m.is_nan()), "center", || format!("{:e} vs {:e}", m, b.m));
}
fn p02_expr(c: &mut Case) {
    let wide = c.rng.chance(1, 3);
    let mut pool: Vec<(LazyExact, R)> = (0..c.rng.below(4) + 2).map(|_| leaf(&mut c.rng, wide)).collect();
    let mut txt: String = pool.iter().enumerate().map(|(k, (_, q))| format!("#{}={}; ", k, q)).collect();
    for _ in 0..5 + c.rng.below(25) {
        if let Some(t) = step(c, &mut pool) {
            txt += &t;
            txt += "; ";
        }
        if c.rng.chance(1, 5) {
            let k = c.rng.below(pool.len());
            pool[k].0.force_exact();
        }
    }
    for k in 0..pool.len() {
        let (v, q) = pool[k].clone();
        let t = &txt;
        enclosure_checks(c, &v, &q, &|| format!("node #{} of {}", k, t));
    }
    c.nontrivial(hash_str(&txt));
    c.sample("expression", || txt.clone());
}
/// The approximate value of every node is that of its operands' approximate values up to rounding
fn p02_approx(c: &mut Case) {
    let deep = c.rng.chance(1, 8);
    let mut pool: Vec<(LazyExact, R)> = (0..3).map(|_| leaf(&mut c.rng, false)).collect();
    if deep {
        pool = (0..3).map(|_| { let q = rf(c.rng.int(-64, 64) as f64 / 8.0); (recompute(&mut c.rng, &q), q) }).collect();
    }
    let steps = if deep { 1100 + c.rng.below(200) } else { 5 + c.rng.below(30) };
    let mut txt: String = pool.iter().enumerate().map(|(k, (_, q))| format!("#{}={}; ", k, q)).collect();
    let err = |v: &LazyExact, q: &R| { let f = v.approx().0; if f.is_finite() { Some(R::from(&rf(f) - q).abs()) } else { None } };
    for k in 0..steps {
        let i = if deep { pool.len() - 1 } else { c.rng.below(pool.len()) };
        let j = if deep { c.rng.below(3) } else { c.rng.below(pool.len()) };
        let (a, qa) = pool[i].clone();
        let (b, qb) = pool[j].clone();
        let op = if deep { *c.rng.pick(&[0, 1, 4, 4]) } else { c.rng.below(5) };
        if op == 3 && sgn(&qb) == 0 { continue; }
        let assign = c.rng.chance(1, 4);
        let (v, q) = match op {
            0 if assign => { let mut x = a.clone(); x += &b; (x, R::from(&qa + &qb)) }
            1 if assign => { let mut x = a.clone(); x -= &b; (x, R::from(&qa - &qb)) }
            0 => (&a + &b, R::from(&qa + &qb)),
            1 => (&a - &b, R::from(&qa - &qb)),
            2 => (&a * &b, R::from(&qa * &qb)),
            3 => (&a / &b, R::from(&qa / &qb)),
            _ => (-&a, R::from(-&qa)),
        };
        if too_big(&q) { continue; }
        txt += &format!("#{}=#{}{}#{}; ", pool.len(), i, ["+", "-", "*", "/", "neg"][op], j);
        if let (Some(ea), Some(eb)) = (err(&a, &qa), err(&b, &qb)) {
            let (ma, mb, mq) = (qa.clone().abs(), qb.clone().abs(), q.clone().abs());
            let spread = match op {
                0 | 1 => Some(ea + eb),
                2 => Some(ma * &eb + R::from(&mb * &ea) + R::from(&ea * &eb)),
                3 if mb > R::from(4 * &eb) => Some((ea + R::from(&mq * &eb)) / R::from(&mb - &eb)),
                3 => None,
                _ => Some(ea),
            };
            if let Some(sp) = spread {
                if mq < rf(1e290) && (sgn(&q) == 0 || mq > rf(1e-280)) {
                    let tol = R::from(2 * &sp) + mq * rf(2f64.powi(-50)) + rf(1e-290);
                    let f = v.approx().0;
                    c.ev("approx_value");
                    if k > 1024 { c.ev("approx_deep"); }
                    c.check(f.is_finite() && R::from(&rf(f) - &q).abs() <= tol, "approx", || format!("{:e} for {} ({}), step {} of {}", f, q.to_f64(), ["+", "-", "*", "/", "neg"][op], k, if deep { "deep".to_string() } else { txt.clone() }));
                    let g: CgarF64 = RefInto::<CgarF64>::ref_into(&v);
                    c.check(g.0 == f || g.0 == v.approx().0, "approx-into", || format!("{:e} {:e}", f, g.0));
                }
            }
        }
        if !deep && c.rng.chance(1, 6) { v.force_exact(); }
        pool.push((v, q));
        if c.failed() { return; }
    }
    c.nontrivial(hash_str(&txt));
}
/// Ball arithmetic on its own, with points chosen inside (and on the rim of) the operands
fn p02_ball(c: &mut Case) {
    let wide = c.rng.chance(1, 6);
    let mk = |r: &mut Rng| {
        let m = hostile_f64(r, wide);
        let rad = match r.below(5) {
            0 => 0.0,
            1 => m.abs() * 1e-16,
            2 => m.abs() * r.unit(),
            3 => m.abs() * 1e-3,
            _ => r.unit() * 1e-9,
        };
        let t = match r.below(4) {
            0 => rf(-1.0),
            1 => rf(1.0),
            2 => rf(0.0),
            _ => rf(r.f(-1.0, 1.0)),
        };
        (Ball { m, r: rad }, rf(m) + rf(rad) * t)
    };
    let (a, x) = mk(&mut c.rng);
    let (b, y) = mk(&mut c.rng);
    let mut todo: Vec<(&str, Ball, R)> = vec![("add", a.add(b), R::from(&x + &y)), ("sub", a.sub(b), R::from(&x - &y)), ("mul", a.mul(b), R::from(&x * &y)), ("neg", a.neg(), R::from(-&x))];
    if sgn(&y) != 0 {
        todo.push(("div", a.div(b), R::from(&x / &y)));
    }
    c.nontrivial(mix(a.m.to_bits() ^ a.r.to_bits(), b.m.to_bits() ^ b.r.to_bits().rotate_left(7)));
    c.sample("balls", || format!("{:?} {:?}", a, b));
    for (n, g, q) in todo {
        match ball_contains(&g, &q) {
            None => c.ev("ball_unbounded"),
            Some(ok) => {
                c.ev("ball_op_contains");
                // radii are sums of rounded terms: allow the last bits of the radius on the very rim
                let slack = rf(g.r) * rf(4.0 * f64::EPSILON) + rf(2e-323);
                let ok = ok || R::from(&q - &rf(g.m)).abs() <= rf(g.r) + slack;
                c.check(ok, &format!("ball-{}", n), || format!("{} of {:?} and {:?} -> {:?} excludes {} (operands {} {})", n, a, b, g, q, x, y));
            }
        }
        if let Some(s) = g.sign_if_certain() {
            c.ev("ball_op_sign");
            c.check(s as i32 == sgn(&q), &format!("ball-{}-sign", n), || format!("{} of {:?} and {:?} -> {:?} value {}", n, a, b, g, q));
        }
    }
}
/// interval of plain rationals and floats
fn p02_plain(c: &mut Case) {
    let (_, q) = leaf(&mut c.rng, true);
    let (_, p) = leaf(&mut c.rng, false);
    let q = if c.rng.bool() { q } else { R::from(&q * &p) };
    let a = CgarRational(q.clone());
    if let Some((lo, hi)) = a.double_interval() {
        c.ev("rational_interval");
        let ok = (lo.is_infinite() || rf(lo) <= q) && (hi.is_infinite() || rf(hi) >= q);
        c.check(ok, "rational-interval", || format!("[{:e},{:e}] excludes {}", lo, hi, q));
    }
    if let Some(f) = a.as_f64_fast() {
        if f.is_finite() && q.clone().abs() > rf(1e-290) {
            c.ev("rational_fast");
            let rel = (R::from(&rf(f) - &q) / &q).abs();
            c.check(rel < rf(1e-12), "rational-fast", || format!("{:e} for {}", f, q));
        }
    }
    let l = LazyExact::from_rug_rational(q.clone());
    enclosure_checks(c, &l, &q, &|| "leaf".into());
    let x = hostile_f64(&mut c.rng, true);
    let f = CgarF64(x);
    if let Some((lo, hi)) = f.double_interval() {
        c.ev("float_interval");
        c.check(lo <= x && x <= hi, "float-interval", || format!("[{:e},{:e}] excludes {:e}", lo, hi, x));
    }
    c.check(f.as_f64_fast() == Some(x) && f.ball_center_f64().to_bits() == x.to_bits(), "float-fast", || format!("{:e}", x));
    c.nontrivial(hash_str(&q.to_string()));
    c.sample("rational", || q.to_string());
}

// ------------------------------------------------------------------ P03
use cgar::geometry::{Point2, Point3, Segment2, Segment3, Vector2, Vector3, spatial_element::SpatialElement};

fn recompute(r: &mut Rng, q: &R) -> LazyExact {
    // the same number through a different history
    let (b, rb) = leaf(r, false);
    let base = if sgn(q) == 0 && r.bool() { LazyExact::from_f64(-0.0) } else { LazyExact::of(q) };
    match r.below(7) {
        0 => base,
        1 => &(&base + &b) - &b,
        2 => {
            if sgn(&rb) == 0 { base } else { &(&base * &b) / &b }
        }
        3 => LazyExact::from_rug_rational(q.clone()),
        4 => -&(-&base),
        5 => {
            let x = &base + &b;
            x.force_exact();
            let y = &x - &b;
            if r.bool() {
                y.force_exact();
            }
            y
        }
        _ => {
            let half = LazyExact::from_f64(0.5);
            &(&base * &half) + &(&half * &base)
        }
    }
}
fn p03_scalar(c: &mut Case) {
    // a small set of values, each made several ways; all observations must be those of the numbers
    let mut qs: Vec<R> = (0..3).map(|_| leaf(&mut c.rng, false).1).collect();
    if c.rng.chance(1, 4) {
        qs[1] = R::new();
    }
    let t = qs[0].clone();
    qs.push(t.clone() + rf(2f64.powi(c.rng.int(-80, -10) as i32)));
    // neighbours no double can tell apart: same denominator, same numerator, opposite, reciprocal
    let (n, d) = t.clone().into_numer_denom();
    let one = rug::Integer::from(1);
    let near = match c.rng.below(6) {
        0 => R::from((n + (one << c.rng.below(3) as u32), d)),
        1 => R::from((n, d + one)),
        2 => -t,
        3 if n != 0 => R::from((d, n)),
        4 => {
            let big = rug::Integer::from(c.rng.int(1, 1 << 40)) << (60 + c.rng.below(80)) as u32;
            qs[0] = R::from((big.clone() + n.clone(), d.clone()));
            R::from((big + n + one, d))
        }
        _ => qs[2].clone() / 3,
    };
    qs.push(near);
    let mut xs: Vec<(LazyExact, R)> = vec![];
    for q in &qs {
        for _ in 0..3 {
            let v = recompute(&mut c.rng, q);
            match c.rng.below(5) {
                0 => {
                    let _ = v.sign();
                }
                1 => {
                    let _ = v.exact();
                }
                2 => {
                    let _ = h_of(&v);
                }
                3 => {
                    let _ = v.approx();
                }
                _ => {}
            }
            xs.push((v, q.clone()));
        }
    }
    c.rng.shuffle(&mut xs);
    c.nontrivial(hash_str(&format!("{:?}", qs)));
    c.sample("values", || format!("{:?}", qs));
    let n = xs.len();
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&xs[i], &xs[j]);
            let o = ord(&a.1, &b.1);
            c.ev("pairs");
            let g = LazyExact::cmp_ref(&a.0, &b.0);
            let p = a.0.partial_cmp(&b.0);
            let e = a.0 == b.0;
            let (ra, rb) = (CgarRational(a.1.clone()), CgarRational(b.1.clone()));
            c.check(CgarRational::cmp_ref(&ra, &rb) == o && ra.partial_cmp(&rb) == Some(o) && (ra == rb) == (o == Ordering::Equal), "rational-order", || format!("{} vs {}", a.1, b.1));
            c.check(g == o && p == Some(o) && e == (o == Ordering::Equal), "order", || format!("{} vs {}: cmp_ref {:?} partial_cmp {:?} eq {}", a.1, b.1, g, p, e));
            if o == Ordering::Equal {
                c.ev("equal_pairs");
                c.check(h_of(&a.0) == h_of(&b.0), "hash", || format!("equal values {} hash differently", a.1));
                c.check(a.0.approx_eq(&b.0), "approx-eq", || format!("{} not approx_eq to itself", a.1));
                let (ra, rb) = (CgarRational(a.1.clone()), b.0.exact());
                c.check(h_of(&ra) == h_of(&rb) && ra == rb, "rational-hash", || a.1.to_string());
            }
        }
        if c.failed() {
            return;
        }
    }
    // approx_eq never identifies numbers that are far apart
    let (a, b) = (&xs[0], &xs[1]);
    if R::from(&a.1 - &b.1).abs() > rf(1e-3) && a.1.clone().abs() < 1_000_000 && b.1.clone().abs() < 1_000_000 {
        c.check(!a.0.approx_eq(&b.0), "approx-eq-far", || format!("{} ~ {}", a.1, b.1));
    }
    // as keys of maps and sets
    let mut m = std::collections::HashMap::new();
    for (v, q) in &xs {
        m.entry(v.clone()).or_insert_with(Vec::new).push(q.clone());
    }
    let mut uniq = qs.clone();
    uniq.sort();
    uniq.dedup();
    c.ev("maps");
    c.check(m.len() == uniq.len() && m.values().all(|v| v.iter().all(|x| *x == v[0])), "map", || format!("{} keys for {} numbers", m.len(), uniq.len()));
    // sorting with the library's comparison sorts the numbers
    let mut s = xs.clone();
    s.sort_by(|a, b| LazyExact::cmp_ref(&a.0, &b.0));
    c.check(s.windows(2).all(|w| w[0].1 <= w[1].1), "sort", || "sorted order is not the numbers' order".into());
    // rational hashing: sign matters for map lookups only through ==, but equal => equal hash
    let f = CgarF64(hostile_f64(&mut c.rng, true));
    let f2 = CgarF64(f.0);
    c.check(f == f2 && h_of(&f) == h_of(&f2), "float-hash", || format!("{:e}", f.0));
}
crate::g! {
fn p03_geo_t<T>(c: &mut Case, mkv: fn(&mut Rng, &R) -> T) {
    // points, vectors and segments are equal exactly when their coordinates are
    let mut qs: Vec<V3> = (0..3).map(|_| V(std::array::from_fn(|_| R::from((c.rng.int(-2, 2), *c.rng.pick(&[1i64, 1, 3])))))).collect();
    // the third often differs from the first in one coordinate, by little
    if c.rng.bool() {
        let k = c.rng.below(3);
        let d = rf(2f64.powi(-(c.rng.int(1, if T::EXACT { 120 } else { 40 }) as i32)));
        qs[2] = qs[0].clone();
        qs[2].0[k] += d;
    }
    if !T::EXACT { qs = qs.iter().map(|v| V(std::array::from_fn(|i| rf(v.0[i].to_f64())))).collect(); }
    let mut pts: Vec<(Point3<T>, V3)> = vec![];
    for q in &qs { for _ in 0..2 { pts.push((Point3::<T>::from_vals(std::array::from_fn(|i| mkv(&mut c.rng, &q.0[i]))), q.clone())); } }
    c.nontrivial(hash_str(&format!("{} {:?}", T::NAME, qs)));
    for a in &pts { for b in &pts {
        let e = a.1 == b.1;
        c.ev("point_pairs");
        c.check((a.0 == b.0) == e, "point3-eq", || format!("{} {} {}", T::NAME, a.1.s(), b.1.s()));
        if e { c.ev("equal_points"); c.check(h_of(&a.0) == h_of(&b.0), "point3-hash", || format!("{} {}", T::NAME, a.1.s())); }
        let p2 = |p: &(Point3<T>, V3)| Point2::<T>::from_vals([p.0[0].clone(), p.0[1].clone()]);
        let e2 = a.1.0[0] == b.1.0[0] && a.1.0[1] == b.1.0[1];
        let (x, y) = (p2(a), p2(b));
        c.check((x == y) == e2 && (!e2 || h_of(&x) == h_of(&y)), "point2-eq", || format!("{} {} {}", T::NAME, a.1.s(), b.1.s()));
        let (va, vb) = (Vector3::<T>::from_vals(std::array::from_fn(|i| a.0[i].clone())), Vector3::<T>::from_vals(std::array::from_fn(|i| b.0[i].clone())));
        c.check((va == vb) == e, "vector3-eq", || format!("{} {} {}", T::NAME, a.1.s(), b.1.s()));
        let (wa, wb) = (Vector2::<T>::from_vals([a.0[0].clone(), a.0[1].clone()]), Vector2::<T>::from_vals([b.0[0].clone(), b.0[1].clone()]));
        c.check((wa == wb) == e2, "vector2-eq", || format!("{} {} {}", T::NAME, a.1.s(), b.1.s()));
        // four coordinates, the last one being any of the three
        let k = c.rng.below(3);
        let e4 = e2 && a.1.0[k] == b.1.0[k];
        let v4 = |p: &(Point3<T>, V3)| cgar::geometry::vector::Vector::<T, 4>::from_vals([p.0[0].clone(), p.0[1].clone(), p.0[0].clone(), p.0[k].clone()]);
        let (x, y) = (v4(a), v4(b));
        c.check((x == y) == e4 && (!e4 || h_of(&x) == h_of(&y)) && (x.0 == y.0) == e4 && (!e4 || h_of(&x.0) == h_of(&y.0)), "eq4", || format!("{} {} {} {}", T::NAME, a.1.s(), b.1.s(), k));
    }}
    let _ = (Segment2::<T>::new(&Point2::<T>::from_vals([T::from(0), T::from(0)]), &Point2::<T>::from_vals([T::from(1), T::from(0)])), Segment3::<T>::new(&pts[0].0, &pts[1].0));
}
}
fn p03_geo(c: &mut Case) {
    match c.rng.below(3) {
        0 => p03_geo_t::<LazyExact>(c, recompute),
        1 => p03_geo_t::<CgarRational>(c, |_, q| CgarRational(q.clone())),
        _ => p03_geo_t::<CgarF64>(c, |_, q| CgarF64(q.to_f64())),
    }
}

// ------------------------------------------------------------------ P04
/// several threads hammer the caches of one shared expression graph
pub fn p04_shared(c: &mut Case) {
    let wide = false;
    let mut pool: Vec<(LazyExact, R)> = (0..4).map(|_| leaf(&mut c.rng, wide)).collect();
    let mut txt: String = pool.iter().enumerate().map(|(k, (_, q))| format!("#{}={}; ", k, q)).collect();
    for _ in 0..20 + c.rng.below(20) {
        if let Some(t) = step_lazy_only(c, &mut pool) {
            txt += &t;
            txt += "; ";
        }
    }
    let nth = 2 + c.rng.below(4);
    let barrier = std::sync::Barrier::new(nth);
    let seeds: Vec<u64> = (0..nth).map(|_| c.rng.next()).collect();
    let pool = &pool;
    let results: Vec<(u64, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&sd| {
                let barrier = &barrier;
                s.spawn(move || {
                    let mut r = Rng::new(sd);
                    let mut bad = vec![];
                    let mut n = 0u64;
                    // private handles: same nodes, other reference counts
                    let mine: Vec<LazyExact> = pool.iter().map(|p| p.0.clone()).collect();
                    barrier.wait();
                    for _ in 0..60 {
                        let (i, j) = (r.below(mine.len()), r.below(mine.len()));
                        // everybody prefers the top of the graph, where the caches are cold
                        let i = if r.bool() { mine.len() - 1 - i % 4 } else { i };
                        let (a, qa, b, qb) = (&mine[i], &pool[i].1, &mine[j], &pool[j].1);
                        n += 1;
                        let ok = match r.below(8) {
                            0 => a.sign() as i32 == sgn(qa),
                            1 => a.exact().0 == *qa,
                            2 => LazyExact::cmp_ref(a, b) == ord(qa, qb),
                            3 => (a == b) == (qa == qb),
                            4 => {
                                let x = a - b;
                                x.sign() as i32 == sgn(&R::from(qa - qb))
                            }
                            5 => {
                                let h = h_of(a);
                                h == h_of(&CgarLike(a.exact()))
                            }
                            6 => match ball_contains(a.ball_ref(), qa) {
                                Some(k) => k,
                                None => true,
                            },
                            _ => {
                                let x = a + b;
                                let y = &x - a;
                                drop(x);
                                y.exact().0 == *qb
                            }
                        };
                        if !ok {
                            bad.push(format!("nodes #{} #{}: {} {}", i, j, qa, qb));
                        }
                        if r.chance(1, 16) {
                            std::thread::yield_now();
                        }
                    }
                    (n, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((0, vec!["thread panicked".into()]))).collect()
    });
    for (n, bad) in results {
        c.evn("thread_observations", n);
        for b in bad {
            let t = txt.clone();
            c.fail("thread-observation", || format!("{} in {}", b, t));
        }
    }
    c.ev("graphs");
    c.evn("threads", nth as u64);
    c.nontrivial(hash_str(&txt));
    c.sample("graph", || format!("{} threads on {}", nth, txt));
}
/// the hash a node must produce: that of a fresh node with the same exact value
struct CgarLike(CgarRational);
impl Hash for CgarLike {
    fn hash<H: Hasher>(&self, s: &mut H) {
        LazyExact::from_cgar_rational(self.0.clone()).hash(s)
    }
}
/// only operations that do not force an evaluation
fn step_lazy_only(c: &mut Case, pool: &mut Vec<(LazyExact, R)>) -> Option<String> {
    let i = c.rng.below(pool.len());
    let j = c.rng.below(pool.len());
    let (a, ra) = pool[i].clone();
    let (b, rb) = pool[j].clone();
    let (v, q, name) = match c.rng.below(7) {
        0 | 1 => (&a + &b, R::from(&ra + &rb), "+"),
        2 | 3 => (&a - &b, R::from(&ra - &rb), "-"),
        4 => (&a * &b, R::from(&ra * &rb), "*"),
        5 => {
            if sgn(&rb) == 0 {
                return None;
            }
            (&a / &b, R::from(&ra / &rb), "/")
        }
        _ => (-&a, R::from(-&ra), "neg"),
    };
    if q.numer().significant_bits() + q.denom().significant_bits() > 6000 {
        return None;
    }
    let t = format!("#{} = #{} {} #{}", pool.len(), i, name, j);
    pool.push((v, q));
    Some(t)
}

pub const P01: Prop = Prop {
    id: "P01", schedules: false,
    rule: "random expression graphs over hostile leaves (signed zeros, subnormals, huge, neighbouring doubles, non-dyadic rationals) with every operator in its owned, borrowed and in-place form, queries interleaved with construction; zero identities and their tiny perturbations; chains deeper than the folding depth; plain rational and float scalars. Non-trivial: a graph with at least one operation; distinct by its full text",
    assumptions: &["divisors are non-zero and doubles finite", "GMP arithmetic through rug is correct (the reference uses it directly)"],
    workloads: &[
        Workload { name: "expr", f: p01_expr, quick: 240_000, thorough: 1_200_000 },
        Workload { name: "cancel", f: p01_cancel, quick: 240_000, thorough: 1_200_000 },
        Workload { name: "deep", f: p01_deep, quick: 1_800, thorough: 10_000 },
        Workload { name: "plain", f: p01_plain, quick: 240_000, thorough: 1_000_000 },
        Workload { name: "convert", f: p01_convert, quick: 90_000, thorough: 500_000 },
    ],
    min_events: &[("sign", 1000), ("exact", 1000), ("cmp_ref", 1000), ("partial_cmp", 1000), ("exact_zero_expressions", 1000), ("second_difference", 1000), ("deep_chains", 100), ("equal_pairs", 100), ("converted", 1000), ("to_integer", 1000)],
};
pub const P02: Prop = Prop {
    id: "P02", schedules: false,
    rule: "every node of random expression graphs, raw ball arithmetic with operand values anywhere in (and on the rim of) the operand balls, and intervals of plain rationals and floats. Non-trivial: distinct by expression text or operand bits",
    assumptions: &["divisors are non-zero and doubles finite", "an unbounded or not-a-number enclosure claims nothing"],
    workloads: &[
        Workload { name: "expr", f: p02_expr, quick: 240_000, thorough: 1_200_000 },
        Workload { name: "approx", f: p02_approx, quick: 120_000, thorough: 600_000 },
        Workload { name: "ball", f: p02_ball, quick: 900_000, thorough: 4_000_000 },
        Workload { name: "plain", f: p02_plain, quick: 360_000, thorough: 1_500_000 },
    ],
    min_events: &[("ball_nontrivial", 10_000), ("certain_sign", 10_000), ("uncertain_sign", 100), ("interval_contains", 10_000), ("ball_op_contains", 10_000), ("rational_interval", 10_000), ("approx_value", 10_000), ("approx_deep", 10_000)],
};
pub const P03: Prop = Prop {
    id: "P03", schedules: false,
    rule: "small sets of numbers, each built by several different computations with caches in different states, compared pairwise, hashed, sorted and used as map keys; likewise points and vectors. Non-trivial: distinct by the set of numbers",
    assumptions: &["float scalars are compared bitwise, as their documentation says"],
    workloads: &[Workload { name: "scalar", f: p03_scalar, quick: 90_000, thorough: 500_000 }, Workload { name: "geo", f: p03_geo, quick: 90_000, thorough: 400_000 }],
    min_events: &[("equal_pairs", 10_000), ("equal_points", 10_000), ("maps", 1000)],
};
pub const P04: Prop = Prop {
    id: "P04", schedules: true,
    rule: "expression graphs built without evaluating them, then 2-5 threads released by a barrier query the same nodes in different orders; every answer is compared with the reference; likewise orientation, in-circle, equality and point-in-mesh on shared points, mesh and face tree, and handles given up at different times by different threads. The same workloads run under ThreadSanitizer. Non-trivial: distinct by graph text",
    assumptions: &["the operating system's scheduler and yields provide the interleavings; ThreadSanitizer judges the part of them it sees, with the standard library instrumented as well"],
    workloads: &[
        Workload { name: "shared", f: p04_shared, quick: 40_000, thorough: 1_000_000 },
        Workload { name: "geometry", f: crate::w_thr::p04_geometry, quick: 20_000, thorough: 500_000 },
        Workload { name: "release", f: crate::w_thr::p04_release, quick: 20_000, thorough: 500_000 },
    ],
    min_events: &[("thread_observations", 100_000), ("graphs", 1000), ("geometry_observations", 50_000), ("released", 50_000)],
};
