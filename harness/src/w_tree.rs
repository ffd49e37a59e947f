//! P10 boxes and the box tree.
use crate::core::*;
use crate::r#gen::*;
use crate::oracle::*;
use crate::w_geo::rp;
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact};

macro_rules! gn {
    ($(fn $n:ident<T, N>($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)? $b:block)*) => {$(
        fn $n<T: Sc, const N: usize>($($a: $t),*) $(-> $r)?
        where
            T: From<CgarRational>,
            for<'a> &'a T: std::ops::Add<&'a T, Output = T>
                + std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    )*};
}

type Bx<T, const N: usize> = Aabb<T, N, Point<T, N>>;
#[derive(Clone, Debug, PartialEq)]
struct Ref<const N: usize> {
    lo: V<N>,
    hi: V<N>,
}
impl<const N: usize> Ref<N> {
    fn meets(&self, o: &Self, slack: &R) -> bool {
        (0..N).all(|i| R::from(&o.lo.0[i] - &self.hi.0[i]) <= *slack && R::from(&self.lo.0[i] - &o.hi.0[i]) <= *slack)
    }
    fn s(&self) -> String {
        format!("[{} .. {}]", self.lo.s(), self.hi.s())
    }
}
/// how coordinates of a case are drawn
#[derive(Clone, Copy, Debug)]
enum Scale {
    Plain(Style),
    /// clusters far from the origin, apart by less than a double there resolves
    Fine,
    /// magnitudes across and beyond the double range
    Huge,
}
fn coord(r: &mut Rng, s: Scale) -> R {
    match s {
        Scale::Plain(st) => num(r, st),
        Scale::Fine => {
            let base = R::from((r.int(1, 3) * 10_000_000_000_000_000, 3));
            base + R::from((r.int(-6, 6), 7))
        }
        Scale::Huge => {
            let e = *r.pick(&[0u32, 10, 300, 900, 1020, 1023, 1030, 2000]);
            let m = R::from(R::from(r.int(-5, 5)) << e);
            if r.chance(1, 4) { m.clone() / R::from(3) } else { m }
        }
    }
}
fn ref_box<const N: usize>(r: &mut Rng, s: Scale, have: &[Ref<N>]) -> Ref<N> {
    let near = !have.is_empty() && r.chance(1, 3);
    let p = if near { r.pick(have).clone() } else { Ref { lo: V(std::array::from_fn(|_| coord(r, s))), hi: V(std::array::from_fn(|_| coord(r, s))) } };
    let mut b = Ref { lo: V(std::array::from_fn(|i| p.lo.0[i].clone().min(p.hi.0[i].clone()))), hi: V(std::array::from_fn(|i| p.lo.0[i].clone().max(p.hi.0[i].clone()))) };
    if near {
        // a copy, or a box touching or just missing it along one axis
        let i = r.below(N);
        match r.below(4) {
            0 => {}
            1 => {
                let w = R::from(&b.hi.0[i] - &b.lo.0[i]);
                b.lo.0[i] = b.hi.0[i].clone();
                b.hi.0[i] = R::from(&b.lo.0[i] + &w);
            }
            2 => {
                let w = R::from(&b.hi.0[i] - &b.lo.0[i]);
                b.lo.0[i] = R::from(&b.hi.0[i] + R::from((1, 1u64 << 20)));
                b.hi.0[i] = R::from(&b.lo.0[i] + &w);
            }
            _ => b.hi = b.lo.clone(),
        }
    } else if r.chance(1, 6) {
        b.hi = b.lo.clone(); // a point
    } else if r.chance(1, 6) {
        let i = r.below(N);
        b.hi.0[i] = b.lo.0[i].clone(); // flat
    }
    b
}
gn! {
    fn mk<T, N>(r: &mut Rng, b: &Ref<N>) -> Bx<T, N> {
        let via = r.chance(1, 4) && T::EXACT;
        let conv = |v: &R| -> T {
            if via {
                // an unevaluated expression with this value
                let k = R::from((1, 3));
                &T::of(&R::from(v + &k)) - &T::of(&k)
            } else {
                T::of(v)
            }
        };
        let lo = Point { coords: std::array::from_fn(|i| conv(&b.lo.0[i])) };
        let hi = Point { coords: std::array::from_fn(|i| conv(&b.hi.0[i])) };
        if r.chance(1, 4) { Aabb::from_points(&hi, &lo) } else { Aabb::new(lo, hi) }
    }
    fn rb<T, N>(b: &Bx<T, N>) -> Ref<N> {
        Ref { lo: rp(b.min()), hi: rp(b.max()) }
    }
    fn boxes<T, N>(c: &mut Case) {
        let s = scale::<T>(&mut c.rng);
        let x = ref_box::<N>(&mut c.rng, s, &[]);
        let y = ref_box::<N>(&mut c.rng, s, std::slice::from_ref(&x));
        let (bx, by) = (mk::<T, N>(&mut c.rng, &x), mk::<T, N>(&mut c.rng, &y));
        let (x, y) = (rb(&bx), rb(&by));
        let ctx = || format!("{} {} and {}", T::NAME, x.s(), y.s());
        let eps = if T::EXACT { R::new() } else { rf(2e-10) };
        let meets = x.meets(&y, &R::new());
        let (g1, g2) = (bx.intersects(&by), by.intersects(&bx));
        c.check((g1 || !meets) && (!g1 || x.meets(&y, &eps)), "intersects", || format!("{}: {} want {}", ctx(), g1, meets));
        c.check(g1 == g2, "intersects-symmetry", || format!("{}: {} {}", ctx(), g1, g2));
        if let Some(a) = bx.intersects_approx(&by) {
            c.check(a == meets, "intersects-approx", || format!("{}: claims {}", ctx(), a));
            c.ev("approximate_decisions");
        }
        let u = rb(&bx.union(&by));
        let w = Ref { lo: V(std::array::from_fn(|i| x.lo.0[i].clone().min(y.lo.0[i].clone()))), hi: V(std::array::from_fn(|i| x.hi.0[i].clone().max(y.hi.0[i].clone()))) };
        let near = |p: &R, q: &R| p == q || (!T::EXACT && close(p, q, 1e-9));
        let eqb = |p: &Ref<N>, q: &Ref<N>| (0..N).all(|i| near(&p.lo.0[i], &q.lo.0[i]) && near(&p.hi.0[i], &q.hi.0[i]));
        c.check(eqb(&u, &w), "union", || format!("{}: {}", ctx(), u.s()));
        for i in 0..N {
            let m = R::from(&x.lo.0[i] + &x.hi.0[i]) / 2;
            let g = bx.center(i).r();
            c.check(near(&g, &m), "center", || format!("{}: axis {} {}", ctx(), i, g));
        }
        let ax = bx.longest_axis();
        let ext = |i: usize| R::from(&x.hi.0[i] - &x.lo.0[i]);
        c.check(ax < N && (0..N).all(|i| R::from(ext(i) - ext(ax.min(N - 1))) <= eps), "longest-axis", || format!("{}: {}", ctx(), ax));
        let d = R::from((c.rng.int(0, 5), 4));
        let g = rb(&bx.inflated(&T::of(&d)));
        let w = Ref { lo: V(std::array::from_fn(|i| R::from(&x.lo.0[i] - &d))), hi: V(std::array::from_fn(|i| R::from(&x.hi.0[i] + &d))) };
        c.check(eqb(&g, &w), "inflated", || format!("{} by {}: {}", ctx(), d, g.s()));
        let q = T::query_tolerance().r();
        let g = rb(&bx.inflated_query_tol());
        let w = Ref { lo: V(std::array::from_fn(|i| R::from(&x.lo.0[i] - &q))), hi: V(std::array::from_fn(|i| R::from(&x.hi.0[i] + &q))) };
        c.check(eqb(&g, &w), "inflated-tolerance", || format!("{}: {}", ctx(), g.s()));
        c.ev(if meets { "meeting_pairs" } else { "separate_pairs" });
        c.nontrivial(hash_str(&ctx()));
        c.sample("boxes", ctx);
    }
    fn history<T, N>(c: &mut Case) {
        let s = scale::<T>(&mut c.rng);
        let slack = if T::EXACT { R::new() } else { rf(2e-10) };
        let n0 = match c.rng.below(4) { 0 => 1, 1 => 2, 2 => 1 + c.rng.below(8), 3 if c.rng.chance(1, 12) => 1 + c.rng.below(500), _ => 1 + c.rng.below(60) };
        struct E<const N: usize> { b: Ref<N>, id: usize, live: bool }
        let mut log: Vec<String> = vec![];
        let mut model: Vec<E<N>> = vec![];
        let mut refs: Vec<Ref<N>> = vec![];
        let mut items = vec![];
        let dup_ids = c.rng.chance(1, 5);
        for id in 0..n0 {
            let b = ref_box(&mut c.rng, s, &refs);
            let t = mk::<T, N>(&mut c.rng, &b);
            let b = rb(&t);
            let id = if dup_ids { id / 2 } else { id };
            refs.push(b.clone());
            log.push(format!("b{}{}", id, b.s()));
            model.push(E { b, id, live: true });
            items.push((t, id));
        }
        let mut next = n0;
        let mut tree: AabbTree<T, N, Point<T, N>, usize> = if c.rng.bool() {
            AabbTree::build(items)
        } else {
            let want: Vec<Ref<N>> = items.iter().map(|(b, _)| rb(b)).collect();
            let (t, look) = AabbTree::build_with_lookup(items);
            let got: Vec<Ref<N>> = look.iter().map(rb).collect();
            c.check(got == want, "lookup", || format!("{}: lookup table differs from the boxes given", T::NAME));
            t
        };
        let long = c.rng.chance(1, 25);
        let steps = 4 + c.rng.below(if long { 300 } else { 30 });
        for _ in 0..steps {
            match c.rng.below(10) {
                0 | 1 => {
                    let b = ref_box(&mut c.rng, s, &refs);
                    let t = mk::<T, N>(&mut c.rng, &b);
                    let b = rb(&t);
                    refs.push(b.clone());
                    let id = next;
                    next += 1;
                    tree.insert(t, id);
                    log.push(format!("i{}{}", id, b.s()));
                    model.push(E { b, id, live: true });
                    c.ev("inserts");
                }
                2 | 3 => {
                    let id = c.rng.below(next + 1);
                    let want = model.iter().filter(|e| e.live && e.id == id).count();
                    let got = tree.invalidate(&id);
                    log.push(format!("x{}", id));
                    c.check(got == want, "invalidate-count", || format!("{} {}: {} want {}", T::NAME, log.join(" "), got, want));
                    for e in &mut model {
                        if e.id == id {
                            e.live = false;
                        }
                    }
                    c.ev("invalidations");
                }
                4 if c.rng.chance(1, 2) => {
                    let live = model.iter().filter(|e| e.live).count();
                    match tree.compact() {
                        None => {
                            c.check(live == 0, "compact-empty", || format!("{} {}: compacted to nothing with {} live", T::NAME, log.join(" "), live));
                        }
                        Some(t) => {
                            if !c.check(live > 0, "compact-live", || format!("{} {}: compacted to something without live entries", T::NAME, log.join(" "))) {
                                return;
                            }
                            tree = t;
                            model.retain(|e| e.live);
                            log.push("c".into());
                            c.ev("compactions");
                        }
                    }
                }
                5 => {
                    let id = c.rng.below(next + 1);
                    let got = tree.get_aabb(id).map(rb);
                    let ok = match &got {
                        Some(g) => model.iter().any(|e| e.id == id && e.b == *g),
                        None => !model.iter().any(|e| e.id == id),
                    };
                    c.check(ok, "get-box", || format!("{} {}: box of {} is {:?}", T::NAME, log.join(" "), id, got.as_ref().map(|g| g.s())));
                }
                _ => {
                    let q = ref_box(&mut c.rng, s, &refs);
                    let t = mk::<T, N>(&mut c.rng, &q);
                    let q = rb(&t);
                    for live_only in [false, true] {
                        let mut out = vec![];
                        if live_only { tree.query_valid(&t, &mut out) } else { tree.query(&t, &mut out) };
                        let mut got: Vec<usize> = out.iter().map(|x| **x).collect();
                        got.sort();
                        let sel = |sl: &R| {
                            let mut v: Vec<usize> = model.iter().filter(|e| (e.live || !live_only) && e.b.meets(&q, sl)).map(|e| e.id).collect();
                            v.sort();
                            v
                        };
                        let (must, may) = (sel(&R::new()), sel(&slack));
                        let ok = if T::EXACT { got == must } else { sub(&must, &got) && sub(&got, &may) };
                        c.check(ok, if live_only { "query-live" } else { "query" }, || format!("{} {} ? {}: got {:?} want {:?}", T::NAME, log.join(" "), q.s(), got, must));
                        c.evn("entries_returned", got.len() as u64);
                        c.evn("entries_withheld", (model.len() - got.len().min(model.len())) as u64);
                    }
                    c.ev("queries");
                }
            }
            let live = model.iter().filter(|e| e.live).count();
            let want = 2 * live < model.len();
            let got = tree.needs_rebuild();
            c.check(got == want, "needs-rebuild", || format!("{} {}: {} with {} of {} live", T::NAME, log.join(" "), got, live, model.len()));
            if want {
                c.ev("rebuild_advised");
            }
            if c.failed() {
                return;
            }
        }
        c.nontrivial(hash_str(&log.join(" ")));
        c.sample("history", || format!("{} {}D {}", T::NAME, N, log.join(" ")));
    }
}
/// multiset inclusion of sorted lists
fn sub(a: &[usize], b: &[usize]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j >= b.len() || b[j] != *x {
            return false;
        }
        j += 1;
    }
    true
}
fn scale<T: Sc>(r: &mut Rng) -> Scale {
    if !T::EXACT {
        return Scale::Plain(*r.pick(DYADIC_STYLES));
    }
    match r.below(8) {
        0 => Scale::Fine,
        1 => Scale::Huge,
        _ => Scale::Plain(*r.pick(STYLES)),
    }
}
macro_rules! by {
    ($c:expr, $f:ident) => {
        match $c.rng.below(10) {
            0 | 1 => $f::<LazyExact, 2>($c),
            2 | 3 | 4 => $f::<LazyExact, 3>($c),
            5 => $f::<CgarRational, 2>($c),
            6 | 7 => $f::<CgarRational, 3>($c),
            8 => $f::<CgarF64, 2>($c),
            _ => $f::<CgarF64, 3>($c),
        }
    };
}
fn p10_boxes(c: &mut Case) {
    by!(c, boxes)
}
fn p10_history(c: &mut Case) {
    by!(c, history)
}
pub const P10: Prop = Prop {
    id: "P10", schedules: false,
    rule: "histories of building (1 to 60 boxes: copies, touching, just missing, flat, points; coordinates from small integers to values outside and below the resolution of doubles; evaluated and unevaluated), inserting, invalidating, compacting and querying, in two and three dimensions, compared step by step with a plain list; plus operations of single boxes. Non-trivial: distinct by history",
    assumptions: &["for doubles, boxes less than 2e-10 apart may count as touching"],
    workloads: &[
        Workload { name: "boxes", f: p10_boxes, quick: 180_000, thorough: 1_000_000 },
        Workload { name: "history", f: p10_history, quick: 120_000, thorough: 800_000 },
    ],
    min_events: &[("queries", 10_000), ("entries_returned", 10_000), ("entries_withheld", 10_000), ("inserts", 5_000), ("invalidations", 5_000), ("compactions", 500), ("rebuild_advised", 500), ("approximate_decisions", 1000), ("meeting_pairs", 1000), ("separate_pairs", 1000)],
};
