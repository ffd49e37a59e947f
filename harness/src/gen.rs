//! Input generators.
use crate::core::Rng;
use crate::oracle::*;

/// Number styles a coordinate can be drawn in.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// small integers: many coincidences
    Tiny,
    /// integers up to 1000
    Int,
    /// dyadic fractions
    Dyadic,
    /// any double in a moderate range
    Float,
    /// non-dyadic rationals
    Frac,
}
pub const STYLES: &[Style] = &[Style::Tiny, Style::Int, Style::Dyadic, Style::Float, Style::Frac];
pub const DYADIC_STYLES: &[Style] = &[Style::Tiny, Style::Int, Style::Dyadic, Style::Float];

pub fn num(r: &mut Rng, s: Style) -> R {
    match s {
        Style::Tiny => ri(r.int(-3, 3)),
        Style::Int => ri(r.int(-1000, 1000)),
        Style::Dyadic => R::from((r.int(-4096, 4096), 1i64 << r.int(0, 10))),
        Style::Float => rf(r.f(-10.0, 10.0)),
        Style::Frac => R::from((r.int(-300, 300), *r.pick(&[3i64, 7, 9, 11, 30, 49, 97]))),
    }
}
pub fn vec_n<const N: usize>(r: &mut Rng, s: Style) -> V<N> {
    V(std::array::from_fn(|_| num(r, s)))
}
pub fn unit_frac(r: &mut Rng, s: Style) -> R {
    // in (0,1)
    match s {
        Style::Frac => {
            let d = *r.pick(&[3i64, 5, 7, 9, 11, 30]);
            R::from((r.int(1, d - 1), d))
        }
        _ => {
            let k = r.int(1, 6);
            R::from((r.int(1, (1 << k) - 1), 1i64 << k))
        }
    }
}
/// sometimes makes b share coordinates with a (axis-parallel lines and planes)
pub fn align<const N: usize>(r: &mut Rng, a: &V<N>, b: &mut V<N>) {
    if r.chance(1, 4) {
        for k in 0..N {
            if r.chance(2, 3) {
                b.0[k] = a.0[k].clone();
            }
        }
    }
}
