//! Exponential families a user would write: only the required methods, defaults for the rest, own types for
//! parameters, statistics and base measure. Their laws are written down next to them.

use crate::fam::{Fl, Law, NEG, Pt};
use measures_core::primitive::counting::CountingMeasure;
use measures_core::primitive::lebesgue::LebesgueMeasure;
use measures_core::{DotProduct, False, HasLogDensity, Measure, MeasureMarker, True};
use measures_exponential_family::ExponentialFamily;
use measures_exponential_family::exponential_family::traits::{ExponentialFamilyMeasure, SumSufficientStats};
use std::marker::PhantomData;
use std::rc::Rc;

/// Three parameters over the reals; the parameters and the log partition come from separate methods, the
/// combined one is the trait's default.
#[derive(Clone, Debug)]
pub struct Three<F>(pub [F; 3]);
impl<F: Fl> MeasureMarker for Three<F> {
    type IsPrimitive = False;
    type IsExponentialFamily = True;
}
impl<F: Fl> Measure<F> for Three<F> {
    type RootMeasure = LebesgueMeasure<F>;
    fn in_support(&self, x: F) -> bool {
        x > F::of(-4.0)
    }
    fn root_measure(&self) -> LebesgueMeasure<F> {
        LebesgueMeasure::new()
    }
}
impl<F: Fl> ExponentialFamily<F, F> for Three<F> {
    type NaturalParam = [F; 3];
    type SufficientStat = [F; 3];
    type BaseMeasure = LebesgueMeasure<F>;
    fn from_natural(p: [F; 3]) -> Self {
        Three(p)
    }
    fn to_natural(&self) -> [F; 3] {
        self.0
    }
    fn log_partition(&self) -> F {
        self.0[0] * F::of(4.0) - self.0[1] + self.0[2] * self.0[2]
    }
    fn sufficient_statistic(&self, x: &F) -> [F; 3] {
        [*x, *x * *x, F::one()]
    }
    fn base_measure(&self) -> LebesgueMeasure<F> {
        LebesgueMeasure::new()
    }
}
impl<F: Fl> ExponentialFamilyMeasure<F, F> for Three<F> {}
pub fn three<F: Fl>() -> Vec<(Three<F>, Law<F>)>
where
    F: Pt,
{
    [[1.0, -0.5, 0.25], [0.0, 2.0, -3.0], [-8.0, 0.125, 1.0]]
        .into_iter()
        .map(|p| {
            let f = move |x: f64| {
                if x > -4.0 {
                    let t = [p[0] * x, p[1] * x * x, p[2], -p[0] * 4.0, p[1], -p[2] * p[2]];
                    (t.iter().sum(), t.iter().map(|t| t.abs()).sum())
                } else {
                    (NEG, 0.0)
                }
            };
            let pts = [1.0, -0.5, 2.25, 0.0, 3.0, -4.5, 16.0].into_iter().map(F::of).collect();
            let pts = Rc::new(pts);
            (Three(p.map(F::of)), Law { key: format!("Three{p:?}"), f: Rc::new(f), pts })
        })
        .collect()
}

/// Its own parameter, statistic and base measure types over the counts up to 40.
#[derive(Clone, Debug)]
pub struct Odd<F>(pub F, pub F);
#[derive(Clone, Debug)]
pub struct Eta<F> {
    slope: F,
    parity: F,
}
#[derive(Clone, Debug)]
pub struct Stat<F> {
    odd: F,
    sum: F,
}
impl<F: Fl> DotProduct<Stat<F>> for Eta<F> {
    type Output = F;
    fn dot(&self, t: &Stat<F>) -> F {
        self.slope * t.sum + self.parity * t.odd
    }
}
impl<F: Fl> SumSufficientStats<Stat<F>> for Stat<F> {
    fn sum_sufficient_stats<I: Iterator<Item = Stat<F>>>(stats: I) -> Stat<F> {
        stats.fold(Stat { odd: F::zero(), sum: F::zero() }, |a, b| Stat { odd: a.odd + b.odd, sum: a.sum + b.sum })
    }
}
/// Density 2^(3 - x/4) relative to counting.
#[derive(Clone, Debug)]
pub struct Halving<F>(PhantomData<F>);
impl<F> MeasureMarker for Halving<F> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<F: Clone> Measure<u64> for Halving<F> {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, _: u64) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<u64> {
        CountingMeasure::new()
    }
}
impl<F: Fl> HasLogDensity<u64, F> for Halving<F> {
    fn log_density_wrt_root(&self, x: &u64) -> F {
        F::of(3.0 - *x as f64 * 0.25)
    }
}
impl<F: Fl> MeasureMarker for Odd<F> {
    type IsPrimitive = False;
    type IsExponentialFamily = True;
}
impl<F: Fl> Measure<u64> for Odd<F> {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, x: u64) -> bool {
        x <= 40
    }
    fn root_measure(&self) -> CountingMeasure<u64> {
        CountingMeasure::new()
    }
}
impl<F: Fl> ExponentialFamily<u64, F> for Odd<F> {
    type NaturalParam = Eta<F>;
    type SufficientStat = Stat<F>;
    type BaseMeasure = Halving<F>;
    fn from_natural(p: Eta<F>) -> Self {
        Odd(p.slope, p.parity)
    }
    fn natural_and_log_partition(&self) -> (Eta<F>, F) {
        (Eta { slope: self.0, parity: self.1 }, self.0 * F::of(1.5) + self.1)
    }
    fn sufficient_statistic(&self, x: &u64) -> Stat<F> {
        Stat { odd: F::of((*x % 2) as f64), sum: F::of(*x as f64) }
    }
    fn base_measure(&self) -> Halving<F> {
        Halving(PhantomData)
    }
}
impl<F: Fl> ExponentialFamilyMeasure<u64, F> for Odd<F> {}
pub fn odd<F: Fl>() -> Vec<(Odd<F>, Law<u64>)> {
    [(0.5, -2.0), (-1.25, 8.0)]
        .into_iter()
        .map(|(a, b)| {
            let f = move |x: f64| {
                if x <= 40.0 {
                    let t = [a * x, if x % 2.0 == 1.0 { b } else { 0.0 }, -1.5 * a, -b, 3.0, -0.25 * x];
                    (t.iter().sum(), t.iter().map(|t| t.abs()).sum())
                } else {
                    (NEG, 0.0)
                }
            };
            (Odd(F::of(a), F::of(b)), Law { key: format!("Odd({a},{b})"), f: Rc::new(f), pts: Rc::new(vec![1, 0, 4, 7, 40, 41, 1000]) })
        })
        .collect()
}

macro_rules! density {
    ($d:ident, $x:ty) => {
        impl<F: Fl> HasLogDensity<$x, F> for $d<F> {
            fn log_density_wrt_root(&self, x: &$x) -> F {
                if self.in_support(*x) { self.exp_fam_log_density(x) } else { F::neg_infinity() }
            }
        }
    };
}
density!(Odd, u64);
impl<F: Fl> HasLogDensity<F, F> for Three<F> {
    fn log_density_wrt_root(&self, x: &F) -> F {
        if self.in_support(*x) { self.exp_fam_log_density(x) } else { F::neg_infinity() }
    }
}

/// A measure without fields whose density is not constant.
#[derive(Clone, Debug)]
pub struct Tilted;
impl MeasureMarker for Tilted {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<f64> for Tilted {
    type RootMeasure = LebesgueMeasure<f64>;
    fn in_support(&self, _: f64) -> bool {
        true
    }
    fn root_measure(&self) -> LebesgueMeasure<f64> {
        LebesgueMeasure::new()
    }
}
impl HasLogDensity<f64, f64> for Tilted {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        0.75 * x - 1.25
    }
}
impl Measure<u64> for Tilted {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, _: u64) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<u64> {
        CountingMeasure::new()
    }
}
impl HasLogDensity<u64, f64> for Tilted {
    fn log_density_wrt_root(&self, x: &u64) -> f64 {
        1.5 - 0.25 * (*x as f64)
    }
}
