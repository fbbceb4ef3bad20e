//! The fourteen distribution families with their laws written down independently, parameter and point
//! alphabets. A law returns the log mass and the sum of the magnitudes of its terms (for the tolerance).

use mc::num::{ln_beta, ln_choose, ln_fact, ln_gamma};
use measures_distributions as md;
use num_traits::{Float, FloatConst};
use std::fmt::Debug;
use std::rc::Rc;

pub const NEG: f64 = f64::NEG_INFINITY;

pub trait Fl: Float + FloatConst + Debug + Default + std::iter::Sum + Send + Sync + 'static {
    const NAME: &'static str;
    const RTOL: f64;
    /// where squares neither vanish nor overflow
    const NEAR: f64;
    const FAR: f64;
    fn d(self) -> f64;
    fn of(x: f64) -> Self;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const RTOL: f64 = 1e-10;
    const NEAR: f64 = 1e-130;
    const FAR: f64 = 1e130;
    fn d(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const RTOL: f64 = 3e-6;
    const NEAR: f64 = 1e-17;
    const FAR: f64 = 1.1e15;
    fn d(self) -> f64 {
        f64::from(self)
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
}

/// A point of a sample space.
pub trait Pt: Clone + Debug + PartialEq + 'static {
    fn d(&self) -> f64;
}
macro_rules! pt { ($($t:ty),*) => { $(impl Pt for $t { fn d(&self) -> f64 { *self as f64 } })* } }
pt!(f64, f32, u8, u64, usize);

#[derive(Clone)]
pub struct Law<X> {
    pub key: String,
    pub f: Rc<dyn Fn(f64) -> (f64, f64)>,
    pub pts: Rc<Vec<X>>,
}
/// The exponential-family form of the negative binomial is written with the log-odds instead of log p:
/// its value is off by exactly -x ln(1-p) (known finding; the existing tests pin the wrong parameter).
pub const NB_KEY: &str = "NegativeBinomial|exponential-family form is written with the log-odds";
impl<X: Pt> Law<X> {
    pub fn form_defect(&self, x: &X) -> Option<(&'static str, f64)> {
        let (_, p) = self.key.strip_prefix("NegativeBinomial(")?.trim_end_matches(')').split_once(',')?;
        let p: f64 = p.parse().ok()?;
        Some((NB_KEY, -x.d() * (1.0 - p).ln()))
    }
    pub fn at(&self, x: &X) -> f64 {
        (self.f)(x.d()).0
    }
    pub fn tol<F: Fl>(&self, x: &X) -> f64 {
        let s = (self.f)(x.d()).1;
        F::RTOL * (1.0 + s)
    }
    pub fn support(&self) -> Vec<X> {
        self.pts.iter().filter(|x| self.at(x) > NEG).cloned().collect()
    }
}

fn sum(t: &[f64]) -> (f64, f64) {
    (t.iter().sum(), t.iter().map(|x| x.abs()).sum())
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum Size {
    /// a few parameters and points: used where cases are combined with each other
    Small,
    Quick,
    Full,
    /// the thorough tier
    Deep,
}

/// positive scale-like parameters
pub fn positives(z: Size) -> Vec<f64> {
    match z {
        Size::Small => vec![1.0, 0.5, 2.5],
        Size::Quick => vec![
            1.0, 0.5, 2.0, 0.1, 0.25, 0.75, 1.5, 2.5, 3.0, 4.0, 5.0, 7.5, 10.0, 12.0, 13.5, 20.0, 30.0, 50.0, 75.0, 100.0, 101.5, 150.0, 170.0, 171.5, 200.0, 500.0, 1000.0, 0.01, 0.001, 1001.5, 2500.0, 1e4, 1.5e5, 1e6, 1e-4, 1e-8, 3e9,
        ],
        Size::Full => {
            let mut v = positives(Size::Quick);
            for i in 0..240 {
                v.push(1e-4 * 1.08f64.powi(i));
            }
            for i in 1..=60 {
                v.push(f64::from(i) * 0.5 + 0.125);
            }
            v.extend([1e-15, 1e-12, 1e-6, 3e-5, 2e5, 3e7, 5e8, 1e11, 1e13]);
            v
        }
        Size::Deep => {
            let mut v = positives(Size::Full);
            for i in 0..700 {
                v.push(1.3e-5 * 1.04f64.powi(i));
            }
            for i in 1..=600 {
                v.push(f64::from(i) * 0.5);
            }
            v
        }
    }
}

/// points on the real line
/// far out and close in, as far as the type reaches
fn extremes() -> Vec<f64> {
    [1e-120, 1e-60, 1e-29, 1e-25, 1e-16, 1e-14, 1e-11, 1e8, 1e10, 1e12, 1e15, 1e16, 1e18, 1e30, 1e60, 1e120].iter().flat_map(|&x| [x, -x]).collect()
}

/// Heavy tails reach to the end of the type's range.
fn far<F: Fl>(z: Size) -> Vec<F> {
    let mut v: Vec<F> = fl(reals(z));
    if z != Size::Small {
        v.extend([1e17, 4e18, 1e19, 4e19, 1e25, 1e30, 1e37, 1e100, 1e153, 2e154, 1e200, 1e300].iter().flat_map(|&x| [F::of(x), F::of(-x)]).filter(|x| x.is_finite()));
    }
    v
}

pub fn reals(z: Size) -> Vec<f64> {
    match z {
        Size::Small => vec![0.5, 1.0, -0.75, 2.0],
        Size::Quick => {
            let mut v = vec![0.0];
            for p in positives(Size::Quick) {
                v.push(p);
                v.push(-p);
            }
            v.extend([0.3, 0.9, 0.99, 0.999_999, 1e-9, -1e-9, 1e-6, 1234.5, -1234.5, 5e5, -5e5]);
            v.extend(extremes());
            v
        }
        Size::Full | Size::Deep => {
            let mut v = vec![0.0];
            for p in positives(z) {
                v.push(p);
                v.push(-p);
            }
            v.extend([0.3, 0.9, 0.99, 0.999_999, 1e-9, -1e-9, 1e-6, 1234.5, -1234.5, 5e5, -5e5]);
            v.extend(extremes());
            v
        }
    }
}

pub fn units(z: Size) -> Vec<f64> {
    match z {
        Size::Small => vec![0.5, 0.25, 0.9],
        Size::Quick => vec![0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.3, 0.6, 1e-4, 0.999],
        Size::Full => {
            let mut v = units(Size::Quick);
            for i in 1..64 {
                v.push(f64::from(i) / 64.0 + 0.0001);
            }
            v.extend([1e-8, 1.0 - 1e-7]);
            v
        }
        Size::Deep => {
            let mut v = units(Size::Full);
            for i in 1..700 {
                v.push(f64::from(i) / 700.0);
            }
            for i in 1..50 {
                v.push(0.5f64.powi(i));
            }
            v
        }
    }
}

pub fn counts(z: Size) -> Vec<u64> {
    match z {
        Size::Small => vec![0, 1, 3],
        Size::Quick => {
            let mut v: Vec<u64> = (0..=64).collect();
            v.extend([99, 100, 101, 127, 128, 150, 170, 171, 172, 200, 255, 256, 257, 300, 500, 1000, 1001, 1024, 4096, 4097, 5000, 20_000, 65_536]);
            v
        }
        Size::Full => {
            let mut v: Vec<u64> = (0..=600).collect();
            v.extend([999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000, 10_000, 65_535, 65_536, 100_000]);
            v
        }
        Size::Deep => {
            let mut v: Vec<u64> = (0..=3000).collect();
            v.extend([4095, 4096, 4097, 5000, 9999, 10_000, 20_000, 65_535, 65_536, 65_537, 99_999, 100_000, 100_001]);
            v
        }
    }
}

fn fl<F: Fl>(v: Vec<f64>) -> Vec<F> {
    v.into_iter().map(F::of).filter(|x| x.d() == 0.0 || (F::NEAR..=F::FAR).contains(&x.d().abs())).collect()
}

pub fn law_normal(m: f64, s: f64) -> impl Fn(f64) -> (f64, f64) {
    move |x| {
        let z = (x - m) / s;
        sum(&[-0.5 * (2.0 * std::f64::consts::PI).ln(), -s.ln(), -0.5 * z * z])
    }
}

pub fn normal<F: Fl>(z: Size) -> Vec<(md::Normal<F>, Law<F>)> {
    let mut out = vec![];
    let ms: Vec<f64> = match z {
        Size::Small => vec![0.0, 1.5],
        _ => vec![0.0, 1.0, -1.0, 2.5, -3.25, 10.0, -100.0, 1000.0],
    };
    for &m in &ms {
        for s in positives(z) {
            let (m, s) = (F::of(m), F::of(s));
            let l = law_normal(m.d(), s.d());
            // far tails in standard deviations as well
            let mut pts: Vec<F> = fl(reals(z));
            if z != Size::Small {
                for k in [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 6.0, 8.0, 8.5, 10.0, 20.0, 37.0, 38.5, 39.0, 50.0] {
                    pts.push(m + s * F::of(k));
                    pts.push(m - s * F::of(k));
                }
            }
            out.push((md::Normal::new(m, s), Law { key: format!("Normal({m:?},{s:?})"), f: Rc::new(l), pts: Rc::new(pts) }));
        }
    }
    out
}

pub fn exponential<F: Fl>(z: Size) -> Vec<(md::Exponential<F>, Law<F>)> {
    positives(z)
        .into_iter()
        .map(|r| {
            let r = F::of(r);
            let rd = r.d();
            (
                md::Exponential::new(r),
                Law { key: format!("Exponential({r:?})"), f: Rc::new(move |x| if x >= 0.0 { sum(&[rd.ln(), -rd * x]) } else { (NEG, 0.0) }), pts: Rc::new(fl(reals(z))) },
            )
        })
        .collect()
}

fn law_gamma(a: f64, b: f64) -> impl Fn(f64) -> (f64, f64) {
    let g = ln_gamma(a);
    move |x| if x > 0.0 { sum(&[a * b.ln(), -g, (a - 1.0) * x.ln(), -b * x]) } else { (NEG, 0.0) }
}

/// At the very edge 0 the density is a convention unless it vanishes there: left out.
fn drop_zero<F: Fl>(pts: Vec<F>, keep: bool) -> Vec<F> {
    pts.into_iter().filter(|x| keep || x.d() != 0.0).collect()
}

pub fn gamma<F: Fl>(z: Size) -> Vec<(md::Gamma<F>, Law<F>)> {
    let mut out = vec![];
    let (with, without): (Rc<Vec<F>>, Rc<Vec<F>>) = (Rc::new(fl(reals(z))), Rc::new(drop_zero(fl(reals(z)), false)));
    for a in positives(z) {
        let rates = if z >= Size::Full { positives(Size::Quick) } else { vec![1.0, 0.5, 3.0, 0.05, 40.0] };
        for b in rates {
            let (a, b) = (F::of(a), F::of(b));
            let pts = if a.d() > 1.0 { with.clone() } else { without.clone() };
            out.push((md::Gamma::new(a, b), Law { key: format!("Gamma({a:?},{b:?})"), f: Rc::new(law_gamma(a.d(), b.d())), pts }));
            if z == Size::Small && out.len() >= 4 {
                return out;
            }
        }
    }
    out
}

pub fn chi_squared<F: Fl>(z: Size) -> Vec<(md::ChiSquared<F>, Law<F>)> {
    positives(z)
        .into_iter()
        .map(|k| {
            let k = F::of(k);
            let pts = drop_zero(fl(reals(z)), k.d() > 2.0);
            (md::ChiSquared::new(k), Law { key: format!("ChiSquared({k:?})"), f: Rc::new(law_gamma(k.d() / 2.0, 0.5)), pts: Rc::new(pts) })
        })
        .collect()
}

pub fn beta<F: Fl>(z: Size) -> Vec<(md::Beta<F>, Law<F>)> {
    let mut out = vec![];
    let side = |z: Size| -> Vec<f64> {
        match z {
            Size::Small => vec![1.0, 2.5],
            Size::Quick => vec![1.0, 0.5, 2.0, 3.5, 0.1, 10.0, 13.0, 40.0, 100.0, 171.0, 300.0],
            Size::Full => positives(Size::Quick),
            Size::Deep => positives(Size::Quick).into_iter().chain((1..=20).map(|i| f64::from(i) * 0.75 + 0.1)).collect(),
        }
    };
    for a in side(z) {
        for b in side(z) {
            let (a, b) = (F::of(a), F::of(b));
            let (ad, bd) = (a.d(), b.d());
            let c = ln_beta(ad, bd);
            let cs = ln_gamma(ad).abs() + ln_gamma(bd).abs() + ln_gamma(ad + bd).abs();
            let mut pts: Vec<F> = fl(reals(if z >= Size::Full { Size::Quick } else { z }));
            pts.extend(units(z).into_iter().map(F::of));
            pts.push(F::of(1.5));
            let pts: Vec<F> = drop_zero(pts, ad > 1.0).into_iter().filter(|x| bd > 1.0 || x.d() != 1.0).collect();
            let f = move |x: f64| {
                if x > 0.0 && x < 1.0 {
                    // 1-x is formed in the precision of the argument: its relative error 2^-53/(1-x) counts
                    let u = 1.0 - x;
                    let (v, s) = sum(&[-c, (ad - 1.0) * x.ln(), (bd - 1.0) * u.ln()]);
                    (v, s + cs)
                } else {
                    (NEG, 0.0)
                }
            };
            out.push((md::Beta::new(a, b), Law { key: format!("Beta({a:?},{b:?})"), f: Rc::new(f), pts: Rc::new(pts) }));
        }
    }
    out
}

/// log(1 + (x/b)^2) without overflow
fn ln1p_sq(x: f64, b: f64) -> f64 {
    let t = x.abs() / b;
    if t > 1e100 { 2.0 * (x.abs().ln() - b.ln()) } else { (t * t).ln_1p() }
}

pub fn cauchy<F: Fl>(z: Size) -> Vec<(md::Cauchy<F>, Law<F>)> {
    let mut out = vec![];
    for m in if z == Size::Small { vec![0.0, 1.5] } else { vec![0.0, 1.0, -1.0, 2.5, -10.0, 500.0] } {
        for s in positives(z) {
            let (m, s) = (F::of(m), F::of(s));
            let (a, b) = (m.d(), s.d());
            let f = move |x: f64| sum(&[-std::f64::consts::PI.ln(), -b.ln(), -ln1p_sq(x - a, b)]);
            out.push((md::Cauchy::new(m, s), Law { key: format!("Cauchy({m:?},{s:?})"), f: Rc::new(f), pts: Rc::new(far(z)) }));
        }
    }
    out
}

pub fn student_t<F: Fl>(z: Size) -> Vec<(md::StudentT<F>, Law<F>)> {
    positives(z)
        .into_iter()
        .map(|nu| {
            let nu = F::of(nu);
            let n = nu.d();
            let (g1, g2) = (ln_gamma((n + 1.0) / 2.0), ln_gamma(n / 2.0));
            // for many degrees of freedom the two log-gamma values are not terms of the result any more
            let h = n / 2.0;
            let ratio = h * (0.5 / h).ln_1p() + 0.5 * h.ln() - 0.5 + 1.0 / (12.0 * h + 6.0) - 1.0 / (12.0 * h) + if h < 1e5 { (h.powi(-3) - (h + 0.5).powi(-3)) / 360.0 } else { 0.0 };
            let (g1, g2) = if n > 1000.0 { (ratio, 0.0) } else { (g1, g2) };
            let f = move |x: f64| sum(&[g1, -g2, -0.5 * (n * std::f64::consts::PI).ln(), -(n + 1.0) / 2.0 * ln1p_sq(x, n.sqrt())]);
            (md::StudentT::new(nu), Law { key: format!("StudentT({nu:?})"), f: Rc::new(f), pts: Rc::new(far(z)) })
        })
        .collect()
}

pub fn std_normal<F: Fl>(z: Size) -> Vec<(md::StdNormal<F>, Law<F>)> {
    vec![(md::StdNormal::new(), Law { key: "StdNormal".into(), f: Rc::new(law_normal(0.0, 1.0)), pts: Rc::new(fl(reals(z))) })]
}

/// count * ln p with 0 * ln 0 = 0
fn xlogp(k: f64, lp: f64) -> f64 {
    if k == 0.0 { 0.0 } else { k * lp }
}

pub fn bernoulli<F: Fl>(z: Size, edges: bool) -> Vec<(md::Bernoulli<F>, Law<u8>)> {
    let mut ps = units(z);
    if edges {
        ps.extend([0.0, 1.0]);
    }
    ps.into_iter()
        .map(|p| {
            let p = F::of(p);
            // 1-p in the precision of the parameter
            let (pd, qd) = (p.d(), (F::one() - p).d());
            let f = move |x: f64| if x == 0.0 { sum(&[qd.ln()]) } else if x == 1.0 { sum(&[pd.ln()]) } else { (NEG, 0.0) };
            let pts = if z == Size::Small { vec![0, 1, 2] } else { (0..=255).collect() };
            (md::Bernoulli::new(p), Law { key: format!("Bernoulli({p:?})"), f: Rc::new(f), pts: Rc::new(pts) })
        })
        .collect()
}

pub fn binomial<F: Fl>(z: Size, edges: bool) -> Vec<(md::Binomial<F>, Law<u64>)> {
    let mut out = vec![];
    let ns: Vec<u64> = match z {
        Size::Small => vec![3, 1],
        Size::Quick => vec![0, 1, 2, 3, 4, 5, 7, 10, 12, 13, 20, 21, 22, 30, 50, 63, 64, 65, 67, 68, 99, 100, 101, 150, 200, 300, 1000],
        Size::Full => (0..=150).chain([170, 171, 200, 255, 256, 300, 500, 1000, 1001, 5000]).collect(),
        Size::Deep => (0..=700).chain([1000, 1001, 1023, 1024, 1025, 2000, 5000, 10_000]).collect(),
    };
    let mut ps = units(if z >= Size::Full { Size::Quick } else { z });
    if edges {
        ps.extend([0.0, 1.0]);
    }
    for &n in &ns {
        for &p in &ps {
            let p = F::of(p);
            let (pd, qd) = (p.d(), (F::one() - p).d());
            let f = move |x: f64| {
                if x <= n as f64 {
                    let c = ln_choose(n, x as u64);
                    let (v, s) = sum(&[c, xlogp(x, pd.ln()), xlogp(n as f64 - x, qd.ln())]);
                    (v, s + ln_fact(n))
                } else {
                    (NEG, 0.0)
                }
            };
            let mut pts: Vec<u64> = if z == Size::Small { vec![0, 1, 3, 5] } else if n <= 200 { (0..=n + 3).collect() } else { counts(Size::Quick) };
            pts.extend([n, n + 1, n + 1000]);
            out.push((md::Binomial::new(n, p), Law { key: format!("Binomial({n},{p:?})"), f: Rc::new(f), pts: Rc::new(pts) }));
        }
    }
    out
}

pub fn geometric<F: Fl>(z: Size, edges: bool) -> Vec<(md::Geometric<F>, Law<u64>)> {
    let mut ps = units(z);
    if edges {
        ps.push(1.0);
    }
    ps.into_iter()
        .map(|p| {
            let p = F::of(p);
            let (pd, qd) = (p.d(), (F::one() - p).d());
            let f = move |x: f64| if x >= 1.0 { sum(&[xlogp(x - 1.0, qd.ln()), pd.ln()]) } else { (NEG, 0.0) };
            (md::Geometric::new(p), Law { key: format!("Geometric({p:?})"), f: Rc::new(f), pts: Rc::new(counts(z)) })
        })
        .collect()
}

pub fn negative_binomial<F: Fl>(z: Size) -> Vec<(md::NegativeBinomial<F>, Law<u64>)> {
    let mut out = vec![];
    let rs: Vec<u64> = match z {
        Size::Small => vec![1, 3],
        Size::Quick => vec![1, 2, 3, 4, 5, 8, 10, 20, 21, 50, 100, 150, 200],
        Size::Full => (1..=60).chain([100, 128, 170, 171, 200, 500, 1000]).collect(),
        Size::Deep => (1..=300).chain([500, 999, 1000, 1001, 2000]).collect(),
    };
    for &r in &rs {
        for p in units(if z >= Size::Full { Size::Quick } else { z }) {
            let p = F::of(p);
            let (pd, qd) = (p.d(), (F::one() - p).d());
            let f = move |x: f64| {
                let k = x as u64;
                let c = ln_choose(k + r - 1, k.min(r - 1));
                let (v, s) = sum(&[c, x * pd.ln(), r as f64 * qd.ln()]);
                (v, s + ln_fact(k + r))
            };
            out.push((md::NegativeBinomial::new(r, p), Law { key: format!("NegativeBinomial({r},{p:?})"), f: Rc::new(f), pts: Rc::new(counts(if z >= Size::Full { Size::Quick } else { z })) }));
        }
    }
    out
}

pub fn poisson<F: Fl>(z: Size) -> Vec<(md::Poisson<F>, Law<u64>)> {
    positives(z)
        .into_iter()
        .map(|r| {
            let r = F::of(r);
            let rd = r.d();
            // log x! may be summed up term by term: its rounding grows with the number of terms
            let f = move |x: f64| {
                let l = ln_fact(x as u64);
                let (v, s) = sum(&[x * rd.ln(), -rd, -l]);
                (v, s + l * x / 5000.0)
            };
            (md::Poisson::new(r), Law { key: format!("Poisson({r:?})"), f: Rc::new(f), pts: Rc::new(counts(z)) })
        })
        .collect()
}

pub fn categorical<F: Fl>(z: Size, edges: bool) -> Vec<(md::Categorical<F>, Law<usize>)> {
    let mut ws: Vec<Vec<f64>> = vec![vec![1.0], vec![0.5, 0.5], vec![0.25, 0.75], vec![0.2, 0.3, 0.5]];
    if z != Size::Small {
        ws.extend([
            vec![0.9, 0.1],
            vec![0.01, 0.99],
            vec![0.1, 0.2, 0.3, 0.4],
            vec![0.4, 0.3, 0.2, 0.1],
            vec![0.7, 0.1, 0.1, 0.1],
            vec![0.125; 8],
            vec![0.1; 10],
            vec![1.0 / 3.0; 3],
            vec![0.05; 20],
        ]);
        // all compositions of 6 sixteenths-like weights: every order of a small multiset
        for p in mc::permutations(4) {
            let base = [0.0625, 0.1875, 0.25, 0.5];
            ws.push(p.iter().map(|&i| base[i]).collect());
        }
    }
    if edges {
        ws.extend([vec![0.0, 1.0], vec![1.0, 0.0], vec![0.5, 0.0, 0.5], vec![0.5, 0.5, 0.0]]);
    }
    ws.into_iter()
        .map(|w| {
            let p: Vec<F> = w.iter().map(|&x| F::of(x)).collect();
            let pd: Vec<f64> = p.iter().map(|x| x.d()).collect();
            let n = p.len();
            let key = format!("Categorical({p:?})");
            let f = move |x: f64| if (x as usize) < n { sum(&[pd[x as usize].ln()]) } else { (NEG, 0.0) };
            (md::Categorical::new(p), Law { key, f: Rc::new(f), pts: Rc::new((0..n + 3).chain([1000, usize::MAX / 2]).collect()) })
        })
        .collect()
}

/// Every family that has a log-density of its own: `$f(ck, dist, law)` for each parameter.
#[macro_export]
macro_rules! all_direct {
    ($F:ty, $z:expr, $ck:expr, $f:ident, $part:expr, $parts:expr) => {{
        for (d, l) in $crate::fam::normal::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::exponential::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::gamma::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::beta::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::chi_squared::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::cauchy::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::student_t::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::bernoulli::<$F>($z, true).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::binomial::<$F>($z, true).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::geometric::<$F>($z, true).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::negative_binomial::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::poisson::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::categorical::<$F>($z, true).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
    }};
}

/// Every exponential family with array-valued natural parameters, in the interior of its parameter space.
#[macro_export]
macro_rules! all_expfam_arrays {
    ($F:ty, $z:expr, $ck:expr, $f:ident, $part:expr, $parts:expr) => {{
        for (d, l) in $crate::fam::normal::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::exponential::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::gamma::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::beta::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::chi_squared::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::bernoulli::<$F>($z, false).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::binomial::<$F>($z, false).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::geometric::<$F>($z, false).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::negative_binomial::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
        for (d, l) in $crate::fam::poisson::<$F>($z).into_iter().skip($part).step_by($parts) { $f::<$F, _, _>($ck, &d, &l); }
    }};
}
