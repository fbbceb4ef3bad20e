use crate::fam::{self, Fl, Law, NEG, Pt, Size};
use crate::user;
use mc::{Check, quiet};
use measures_core::{DotProduct, HasLogDensity, LogDensityBuilder, Measure};
use measures_distributions as md;
use measures_exponential_family as ef;
use measures_exponential_family::ExponentialFamily;
use std::rc::Rc;
use measures_exponential_family::exponential_family::jit::{
    StaticInlineJITCompiler, ZeroOverheadOptimizer, generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt,
};

/// Every family is dealt out to this many parts.
const CH: usize = 24;

fn size(ck: &Check) -> Size {
    if ck.thorough() { Size::Deep } else { Size::Full }
}

// ---------------------------------------------------------------------------------------------- C02

fn law_of<F: Fl, X: Pt, D: HasLogDensity<X, F> + Measure<X>>(ck: &mut Check, d: &D, l: &Law<X>) {
    ck.state();
    let continuous = std::any::TypeId::of::<X>() == std::any::TypeId::of::<F>();
    let positive_everywhere_inside = !l.key.contains("0.0") && !l.key.contains("1.0") || continuous;
    for x in l.pts.iter() {
        let key = format!("{}|{}|x={x:?}", F::NAME, l.key);
        ck.at(&key, false);
        let want = l.at(x);
        let tol = l.tol::<F>(x);
        ck.expect(&key, clamp::<F>(want), F::RTOL, tol, || d.log_density_wrt_root(x).d());
        if continuous && (x.d() == 0.0 || x.d() == 1.0) {
            continue; // membership of the edge is a convention
        }
        match quiet(|| d.in_support(x.clone())) {
            Ok(s) => {
                if want > NEG {
                    ck.require(&format!("{key}|support"), s, || "a point of positive density is reported outside the support".into());
                } else if positive_everywhere_inside {
                    ck.require(&format!("{key}|support"), !s, || "a point without density is reported in the support".into());
                }
            }
            Err(p) => ck.fail(&format!("{key}|support"), &format!("panicked: {p}")),
        }
    }
    ck.trace();
}

/// what the model's value becomes in the target precision
fn clamp<F: Fl>(v: f64) -> f64 {
    F::of(v).d()
}

fn total<X: Pt, D: HasLogDensity<X, f64>>(ck: &mut Check, name: &str, d: &D, xs: impl Iterator<Item = X>, tol: f64) {
    let mut s = 0.0;
    let mut n = 0u64;
    for x in xs {
        s += d.log_density_wrt_root(&x).exp();
        n += 1;
    }
    ck.trace();
    ck.transitions += n;
    ck.close(&format!("{name}|total mass"), s, 1.0, 0.0, tol);
}

fn integral<D: HasLogDensity<f64, f64>>(ck: &mut Check, name: &str, d: &D, map: impl Fn(f64) -> (f64, f64), tol: f64) {
    // trapezoidal rule after a smoothing substitution: converges geometrically for these integrands
    let h = 1.0 / 64.0;
    let mut s = 0.0;
    for i in -2560..=2560 {
        let t = f64::from(i) * h;
        let (x, dx) = map(t);
        if x.is_finite() && dx > 0.0 && dx.is_finite() {
            let l = d.log_density_wrt_root(&x);
            if l > NEG {
                s += (l + dx.ln()).exp() * h;
            }
            ck.transitions += 1;
        }
    }
    ck.trace();
    ck.close(&format!("{name}|total mass"), s, 1.0, 0.0, tol);
}
fn on_reals(t: f64) -> (f64, f64) {
    (t.sinh(), t.cosh())
}
fn on_positives(t: f64) -> (f64, f64) {
    (t.exp(), t.exp())
}
fn on_unit(t: f64) -> (f64, f64) {
    let s = 1.0 / (1.0 + (-t).exp());
    (s, s * (1.0 / (1.0 + t.exp())))
}

pub fn c02() {
    let mut ck = Check::new("C02");
    let z = size(&ck);
    ck.parallel(2 * CH, |k, part| {
        if part < CH {
            all_direct!(f64, z, k, law_of, part, CH);
        } else {
            all_direct!(f32, z, k, law_of, part - CH, CH);
        }
    });
    // the named extra routes
    for (d, l) in fam::cauchy::<f64>(z) {
        for x in l.pts.iter() {
            ck.close(&format!("{}|log_pdf|x={x:?}", l.key), d.log_pdf(*x), l.at(x), 1e-10, l.tol::<f64>(x));
        }
    }
    for (d, l) in fam::student_t::<f64>(z) {
        for x in l.pts.iter() {
            ck.close(&format!("{}|log_pdf|x={x:?}", l.key), d.log_pdf(*x), l.at(x), 1e-10, l.tol::<f64>(x));
        }
    }
    // the standard normal exists only in exponential-family form
    for (d, l) in fam::std_normal::<f64>(z) {
        ck.state();
        for x in l.pts.iter() {
            ck.close(&format!("{}|x={x:?}", l.key), ExponentialFamily::<f64, f64>::exp_fam_log_density(&d, x), l.at(x), 1e-10, l.tol::<f64>(x));
            ck.require(&format!("{}|x={x:?}|support", l.key), d.in_support(*x), || "not in support".into());
        }
    }
    for (d, l) in fam::std_normal::<f32>(z) {
        for x in l.pts.iter() {
            ck.close(&format!("f32|{}|x={x:?}", l.key), f64::from(ExponentialFamily::<f32, f32>::exp_fam_log_density(&d, x)), clamp::<f32>(l.at(x)), 1e-5, l.tol::<f32>(x));
        }
    }
    // default distributions
    let n0 = md::Normal::<f64>::default();
    ck.close("default Normal", n0.log_density_wrt_root(&0.7), fam::law_normal(0.0, 1.0)(0.7).0, 1e-12, 0.0);
    ck.close("default Exponential", md::Exponential::<f64>::default().log_density_wrt_root(&0.7), -0.7, 1e-12, 0.0);
    ck.close("default Gamma", md::Gamma::<f64>::default().log_density_wrt_root(&0.7), -0.7, 1e-9, 1e-12);
    ck.close("default Beta", md::Beta::<f64>::default().log_density_wrt_root(&0.7), 0.0, 1e-9, 1e-12);
    ck.close("default ChiSquared", md::ChiSquared::<f64>::default().log_density_wrt_root(&0.7), -0.5 * (2.0 * std::f64::consts::PI * 0.7).ln() - 0.35, 1e-9, 1e-12);
    ck.close("default Cauchy", md::Cauchy::<f64>::default().log_density_wrt_root(&0.7), -(std::f64::consts::PI * 1.49).ln(), 1e-9, 1e-12);
    ck.close("standard Cauchy", md::Cauchy::<f64>::standard().log_density_wrt_root(&0.7), -(std::f64::consts::PI * 1.49).ln(), 1e-9, 1e-12);
    ck.close("default StudentT", md::StudentT::<f64>::default().log_density_wrt_root(&0.7), -(std::f64::consts::PI * 1.49).ln(), 1e-9, 1e-12);
    ck.close("default Bernoulli", md::Bernoulli::<f64>::default().log_density_wrt_root(&1), 0.5f64.ln(), 1e-12, 0.0);
    ck.close("default Geometric", md::Geometric::<f64>::default().log_density_wrt_root(&3), 3.0 * 0.5f64.ln(), 1e-12, 0.0);
    ck.close("default Poisson", md::Poisson::<f64>::default().log_density_wrt_root(&3), -1.0 - 6.0f64.ln(), 1e-12, 0.0);

    // normalisation, independent of the laws above
    for (d, l) in fam::bernoulli::<f64>(z, true) {
        total(&mut ck, &l.key, &d, 0..=255u8, 1e-12);
    }
    for (d, l) in fam::binomial::<f64>(z, true) {
        let n = d.n;
        total(&mut ck, &l.key, &d, 0..=n + 5, 1e-9);
    }
    for (d, l) in fam::categorical::<f64>(z, true) {
        total(&mut ck, &l.key, &d, 0..l.pts.len() + 5, 1e-9);
    }
    for (d, l) in fam::geometric::<f64>(z, true) {
        if d.prob >= 0.01 {
            total(&mut ck, &l.key, &d, 0..6000u64, 1e-9);
        }
    }
    for (d, l) in fam::poisson::<f64>(Size::Quick) {
        if d.rate <= 200.0 {
            total(&mut ck, &l.key, &d, 0..800u64, 1e-9);
        }
    }
    for (d, l) in fam::negative_binomial::<f64>(Size::Quick) {
        if d.prob <= 0.9 {
            total(&mut ck, &l.key, &d, 0..8000u64, 1e-8);
        }
    }
    let p = [0.75, 1.0, 2.0, 3.5, 10.0, 40.0];
    for &a in &p {
        integral(&mut ck, &format!("Exponential({a})"), &md::Exponential::new(a), on_positives, 1e-9);
        integral(&mut ck, &format!("ChiSquared({a})"), &md::ChiSquared::new(a), on_positives, 1e-6);
        integral(&mut ck, &format!("StudentT({a})"), &md::StudentT::new(a), on_reals, 1e-6);
        for &b in &p {
            integral(&mut ck, &format!("Normal({a},{b})"), &md::Normal::new(a, b), move |t| { let (x, d) = on_reals(t); (a + b * x, b * d) }, 1e-8);
            integral(&mut ck, &format!("Cauchy({a},{b})"), &md::Cauchy::new(a, b), move |t| { let (x, d) = on_reals(t); (a + b * x, b * d) }, 1e-8);
            integral(&mut ck, &format!("Gamma({a},{b})"), &md::Gamma::new(a, b), on_positives, 1e-8);
            integral(&mut ck, &format!("Beta({a},{b})"), &md::Beta::new(a, b), on_unit, 1e-8);
        }
    }
    ck.assume("the reference laws in harness/mc-measures/src/fam.rs are the textbook laws (cross-checked by the total masses)");
    ck.assume("the value at an edge of a continuous support where the density does not vanish is a convention and not judged");
    ck.finish("all 14 families x parameter alphabet x point alphabet (edges, tails, every u8, every category) x {f32,f64}");
}

// ---------------------------------------------------------------------------------------------- C03

fn dots<F: Fl>(a: &[F], b: &[F]) -> (f64, f64) {
    let mut s = 0.0;
    let mut m = 0.0;
    for (x, y) in a.iter().zip(b) {
        s += x.d() * y.d();
        m += (x.d() * y.d()).abs();
    }
    (s, m)
}

fn form<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + AsRef<[F]>,
    D::SufficientStat: AsRef<[F]>,
    D::BaseMeasure: HasLogDensity<X, F>,
{
    ck.state();
    let k = format!("{}|{}", F::NAME, l.key);
    let Ok((eta, a)) = quiet(|| d.natural_and_log_partition()) else {
        ck.fail(&k, "natural parameters: panicked");
        return;
    };
    let e = eta.as_ref().to_vec();
    ck.require(&format!("{k}|to_natural"), d.to_natural().as_ref() == &e[..], || "to_natural differs from natural_and_log_partition".into());
    ck.close(&format!("{k}|log_partition"), d.log_partition().d(), a.d(), 1e-12, 0.0);
    for x in l.support() {
        let key = format!("{k}|x={x:?}");
        ck.at(&key, false);
        let want = clamp::<F>(l.at(&x));
        let r = quiet(|| {
            let t = d.sufficient_statistic(&x);
            let h = d.base_measure().log_density_wrt_root(&x).d();
            (t.as_ref().to_vec(), h)
        });
        let Ok((t, h)) = r else {
            ck.fail(&key, "panicked");
            continue;
        };
        ck.require(&format!("{key}|dim"), t.len() == e.len(), || format!("{} natural parameters, {} statistics", e.len(), t.len()));
        let (et, m) = dots(&e, &t);
        let tol = l.tol::<F>(&x) + F::RTOL * (m + a.d().abs() + h.abs());
        if want.is_finite() && m < if F::NAME == "f32" { 1e30 } else { 1e200 } {
            let alt = l.form_defect(&x);
            ck.close_alt(&format!("{key}|parts"), et - a.d() + h, want, F::RTOL, tol, alt);
            ck.expect_alt(&key, want, F::RTOL, tol, alt, || d.exp_fam_log_density(&x).d());
            ck.expect_alt(&format!("{key}|helper"), want, F::RTOL, tol, alt, || ef::exponential_family::traits::compute_exp_fam_log_density(d, &x).d());
        } else {
            ck.outside += 1;
        }
    }
    ck.trace();
}

/// The wrapper that marks a measure as an exponential family has the measure's support and root.
fn wrapped<X: Pt, F: Fl, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    D: ef::exponential_family::traits::ExponentialFamilyMeasure<X, F>,
    D::RootMeasure: HasLogDensity<X, F> + 'static,
{
    let w = ef::ExpFam::<D, F>::new(d.clone());
    let copy = w.clone();
    for x in l.pts.iter() {
        let inside = l.at(x) > NEG;
        ck.require(&format!("ExpFam({})|x={x:?}|support", l.key), w.in_support(x.clone()) == inside && copy.in_support(x.clone()) == inside && w.measure.in_support(x.clone()) == inside, || format!("membership is not {inside}"));
        ck.close(&format!("ExpFam({})|x={x:?}|root", l.key), w.root_measure().log_density_wrt_root(x).d(), 0.0, 0.0, 0.0);
    }
    ck.state();
}

/// Families whose natural parameter determines them.
fn round_trip<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + HasLogDensity<X, F>,
    D::NaturalParam: AsRef<[F]>,
{
    let k = format!("{}|{}|round trip", F::NAME, l.key);
    ck.at(&k, false);
    ck.trace();
    // these families keep a shape as shape - 1: one that is lost beside the 1 cannot come back
    if ["Beta(", "Gamma(", "ChiSquared("].iter().any(|p| l.key.starts_with(p)) && d.to_natural().as_ref().iter().any(|e| (e.d() + 1.0).abs() < 500.0 * F::epsilon().d()) {
        ck.outside += 1;
        return;
    }
    let Ok(e) = quiet(|| D::from_natural(d.to_natural())) else {
        ck.fail(&k, "panicked");
        return;
    };
    let loose = if F::NAME == "f32" { 2e-4 } else { 1e-8 };
    let (n1, n2) = (d.to_natural(), e.to_natural());
    for (i, (a, b)) in n1.as_ref().iter().zip(n2.as_ref()).enumerate() {
        ck.close(&format!("{k}|natural parameter {i}"), b.d(), a.d(), loose, loose);
    }
    for x in l.support() {
        let want = l.at(&x);
        // how strongly the value reacts to the rounding of the parameters grows with its terms
        let tol = loose * (1.0 + (l.f)(x.d()).1);
        if want.abs() < 1e6 {
            ck.expect(&format!("{k}|x={x:?}"), want, loose, tol, || e.log_density_wrt_root(&x).d());
        }
    }
}

/// The parameters themselves come back, over the whole range of the type in which the natural parameters are
/// normal numbers; the error allowed is the rounding of the natural parameters carried through the inverse.
fn parameters_return<F: Fl>(ck: &mut Check) {
    let e = F::epsilon().d();
    let n = F::NAME;
    // σ^2, 1/σ^2 and μ/σ^2 stay normal up to here
    let top = if n == "f32" { 50 } else { 400 };
    fn back<X: Clone, F: Fl, D: ExponentialFamily<X, F>>(ck: &mut Check, key: &str, d: &D) -> Option<D> {
        ck.at(key, false);
        ck.state();
        ck.trace();
        match quiet(|| D::from_natural(d.to_natural())) {
            Ok(r) => Some(r),
            Err(p) => {
                ck.fail(key, &format!("panicked: {p}"));
                None
            }
        }
    }
    for k in -top..=top {
        for m in [1.0, 1.25, 1.75] {
            let s = F::of(m * 2f64.powi(k));
            for r in [0.0, 1.0, -3.0, 0.001, -700.0, 1e4] {
                let d = md::Normal::new(F::of(r) * s, s);
                let key = format!("{n}|Normal({:?},{s:?})|parameters", d.mean);
                if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                    ck.close(&format!("{key}|std_dev"), b.std_dev.d(), s.d(), 16.0 * e, 0.0);
                    ck.close(&format!("{key}|mean"), b.mean.d(), d.mean.d(), 16.0 * e, 0.0);
                }
            }
            let d = md::Exponential::new(s);
            let key = format!("{n}|Exponential({s:?})|parameters");
            if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                ck.close(&format!("{key}|rate"), b.rate.d(), s.d(), 8.0 * e, 0.0);
            }
            let d = md::Poisson::new(s);
            let key = format!("{n}|Poisson({s:?})|parameters");
            if let Some(b) = back::<u64, F, _>(ck, &key, &d) {
                ck.close(&format!("{key}|rate"), b.rate.d(), s.d(), 8.0 * e * (1.0 + s.d().ln().abs()), 0.0);
            }
            for a in [0.25, 1.0, 2.5, 12.0, 300.0] {
                let d = md::Gamma::new(F::of(a), s);
                let key = format!("{n}|Gamma({a},{s:?})|parameters");
                if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                    ck.close(&format!("{key}|shape"), b.shape.d(), a, 8.0 * e, 8.0 * e);
                    ck.close(&format!("{key}|rate"), b.rate.d(), s.d(), 8.0 * e, 0.0);
                }
            }
            // shapes are kept less one: those far below one are lost beside it
            if (-10..=60).contains(&k) {
                let d = md::Gamma::new(s, F::of(0.75));
                let key = format!("{n}|Gamma({s:?},0.75)|parameters");
                if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                    ck.close(&format!("{key}|shape"), b.shape.d(), s.d(), 8.0 * e, 8.0 * e);
                    ck.close(&format!("{key}|rate"), b.rate.d(), 0.75, 8.0 * e, 0.0);
                }
                let d = md::ChiSquared::new(s);
                let key = format!("{n}|ChiSquared({s:?})|parameters");
                if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                    ck.close(&format!("{key}|dof"), b.degrees_of_freedom.d(), s.d(), 8.0 * e, 16.0 * e);
                }
                for t in [0.25, 1.0, 40.0, 1e6] {
                    let d = md::Beta::new(s, F::of(t));
                    let key = format!("{n}|Beta({s:?},{t})|parameters");
                    if let Some(b) = back::<F, F, _>(ck, &key, &d) {
                        ck.close(&format!("{key}|alpha"), b.alpha.d(), s.d(), 8.0 * e, 8.0 * e);
                        ck.close(&format!("{key}|beta"), b.beta.d(), t, 8.0 * e, 8.0 * e);
                    }
                }
            }
            // probabilities close to zero, in the middle, and close to one
            for p in [s, F::one() - s] {
                if !(p > F::zero() && p < F::one()) {
                    continue;
                }
                let d = md::Bernoulli::new(p);
                let key = format!("{n}|Bernoulli({p:?})|parameters");
                if let Some(b) = back::<u8, F, _>(ck, &key, &d) {
                    ck.close(&format!("{key}|prob"), b.prob.d(), p.d(), 8.0 * e * (1.0 + p.d().ln().abs()), 0.0);
                }
                let d = md::Geometric::new(p);
                let key = format!("{n}|Geometric({p:?})|parameters");
                // a probability below the rounding of one is lost in log(1 - p)
                if p.d() > 1e3 * e {
                    if let Some(b) = back::<u64, F, _>(ck, &key, &d) {
                        ck.close(&format!("{key}|prob"), b.prob.d(), p.d(), 0.0, 8.0 * e);
                    }
                }
            }
        }
    }
}

pub fn c03() {
    let mut ck = Check::new("C03");
    let z = size(&ck);
    ck.parallel(2 * CH, |k, part| {
        if part < CH {
            all_expfam_arrays!(f64, z, k, form, part, CH);
        } else {
            all_expfam_arrays!(f32, Size::Full, k, form, part - CH, CH);
        }
    });
    for (d, l) in fam::std_normal::<f64>(z) {
        form::<f64, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in fam::std_normal::<f32>(z) {
        form::<f32, _, _>(&mut ck, &d, &l);
    }
    // families written by a user
    for (d, l) in user::three::<f64>() {
        form::<f64, _, _>(&mut ck, &d, &l);
        round_trip::<f64, _, _>(&mut ck, &d, &l);
        wrapped::<f64, f64, _>(&mut ck, &d, &l);
    }
    for (d, l) in user::three::<f32>() {
        form::<f32, _, _>(&mut ck, &d, &l);
        round_trip::<f32, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in user::odd::<f64>() {
        ck.state();
        wrapped::<u64, f64, _>(&mut ck, &d, &l);
        for x in l.support() {
            ck.expect(&format!("{}|x={x}", l.key), l.at(&x), 1e-12, 1e-12, || d.exp_fam_log_density(&x));
            ck.expect(&format!("{}|x={x}|separate methods", l.key), l.at(&x), 1e-12, 1e-12, || d.to_natural().dot(&d.sufficient_statistic(&x)) - d.log_partition() + d.base_measure().log_density_wrt_root(&x));
            ck.expect(&format!("{}|x={x}|helper", l.key), l.at(&x), 1e-12, 1e-12, || ef::exponential_family::traits::compute_exp_fam_log_density(&d, &x));
        }
        ck.trace();
    }
    for (d, l) in fam::categorical::<f64>(z, false) {
        form::<f64, _, _>(&mut ck, &d, &l);
        round_trip::<f64, _, _>(&mut ck, &d, &l);
        for x in l.pts.iter() {
            if l.at(x) == NEG {
                ck.close(&format!("{}|outside x={x:?}", l.key), d.exp_fam_log_density(x), NEG, 0.0, 0.0);
            }
        }
    }
    macro_rules! rt {
        ($F:ty) => {
            // parameters for which the natural parametrisation is well conditioned in this precision
            let small = |p: f64| (1e-2..=1e2).contains(&p);
            for (d, l) in fam::normal::<$F>(z) { if small(d.std_dev.into()) && f64::from(d.mean.abs()) <= 10.0 * f64::from(d.std_dev) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::exponential::<$F>(z) { round_trip::<$F, _, _>(&mut ck, &d, &l); }
            for (d, l) in fam::gamma::<$F>(z) { if small(d.shape.into()) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::beta::<$F>(z) { if small(d.alpha.into()) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::chi_squared::<$F>(z) { if small(d.degrees_of_freedom.into()) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::bernoulli::<$F>(z, false) { if (0.01..=0.99).contains(&f64::from(d.prob)) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::geometric::<$F>(z, false) { if (0.01..=0.99).contains(&f64::from(d.prob)) { round_trip::<$F, _, _>(&mut ck, &d, &l); } }
            for (d, l) in fam::poisson::<$F>(z) { round_trip::<$F, _, _>(&mut ck, &d, &l); }
        };
    }
    rt!(f64);
    rt!(f32);
    ck.parallel(2, |k, part| if part == 0 { parameters_return::<f64>(k) } else { parameters_return::<f32>(k) });
    // extreme natural parameters still give a distribution
    for i in -80..=80i32 {
        let eta = f64::from(i) * 10.0;
        let key = format!("Bernoulli from natural {eta}");
        match quiet(|| <md::Bernoulli<f64> as ExponentialFamily<u8, f64>>::from_natural([eta])) {
            Ok(d) => {
                ck.close(&format!("{key}|x=1"), d.log_density_wrt_root(&1).exp(), 1.0 / (1.0 + (-eta).exp()), 1e-12, 0.0);
                ck.close(&format!("{key}|x=0"), d.log_density_wrt_root(&0).exp(), 1.0 / (1.0 + eta.exp()), 1e-9, 1e-15);
            }
            Err(p) => ck.fail(&key, &format!("panicked: {p}")),
        }
        for j in [-60i32, 0, 3, 75] {
            let e2 = f64::from(j) * 10.0;
            let key = format!("Categorical from natural [{eta},{e2}]");
            match quiet(|| <md::Categorical<f64> as ExponentialFamily<usize, f64>>::from_natural(vec![eta, e2])) {
                Ok(d) => {
                    let m = eta.max(e2).max(0.0);
                    let w = [(eta - m).exp(), (e2 - m).exp(), (-m).exp()];
                    let s: f64 = w.iter().sum();
                    for (x, wx) in w.iter().enumerate() {
                        ck.close(&format!("{key}|x={x}"), d.log_density_wrt_root(&x).exp(), wx / s, 1e-12, 1e-300);
                    }
                }
                Err(p) => ck.fail(&key, &format!("panicked: {p}")),
            }
        }
    }
    ck.assume("binomial and negative binomial cannot be rebuilt from the natural parameter alone (documented): no round trip");
    ck.assume("parameters strictly inside the natural parameter space (no probability 0 or 1)");
    ck.finish("all 12 exponential families x parameter alphabet x support points of the alphabet x {f32,f64}");
}

// ---------------------------------------------------------------------------------------------- C07

fn closures<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X> + HasLogDensity<X, F> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + Clone,
    D::BaseMeasure: HasLogDensity<X, F> + Clone,
    D::RootMeasure: HasLogDensity<X, F> + Clone,
{
    ck.state();
    let k = format!("{}|{}", F::NAME, l.key);
    ck.at(&k, true);
    let (eta_scale, hs) = {
        let a = d.log_partition().d().abs();
        (a, ())
    };
    let () = hs;
    let f1 = d.clone().zero_overhead_optimize();
    let f2 = generate_zero_overhead_exp_fam::<D, X, F>(d.clone());
    let f3 = d.clone().zero_overhead_optimize_wrt(d.root_measure());
    let f4 = generate_zero_overhead_exp_fam_wrt::<D, D, X, F>(d.clone(), d.clone());
    let pts = l.support();
    let fs: [(&str, &dyn Fn(&X) -> F); 3] = [("optimize", &f1), ("generate", &f2), ("optimize wrt root", &f3)];
    let pos = |ck: &mut Check, order: &str, xs: &mut dyn Iterator<Item = &X>, first: &mut std::collections::HashMap<String, u64>| {
        for x in xs {
            let want = clamp::<F>(l.at(x));
            let t = d.sufficient_statistic(x);
            let et = d.to_natural().dot(&t).d();
            let direct = d.log_density_wrt_root(x).d();
            if !want.is_finite() || !et.is_finite() {
                ck.outside += 1;
                continue;
            }
            let tol = l.tol::<F>(x) + F::RTOL * (x.d() * x.d() * norm_curvature(l) + et.abs() + eta_scale);
            for (name, f) in fs {
                let key = format!("{k}|{name}|x={x:?}");
                match quiet(|| f(x).d()) {
                    Ok(v) => {
                        ck.close_alt(&key, v, want, F::RTOL, tol, l.form_defect(x));
                        ck.close_alt(&format!("{key}|direct"), v, direct, F::RTOL, tol, l.form_defect(x));
                        let id = format!("{name}|{x:?}");
                        let old = *first.entry(id).or_insert(v.to_bits());
                        ck.require(&format!("{key}|{order}"), old == v.to_bits(), || "the value changed between calls".into());
                    }
                    Err(p) => ck.fail(&key, &format!("panicked: {p}")),
                }
            }
            ck.expect_alt(&format!("{k}|wrt itself|x={x:?}"), 0.0, 0.0, tol, l.form_defect(x), || f4(x).d());
        }
    };
    let mut first = std::collections::HashMap::new();
    pos(ck, "forward", &mut pts.iter(), &mut first);
    pos(ck, "backward", &mut pts.iter().rev(), &mut first);
    ck.traces += 4;
}

/// eta . T of a normal cancels against the log partition: the size of the cancelled terms
pub fn norm_curvature<X>(l: &Law<X>) -> f64 {
    l.key.strip_prefix("Normal(").and_then(|s| s.trim_end_matches(')').split_once(',')).and_then(|(_, s)| s.parse::<f64>().ok()).map_or(0.0, |s| 1.0 / (s * s))
}

fn relative<X, D, B>(ck: &mut Check, d: &D, l: &Law<X>, b: &B, bl: &Law<X>)
where
    X: Pt,
    D: ExponentialFamily<X, f64> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = f64> + Clone,
    D::BaseMeasure: HasLogDensity<X, f64> + Clone,
    B: Measure<X> + HasLogDensity<X, f64> + Clone,
{
    ck.state();
    let f = d.clone().zero_overhead_optimize_wrt(b.clone());
    let g = generate_zero_overhead_exp_fam_wrt::<D, B, X, f64>(d.clone(), b.clone());
    for _ in 0..2 {
        for x in l.support() {
            if bl.at(&x) == NEG {
                continue;
            }
            let key = format!("{} wrt {}|x={x:?}", l.key, bl.key);
            let want = l.at(&x) - bl.at(&x);
            let tol = l.tol::<f64>(&x) + bl.tol::<f64>(&x) + 1e-10 * x.d() * x.d() * (norm_curvature(l) + norm_curvature(bl));
            ck.expect_alt(&key, want, 1e-9, tol, l.form_defect(&x), || f(&x));
            ck.expect_alt(&format!("{key}|generate"), want, 1e-9, tol, l.form_defect(&x), || g(&x));
        }
    }
    ck.traces += 2;
}

pub fn c07() {
    let mut ck = Check::new("C07");
    let z = size(&ck);
    ck.parallel(2 * CH, |k, part| {
        if part < CH {
            all_expfam_arrays!(f64, z, k, closures, part, CH);
        } else {
            all_expfam_arrays!(f32, Size::Full, k, closures, part - CH, CH);
        }
    });
    for (d, l) in user::three::<f64>() {
        closures::<f64, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in user::three::<f32>() {
        closures::<f32, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in user::odd::<f64>() {
        closures::<f64, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in user::odd::<f32>() {
        closures::<f32, _, _>(&mut ck, &d, &l);
    }
    for (d, l) in fam::categorical::<f64>(z, false) {
        closures::<f64, _, _>(&mut ck, &d, &l);
    }
    // relative to another measure: all ordered pairs of small families on the same space
    macro_rules! rel {
        ($($a:expr),*; $bs:tt) => { $( rel!(@row $a; $bs); )* };
        (@row $a:expr; [$($b:expr),*]) => { $( for (d, l) in $a { for (b, bl) in $b { relative(&mut ck, &d, &l, &b, &bl); } } )* };
    }
    use fam::*;
    let s = if ck.thorough() { Size::Small } else { Size::Small };
    rel!(normal::<f64>(s), exponential::<f64>(s), gamma::<f64>(s), beta::<f64>(s), chi_squared::<f64>(s);
        [normal::<f64>(s), exponential::<f64>(s), gamma::<f64>(s), beta::<f64>(s), chi_squared::<f64>(s), cauchy::<f64>(s), student_t::<f64>(s)]);
    rel!(poisson::<f64>(s), binomial::<f64>(s, false), geometric::<f64>(s, false), negative_binomial::<f64>(s);
        [poisson::<f64>(s), binomial::<f64>(s, false), geometric::<f64>(s, false), negative_binomial::<f64>(s)]);
    rel!(user::odd::<f64>(), poisson::<f64>(s); [poisson::<f64>(s), geometric::<f64>(s, false), user::odd::<f64>()]);
    rel!(user::three::<f64>(), normal::<f64>(s); [normal::<f64>(s), cauchy::<f64>(s), user::three::<f64>()]);
    rel!(bernoulli::<f64>(s, false); [bernoulli::<f64>(s, false)]);
    rel!(categorical::<f64>(s, false); [categorical::<f64>(s, false)]);

    // relative to measures that are no families: roots, coefficient measures, weighted and integral measures
    fn law<X: Pt>(key: &str, f: impl Fn(f64) -> f64 + 'static) -> Law<X> {
        Law {
            key: key.into(),
            f: Rc::new(move |x| {
                let v = f(x);
                (v, if v.is_finite() { v.abs() } else { 0.0 })
            }),
            pts: Rc::new(vec![]),
        }
    }
    {
        use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
        use measures_combinators::measures::derived::factorial::FactorialMeasure;
        use measures_combinators::measures::derived::integral::IntegralMeasure;
        use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
        use measures_combinators::measures::derived::weighted::WeightedMeasure;
        use measures_combinators::{CountingMeasure, LebesgueMeasure};
        use mc::num::{ln_choose, ln_fact};
        macro_rules! counts_wrt {
            ($($a:expr),*) => { $( for (d, l) in $a {
                relative(&mut ck, &d, &l, &CountingMeasure::<u64>::default(), &law("Counting", |_| 0.0));
                relative(&mut ck, &d, &l, &measures_core::primitive::counting::CountingMeasure::<u64>::new(), &law("core Counting", |_| 0.0));
                relative(&mut ck, &d, &l, &FactorialMeasure::<f64>::new(), &law("Factorial", |k| -ln_fact(k as u64)));
                relative(&mut ck, &d, &l, &user::Tilted, &law("Tilted", |k| 1.5 - 0.25 * k));
                relative(&mut ck, &d, &l, &WeightedMeasure::<_, f64, u64>::new(FactorialMeasure::<f64>::new(), -0.75f64), &law("Weighted(Factorial)", |k| -0.75 - ln_fact(k as u64)));
                for n in [0u64, 5, 40] {
                    relative(&mut ck, &d, &l, &BinomialCoefficientMeasure::<f64>::new(n), &law(&format!("BinomialCoefficient({n})"), move |k| if k as u64 <= n { ln_choose(n, k as u64) } else { NEG }));
                }
                for r in [1u64, 4] {
                    relative(&mut ck, &d, &l, &NegativeBinomialCoefficientMeasure::<f64>::new(r), &law(&format!("NegativeBinomialCoefficient({r})"), move |k| ln_choose(k as u64 + r - 1, k as u64)));
                }
            } )* };
        }
        counts_wrt!(poisson::<f64>(s), binomial::<f64>(s, false), geometric::<f64>(s, false), negative_binomial::<f64>(s), user::odd::<f64>());
        macro_rules! reals_wrt {
            ($($a:expr),*) => { $( for (d, l) in $a {
                relative(&mut ck, &d, &l, &LebesgueMeasure::<f64>::default(), &law("Lebesgue", |_| 0.0));
                relative(&mut ck, &d, &l, &measures_core::primitive::lebesgue::LebesgueMeasure::<f64>::new(), &law("core Lebesgue", |_| 0.0));
                relative(&mut ck, &d, &l, &user::Tilted, &law("Tilted", |x| 0.75 * x - 1.25));
                relative(&mut ck, &d, &l, &WeightedMeasure::<_, f64, f64>::new(user::Tilted, 2.5f64), &law("Weighted(Tilted)", |x| 2.5 + 0.75 * x - 1.25));
                relative(&mut ck, &d, &l, &IntegralMeasure::new(user::Tilted, |x: &f64| 3.0 - x), &law("Integral(Tilted)", |x| 3.0 - x + 0.75 * x - 1.25));
            } )* };
        }
        reals_wrt!(normal::<f64>(s), exponential::<f64>(s), gamma::<f64>(s), beta::<f64>(s), chi_squared::<f64>(s), user::three::<f64>());
        for (d, l) in bernoulli::<f64>(s, false) {
            relative(&mut ck, &d, &l, &CountingMeasure::<u8>::default(), &law("Counting", |_| 0.0));
        }
        for (d, l) in categorical::<f64>(s, false) {
            relative(&mut ck, &d, &l, &CountingMeasure::<usize>::default(), &law("Counting", |_| 0.0));
        }
    }

    // statically inlined functions
    for (d, l) in normal::<f64>(z) {
        ck.state();
        let f = StaticInlineJITCompiler::compile_normal(d.mean, d.std_dev);
        for x in l.pts.iter().chain(l.pts.iter().rev()) {
            ck.expect(&format!("static {}|x={x:?}", l.key), l.at(x), 1e-10, l.tol::<f64>(x), || f.call(*x));
        }
        ck.trace();
    }
    // scales whose square is not representable
    for s in [1e-300, 1e-200, 1e-170, 1e-160, 1e150, 1e160, 1e200, 1e300] {
        for m in [0.0, 1.5 * s, -3.0, 1e10] {
            ck.state();
            let f = StaticInlineJITCompiler::compile_normal(m, s);
            let law = law_normal(m, s);
            for k in [0.0, 0.5, -1.0, 2.0, -7.5, 40.0] {
                let x = m + k * s;
                let (want, size) = law(x);
                ck.expect(&format!("static Normal({m:?},{s:?})|x={x:?}"), want, 1e-10, 1e-14 * size, || f.call(x));
            }
            ck.trace();
        }
    }
    for (d, l) in exponential::<f64>(z) {
        ck.state();
        let f = StaticInlineJITCompiler::compile_exponential(d.rate);
        for x in l.pts.iter().chain(l.pts.iter().rev()) {
            ck.expect(&format!("static {}|x={x:?}", l.key), l.at(x), 1e-10, l.tol::<f64>(x), || f.call(*x));
        }
        ck.trace();
    }
    // joint distributions are exponential families too
    use measures_exponential_family::IIDExtension;
    for n in 0..=3usize {
        let (d, l) = normal::<f64>(Size::Small).remove(0);
        let f = IIDExtension::<f64, f64>::iid(d).zero_overhead_optimize();
        let xs: Vec<f64> = l.pts[..n].to_vec();
        let want: f64 = xs.iter().map(|x| l.at(x)).sum();
        ck.expect(&format!("IID(Normal)|optimize|n={n}"), want, 1e-9, 1e-9, || f(&xs));
        let (d, l) = geometric::<f64>(Size::Small, false).remove(1);
        let f = IIDExtension::<u64, f64>::iid(d).zero_overhead_optimize();
        let xs: Vec<u64> = l.support()[..n.min(2)].to_vec();
        if xs.len() == n {
            let want: f64 = xs.iter().map(|x| l.at(x)).sum();
            ck.expect(&format!("IID(Geometric)|optimize|n={n}"), want, 1e-9, 1e-9, || f(&xs));
        }
    }
    let _ = LogDensityBuilder::<f64>::log_density(&md::Normal::new(0.0, 1.0));
    crate::native::run(&mut ck);
    ck.assume("points of the support, parameters inside the natural parameter space (the forms are stated for the support)");
    ck.finish("all optimisable families x parameter alphabet x support points, forward then backward call order, and all ordered family pairs for the relative form, and each family relative to root, coefficient, weighted, integral and zero-sized measures");
}
