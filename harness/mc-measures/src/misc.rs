//! C10 combinatorial base measures, C20 constructors and accessors, C23 conversions and dot products.

use crate::fam::{Fl, NEG};
use mc::num::{ln_choose, ln_fact, ln_gamma};
use mc::{Check, close, quiet, sequences};
use measures_combinators::measures::combinators::superposition::MixtureMeasure;
use measures_combinators::measures::derived::binomial_coefficient::log_binomial_coefficient;
use measures_combinators::measures::derived::factorial::log_factorial;
use measures_combinators::measures::derived::negative_binomial_coefficient::log_negative_binomial_coefficient;
use measures_combinators::measures::derived::{BinomialCoefficientMeasure, FactorialMeasure, NegativeBinomialCoefficientMeasure};
use measures_core::{DotProduct, HasLogDensity, Measure, float_constant, safe_convert, safe_convert_or, safe_float_convert};
use measures_distributions as md;
use measures_exponential_family::SumSufficientStats;
use std::fmt::Debug;

// ---------------------------------------------------------------------------------------------- C10

fn big_counts(thorough: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for e in (10..=63).step_by(if thorough { 1 } else { 2 }) {
        for d in [-1i64, 0, 1] {
            v.push((1u64 << e).wrapping_add_signed(d));
        }
    }
    v.extend([1000, 1_000_000, 1_000_000_000, 123_456_789]);
    v
}

fn c10_prec<F: Fl>(ck: &mut Check, part: usize) {
    let th = ck.thorough();
    match part {
        0 => factorials::<F>(ck, th),
        1 => triangle::<F>(ck, th),
        _ => diagonals::<F>(ck, th),
    }
}

fn factorials<F: Fl>(ck: &mut Check, th: bool) {
    // log k!: a running compensated sum is the reference (the closed form takes over beyond the table)
    let top: u64 = if th { 60_000_000 } else { 4_000_000 };
    let fm = FactorialMeasure::<F>::new();
    let (mut s, mut c) = (0.0f64, 0.0f64);
    let mut judge = |ck: &mut Check, k: u64, want: f64| {
        let key = format!("{}|factorial|k={k}", F::NAME);
        ck.at(&key, false);
        ck.state();
        ck.close(&key, log_factorial::<F>(k).d(), want, F::RTOL / 100.0 + F::epsilon().d() * 4.0, F::epsilon().d());
        ck.close(&format!("{key}|measure"), HasLogDensity::<u64, F>::log_density_wrt_root(&fm, &k).d(), -want, F::RTOL / 100.0 + F::epsilon().d() * 4.0, F::epsilon().d());
        ck.require(&format!("{key}|support"), fm.in_support(k), || "not in the support".into());
    };
    for k in 0..=top {
        if k > 1 {
            let y = (k as f64).ln() - c;
            let t = s + y;
            c = (t - s) - y;
            s = t;
        }
        judge(ck, k, s);
    }
    for k in big_counts(th) {
        judge(ck, k, ln_fact(k));
    }
    ck.trace();
}

/// A positive number of any size, with the precision of a double.
#[derive(Clone, Copy)]
struct Wide(f64, i32);
impl Wide {
    fn plus(self, o: Wide) -> Wide {
        let (a, b) = if self.1 >= o.1 { (self, o) } else { (o, self) };
        let m = a.0 + b.0 * 2f64.powi((b.1 - a.1).max(-1000));
        if m >= 1e100 { Wide(m * 2f64.powi(-300), a.1 + 300) } else { Wide(m, a.1) }
    }
    fn ln(self) -> f64 {
        self.0.ln() + f64::from(self.1) * std::f64::consts::LN_2
    }
}

/// log-gamma values are subtracted up to here; beyond, the coefficient itself is what has to be right
fn tolerance<F: Fl>(n: u64, want: f64) -> f64 {
    let own = F::epsilon().d() * (8.0 + 8.0 * want.abs());
    if n > 1000 { own } else { own + 2e-15 * ln_fact(n) }
}

fn triangle<F: Fl>(ck: &mut Check, th: bool) {
    // log C(n,k) on the whole triangle by Pascal's rule
    let nmax: usize = if th { 4200 } else { 2100 };
    let mut row = vec![Wide(1.0, 0)];
    let check_c = |ck: &mut Check, n: u64, k: u64, want: f64| {
        let key = format!("{}|binomial|n={n}|k={k}", F::NAME);
        ck.at(&key, false);
        ck.state();
        let tol = tolerance::<F>(n, want);
        ck.close(&key, log_binomial_coefficient::<F>(n, k).d(), want, 0.0, tol);
        let m = BinomialCoefficientMeasure::<F>::new(n);
        ck.close(&format!("{key}|measure"), HasLogDensity::<u64, F>::log_density_wrt_root(&m, &k).d(), want, 0.0, tol);
        ck.require(&format!("{key}|support"), m.in_support(k) == (k <= n), || "support".into());
    };
    for n in 0..=nmax {
        for k in 0..=n {
            check_c(ck, n as u64, k as u64, row[k].ln());
        }
        for k in [n + 1, n + 2, n + 100, 1 << 40] {
            check_c(ck, n as u64, k as u64, NEG);
        }
        let mut next = vec![Wide(1.0, 0)];
        for k in 1..=n {
            next.push(row[k - 1].plus(row[k]));
        }
        next.push(Wide(1.0, 0));
        row = next;
        ck.trace();
    }
    let few = few_counts(th);
    for n in big_counts(th).into_iter().chain(few.iter().copied().filter(|&n| n > 1000)) {
        let near = [n / 7, n / 3, n / 2 - 1, n / 2, n / 2 + 1, n - n / 5];
        for k in few.iter().copied().chain(near).chain([n.saturating_add(1), u64::MAX]) {
            check_c(ck, n, k, ln_choose(n, k));
            if k < n {
                check_c(ck, n, n - k, ln_choose(n, k));
            }
        }
    }
}

fn few_counts(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=if th { 200 } else { 70 }).collect();
    v.extend([99, 100, 101, 170, 171, 255, 256, 999, 1000, 1001, 1023, 1024, 5000, 65_535, 65_536, 100_000, 1_000_000, 1_000_001, 123_456_789, 1 << 32, 1_000_000_000_000, 1 << 53, (1 << 53) + 1]);
    v
}

fn diagonals<F: Fl>(ck: &mut Check, th: bool) {
    // log C(k+r-1, k): the same triangle read along its diagonals
    let m = if th { 2500u64 } else { 1200 };
    let mut col = vec![Wide(1.0, 0); m as usize + 1]; // r = 1
    let check_nb = |ck: &mut Check, r: u64, k: u64, want: f64| {
        let key = format!("{}|negative binomial|r={r}|k={k}", F::NAME);
        ck.at(&key, false);
        ck.state();
        let tol = tolerance::<F>(r + k, want);
        ck.close(&key, log_negative_binomial_coefficient::<F>(r, k).d(), want, 0.0, tol);
        let m = NegativeBinomialCoefficientMeasure::<F>::new(r);
        ck.close(&format!("{key}|measure"), HasLogDensity::<u64, F>::log_density_wrt_root(&m, &k).d(), want, 0.0, tol);
        ck.require(&format!("{key}|support"), m.in_support(k), || "support".into());
    };
    for r in 1..=m {
        for k in 0..=m {
            check_nb(ck, r, k, col[k as usize].ln());
        }
        for k in 1..=m as usize {
            col[k] = col[k].plus(col[k - 1]);
        }
        ck.trace();
    }
    let few = few_counts(th);
    for a in few.iter().copied().chain(big_counts(th)).filter(|&a| a < 1 << 63) {
        for &b in &few {
            check_nb(ck, a + 1, b, ln_choose(a + b, b));
            check_nb(ck, b + 1, a, ln_choose(a + b, b));
        }
    }
}

pub fn c10() {
    let mut ck = Check::new("C10");
    ck.parallel(6, |ck, part| if part < 3 { c10_prec::<f64>(ck, part) } else { c10_prec::<f32>(ck, part - 3) });
    ck.finish("every k up to 4*10^6 (thorough 6*10^7) for log k!, the whole Pascal triangle up to n = 2100 (4200), every (r,k) up to 1200 (2500), powers of two and their neighbours up to 2^63 against small, middle and large k (judged to relative rounding), {f32,f64}");
}

// ---------------------------------------------------------------------------------------------- C20

fn accept<T>(ck: &mut Check, key: &str, valid: bool, f: impl FnOnce() -> T) -> Option<T> {
    ck.at(key, false);
    ck.state();
    let r = quiet(f);
    ck.outcome(&format!("{valid}"));
    ck.require(&format!("{key}|accepted"), r.is_ok() == valid, || if valid { "a valid parameter is refused".into() } else { "an invalid parameter is accepted".into() });
    ck.trace();
    r.ok().filter(|_| valid)
}

fn eqs<F: Fl>(ck: &mut Check, key: &str, items: &[(&str, Result<F, String>, f64)]) {
    for (name, got, want) in items {
        let key = format!("{key}|{name}");
        match got {
            Ok(g) => {
                // results beyond the range of the type round to infinity or zero
                let w = F::of(*want).d();
                if !w.is_finite() || (*want != 0.0 && w.abs() < 1e-30) || w.abs() > 1e30 {
                    ck.outside += 1;
                    continue;
                }
                ck.close(&key, g.d(), *want, F::epsilon().d() * 16.0, 0.0);
            }
            Err(p) => ck.fail(&key, &format!("panicked: {p}")),
        }
    }
}

macro_rules! q {
    ($($name:literal: $e:expr => $w:expr),* $(,)?) => { &[ $( ($name, quiet(|| $e), $w) ),* ] };
}

/// one real parameter: valid iff > 0
fn scales() -> Vec<f64> {
    let mut v = vec![1.0, 0.5, 2.0, 3.0, 0.1, 1e-3, 1e-8, 7.25, 100.0, 1e6, 12.0, 0.0, -0.0, -1.0, -1e-3, -5.0, f64::NAN, -1e-38, 1e-37];
    for i in 1..1500 {
        v.push(f64::from(i) * 0.37);
        v.push(f64::from(-i) * 0.37);
    }
    // powers of two over the range in which every moment is a normal number
    for e in -28..=28 {
        v.push(2f64.powi(e));
        v.push(-(2f64.powi(e)));
    }
    v
}
fn probs() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 1e-6, 1e-9, 1.0 - 1e-6, 1.0 + 1e-6, 1.000_001, -1e-6, -1e-9, -0.5, 1.5, 2.0, -1.0, f64::NAN, 1e30];
    let m = 2048;
    for i in -m..=2 * m {
        v.push(f64::from(i) / f64::from(m) + 0.000_3);
    }
    v
}

fn c20_prec<F: Fl>(ck: &mut Check) {
    let th = ck.thorough();
    let n = F::NAME;
    let pos = |x: F| x > F::zero();
    for &m in &[0.0, -0.0, 1.0, -2.5, 1e6, -1e-9] {
        for s in scales() {
            let (m, s) = (F::of(m), F::of(s));
            let (md_, sd) = (m.d(), s.d());
            let k = format!("{n}|Normal({m:?},{s:?})");
            if let Some(d) = accept(ck, &k, pos(s), || md::Normal::new(m, s)) {
                eqs(ck, &k, q!("mean": d.mean => md_, "std_dev": d.std_dev => sd, "variance": d.variance() => sd * sd, "params.0": d.params().0 => md_, "params.1": d.params().1 => sd));
            }
            let k = format!("{n}|Cauchy({m:?},{s:?})");
            if let Some(d) = accept(ck, &k, pos(s), || md::Cauchy::new(m, s)) {
                eqs(ck, &k, q!("location": d.location() => md_, "scale": d.scale() => sd, "params.0": d.params().0 => md_, "params.1": d.params().1 => sd));
            }
        }
    }
    for s in scales() {
        let s = F::of(s);
        let sd = s.d();
        let k = format!("{n}|Exponential({s:?})");
        if let Some(d) = accept(ck, &k, pos(s), || md::Exponential::new(s)) {
            eqs(ck, &k, q!("rate": d.rate => sd, "mean": d.mean() => 1.0 / sd, "variance": d.variance() => 1.0 / (sd * sd)));
        }
        let k = format!("{n}|Poisson({s:?})");
        if let Some(d) = accept(ck, &k, pos(s), || md::Poisson::new(s)) {
            eqs(ck, &k, q!("rate": d.rate => sd));
        }
        let k = format!("{n}|StudentT({s:?})");
        if let Some(d) = accept(ck, &k, pos(s), || md::StudentT::new(s)) {
            eqs(ck, &k, q!("nu": d.nu() => sd, "params": d.params() => sd));
        }
        let k = format!("{n}|ChiSquared({s:?})");
        if let Some(d) = accept(ck, &k, pos(s), || md::ChiSquared::new(s)) {
            eqs(ck, &k, q!("dof": d.degrees_of_freedom => sd, "shape": d.shape() => sd / 2.0, "rate": d.rate() => 0.5, "mean": d.mean() => sd, "variance": d.variance() => 2.0 * sd));
        }
        for t in scales().into_iter().take(if th { 120 } else { 40 }) {
            let t = F::of(t);
            let td = t.d();
            let ok = pos(s) && pos(t);
            let k = format!("{n}|Gamma({s:?},{t:?})");
            if let Some(d) = accept(ck, &k, ok, || md::Gamma::new(s, t)) {
                eqs(ck, &k, q!("shape": d.shape => sd, "rate": d.rate => td, "scale": d.scale() => 1.0 / td, "mean": d.mean() => sd / td, "variance": d.variance() => sd / (td * td)));
            }
            let k = format!("{n}|Gamma::from_shape_scale({s:?},{t:?})");
            // the reciprocal of a zero scale is the infinite rate: no distribution either way, but not refused
            // by the rule "rate > 0"; left out together with scales whose reciprocal is not finite
            if t.d() == 0.0 || !(1.0 / td).is_nan() && !F::of(1.0 / td).is_finite() {
                ck.outside += 1;
            } else if let Some(d) = accept(ck, &k, ok, || md::Gamma::from_shape_scale(s, t)) {
                eqs(ck, &k, q!("shape": d.shape => sd, "rate": d.rate => 1.0 / td, "scale": d.scale() => td, "mean": d.mean() => sd * td, "variance": d.variance() => sd * td * td));
            }
            let k = format!("{n}|Beta({s:?},{t:?})");
            if let Some(d) = accept(ck, &k, ok, || md::Beta::new(s, t)) {
                let u = sd + td;
                eqs(ck, &k, q!("alpha": d.alpha => sd, "beta": d.beta => td, "mean": d.mean() => sd / u));
                // where the product of the parameters is itself below the type's range the quotient is not defined by it
                if sd * td < 1e-30 {
                    ck.outside += 1;
                } else {
                    eqs(ck, &k, q!("variance": d.variance() => sd * td / (u * u * (u + 1.0))));
                }
            }
        }
    }
    // the smallest and largest values of the type: accepted or refused, nothing is computed
    let (tiny, least, huge, eps) = (F::min_positive_value(), F::min_positive_value() * F::epsilon(), F::max_value(), F::epsilon());
    let ends = [tiny, -tiny, least, -least, tiny + tiny, huge, -huge, eps, -eps, eps * eps, -eps * eps, F::zero(), -F::zero(), F::one(), -F::one(), F::nan(), F::neg_infinity()];
    for &a in &ends {
        for (name, f) in [
            ("Normal", Box::new(|| drop(md::Normal::new(F::zero(), a))) as Box<dyn Fn()>),
            ("Cauchy", Box::new(|| drop(md::Cauchy::new(F::zero(), a)))),
            ("Exponential", Box::new(|| drop(md::Exponential::new(a)))),
            ("Poisson", Box::new(|| drop(md::Poisson::new(a)))),
            ("StudentT", Box::new(|| drop(md::StudentT::new(a)))),
            ("ChiSquared", Box::new(|| drop(md::ChiSquared::new(a)))),
        ] {
            accept(ck, &format!("{n}|{name}({a:?})|ends"), pos(a), f);
        }
        for &b in &ends {
            accept(ck, &format!("{n}|Gamma({a:?},{b:?})|ends"), pos(a) && pos(b), || md::Gamma::new(a, b));
            accept(ck, &format!("{n}|Beta({a:?},{b:?})|ends"), pos(a) && pos(b), || md::Beta::new(a, b));
        }
    }
    // a negative entry however small is refused, wherever it stands and however well the sum comes out
    for t in [tiny, least, eps * eps, eps, F::of(1e-6), F::of(1e-3), F::of(0.25)] {
        for len in 2..=4usize {
            for i in 0..len {
                for j in (0..len).filter(|&j| j != i) {
                    let mut w = vec![F::zero(); len];
                    w[j] = F::one() + t;
                    w[i] = -t;
                    vector(ck, &w, false);
                }
            }
        }
    }
    let one = F::one();
    let near: Vec<F> = [1.0, 2.0, 3.0, 8.0, 64.0, 1e4, 1e6].iter().flat_map(|&k| [one + eps * F::of(k), one - eps * F::of(k / 2.0), eps * F::of(k), -eps * F::of(k)]).chain([tiny, -tiny, least, -least]).collect();
    for p in probs().into_iter().map(F::of).chain(near) {
        let pd = p.d();
        // the complement as the type sees it
        let qd = (F::one() - p).d();
        let (zero, one) = (F::zero(), F::one());
        let k = format!("{n}|Bernoulli({p:?})");
        if let Some(d) = accept(ck, &k, p >= zero && p <= one, || md::Bernoulli::new(p)) {
            eqs(ck, &k, q!("prob": d.prob => pd, "mean": d.mean() => pd, "variance": d.variance() => pd * qd));
            log_odds(ck, &k, quiet(|| d.log_odds()), pd, qd);
        }
        let k = format!("{n}|Geometric({p:?})");
        if let Some(d) = accept(ck, &k, p > zero && p <= one, || md::Geometric::new(p)) {
            eqs(ck, &k, q!("prob": d.prob => pd, "mean": d.mean() => 1.0 / pd, "variance": d.variance() => qd / (pd * pd), "failure_prob": d.failure_prob() => qd));
        }
        for r in [0u64, 1, 2, 3, 10, 100, 1000, 65_537, 1 << 31, (1 << 32) + 1, 1 << 53, u64::MAX] {
            let k = format!("{n}|Binomial({r},{p:?})");
            let rf = r as f64;
            if let Some(d) = accept(ck, &k, p >= zero && p <= one, || md::Binomial::new(r, p)) {
                ck.require(&format!("{k}|n"), d.n == r, || "number of trials".into());
                eqs(ck, &k, q!("prob": d.prob => pd, "mean": d.mean() => rf * pd, "variance": d.variance() => rf * pd * qd));
                log_odds(ck, &k, quiet(|| d.log_odds()), pd, qd);
            }
            let k = format!("{n}|NegativeBinomial({r},{p:?})");
            if let Some(d) = accept(ck, &k, r > 0 && p > zero && p < one, || md::NegativeBinomial::new(r, p)) {
                ck.require(&format!("{k}|r"), d.r == r, || "number of failures".into());
                eqs(ck, &k, q!("prob": d.prob => pd, "mean": d.mean() => rf * pd / qd, "variance": d.variance() => rf * pd / (qd * qd), "failure_prob": d.failure_prob() => qd));
                log_odds(ck, &k, quiet(|| d.log_odds()), pd, qd);
            }
        }
    }
    // probability vectors: every vector over a small alphabet of eighths (and bad entries), plus near misses
    let al = [0.0, 0.125, 0.25, 0.5, 1.0, -0.125, f64::NAN, 1.125];
    for len in 0..=(if th { 7 } else { 6 }) {
        for s in sequences(al.len(), len) {
            let w: Vec<F> = s.iter().map(|&i| F::of(al[i])).collect();
            let sum: f64 = s.iter().map(|&i| al[i]).sum();
            let valid = len > 0 && w.iter().all(|x| *x >= F::zero()) && sum == 1.0;
            vector(ck, &w, valid);
        }
    }
    for len in 1..=(if th { 40_000 } else { 12_000 }) {
        // uniform vectors are valid however the reciprocal rounds
        let k = format!("{n}|Categorical::uniform({len})");
        if let Some(d) = accept(ck, &k, true, || md::Categorical::<F>::uniform(len)) {
            ck.require(&format!("{k}|categories"), d.num_categories() == len && d.probs.iter().all(|p| close(p.d(), 1.0 / len as f64, F::epsilon().d(), 0.0)), || "not uniform".into());
        }
        let k = format!("{n}|MixtureMeasure::uniform({len})");
        if let Some(d) = accept(ck, &k, true, || MixtureMeasure::<md::StdNormal<F>, F>::uniform(vec![md::StdNormal::new(); len])) {
            ck.require(&format!("{k}|components"), d.num_components() == len && d.weights.iter().all(|p| close(p.d(), 1.0 / len as f64, F::epsilon().d(), 0.0)), || "not uniform".into());
        }
    }
    let k = format!("{n}|Categorical::uniform(0)");
    accept(ck, &k, false, || md::Categorical::<F>::uniform(0));
    for off in [1e-2, -1e-2, 1e-3, -1e-3, 1e-4, -1e-4] {
        for base in [vec![0.5, 0.5], vec![1.0], vec![0.2, 0.3, 0.5]] {
            for i in 0..base.len() {
                let mut v = base.clone();
                v[i] += off;
                let w: Vec<F> = v.iter().map(|&x| F::of(x)).collect();
                vector(ck, &w, false);
            }
        }
    }
    // sums that are one up to the rounding of the type
    for m in 1..=if th { 400usize } else { 120 } {
        let w: Vec<F> = (0..m).map(|i| F::of((i + 1) as f64 / (m * (m + 1) / 2) as f64)).collect();
        vector(ck, &w, true);
    }
    // two or three categories far from the first carry all the weight
    for len in [3usize, 10, 100, 257, 1000, 4000, 20_000] {
        for back in 1..=3usize.min(len - 1) {
            for p in [0.5, 0.25, 0.125, 2f64.powi(-10), 1.0] {
                for front in [false, true] {
                    let mut w = vec![F::zero(); len];
                    w[len - 1] = F::of(1.0 - p);
                    w[if front { back - 1 } else { len - 1 - back }] = F::of(p);
                    vector(ck, &w, true);
                }
            }
        }
    }
    // different numbers of components and weights
    for a in 1..=3usize {
        for b in 1..=3usize {
            let k = format!("{n}|Mixture with {a} components and {b} weights");
            accept(ck, &k, a == b, || MixtureMeasure::<md::StdNormal<F>, F>::new(vec![md::StdNormal::new(); a], vec![F::of(1.0 / b as f64); b]));
        }
    }
}

fn log_odds<F: Fl>(ck: &mut Check, k: &str, got: Result<F, String>, p: f64, q: f64) {
    let want = if p == 0.0 { NEG } else if q == 0.0 { f64::INFINITY } else { p.ln() - q.ln() };
    let got = got.map_or(f64::NAN, |g| g.d());
    ck.close(&format!("{k}|log odds"), got, want, F::epsilon().d() * 16.0, F::epsilon().d() * 8.0);
}

fn vector<F: Fl>(ck: &mut Check, w: &[F], valid: bool) {
    let shown = if w.len() > 200 { format!("{} categories, the last {:?}", w.len(), &w[w.len() - 4..]) } else { format!("{w:?}") };
    let k = format!("{}|Categorical({shown})", F::NAME);
    let v = w.to_vec();
    let wd: Vec<f64> = w.iter().map(|x| x.d()).collect();
    if let Some(d) = accept(ck, &k, valid, || md::Categorical::new(v)) {
        let mean: f64 = wd.iter().enumerate().map(|(i, p)| i as f64 * p).sum();
        let var: f64 = wd.iter().enumerate().map(|(i, p)| (i as f64 - mean) * (i as f64 - mean) * p).sum();
        ck.require(&format!("{k}|probs"), d.num_categories() == w.len() && d.probs == w, || "probabilities changed".into());
        // rounding: of every term and partial sum of the mean, whose square enters the variance; the weights need
        // not sum to exactly one
        let eps = F::epsilon().d() * (wd.iter().filter(|p| **p != 0.0).count() + 3) as f64;
        let (shift, defect) = (eps * mean, mean * (1.0 - wd.iter().sum::<f64>()).abs());
        ck.close(&format!("{k}|mean"), d.mean().d(), mean, 2.0 * eps, 1e-40);
        ck.close(&format!("{k}|variance"), d.variance().d(), var, 4.0 * eps, 4.0 * (shift * shift + 2.0 * shift * (defect + eps * mean)));
    }
    let k = format!("{}|Mixture({shown})", F::NAME);
    let v = w.to_vec();
    // an empty mixture has no weights to sum to one
    if let Some(d) = accept(ck, &k, valid, || MixtureMeasure::<md::StdNormal<F>, F>::new(vec![md::StdNormal::new(); v.len()], v)) {
        ck.require(&format!("{k}|weights"), d.num_components() == w.len() && d.weights == w, || "weights changed".into());
    }
}

pub fn c20() {
    let mut ck = Check::new("C20");
    ck.parallel(2, |ck, part| if part == 0 { c20_prec::<f64>(ck) } else { c20_prec::<f32>(ck) });
    ck.assume("finite parameters, and NaN for the constrained ones; location parameters are unconstrained");
    ck.finish("all parameter alphabets including both zeros, negatives, values one rounding unit outside the range, the smallest and largest values of the type and NaN, all pairs for two-parameter families, all probability vectors over an 8-letter alphabet up to length 6 (thorough 7), uniform vectors up to 12000 (40000), up to 20000 categories of which two carry the weight, {f32,f64}");
}

// ---------------------------------------------------------------------------------------------- C23

trait Num: num_traits::ToPrimitive + num_traits::FromPrimitive + num_traits::NumCast + Copy + Default + PartialEq + Debug + 'static {
    const NAME: &'static str;
    /// exact value as an integer pair is not needed: every value used is exact in f64
    fn alphabet() -> Vec<Self>;
    /// what is converted: every value of the small types
    fn every(th: bool) -> Vec<Self>;
    fn val(self) -> f64;
    /// Is the exact real number `v` representable, and as what?
    fn exact(v: f64) -> Option<Self>;
}
macro_rules! int_num {
    ($($t:ty),*) => { $( impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn alphabet() -> Vec<$t> {
            let mut v: Vec<$t> = vec![];
            for e in 0..<$t>::BITS {
                let p = (1u128 << e) as i128;
                for d in [-1i128, 0, 1] {
                    for s in [1i128, -1] {
                        let x = s * (p + d);
                        // only values a double can hold
                        if let Ok(y) = <$t>::try_from(x) {
                            if (y as f64) as i128 == x && !v.contains(&y) { v.push(y); }
                        }
                    }
                }
            }
            v
        }
        fn every(th: bool) -> Vec<$t> {
            if <$t>::BITS == 8 || (<$t>::BITS == 16 && th) {
                return (<$t>::MIN..=<$t>::MAX).collect();
            }
            // as the alphabet, with a wider neighbourhood of every power of two
            let mut v = Self::alphabet();
            let near = if th { 300i128 } else { 9 };
            for e in 3..<$t>::BITS {
                for d in -near..=near {
                    for s in [1i128, -1] {
                        let x = s * ((1i128 << e) + d);
                        if let Ok(y) = <$t>::try_from(x) {
                            if (y as f64) as i128 == x { v.push(y); }
                        }
                    }
                }
            }
            v.sort_unstable();
            v.dedup();
            v
        }
        fn val(self) -> f64 { self as f64 }
        fn exact(v: f64) -> Option<$t> {
            if v.fract() != 0.0 || !v.is_finite() || v.abs() > 1e30 { return None; }
            <$t>::try_from(v as i128).ok()
        }
    } )* };
}
int_num!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
const FLOATS: [f64; 34] = [0.0, 1.0, -1.0, 0.5, -0.5, 0.999, -0.999, 255.5, -128.5, 65535.5, 127.5, 1.5, -1.5, 2.0, 0.1, 255.0, 256.0, 127.0, 128.0, -128.0, -129.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 1e15, -1e15, 9007199254740992.0, 3.25, 1e-30, 16777216.0];
impl Num for f64 {
    const NAME: &'static str = "f64";
    fn alphabet() -> Vec<f64> {
        let mut v = FLOATS.to_vec();
        v.extend([f64::NAN, f64::INFINITY, NEG, 16777217.0, 1e300]);
        v
    }
    fn every(th: bool) -> Vec<f64> {
        let mut v = Self::alphabet();
        for e in 0..66 {
            for d in -2..=if th { 40 } else { 2 } {
                for s in [1.0, -1.0] {
                    v.push(s * (2f64.powi(e) + f64::from(d) * 0.5));
                }
            }
        }
        // between the powers of two, past the largest integers
        for e in -130..=130 {
            for m in [1.25, 1.5, 1.75, 1.0 + 2f64.powi(-20)] {
                v.extend([m * 2f64.powi(e), -m * 2f64.powi(e)]);
            }
        }
        v
    }
    fn val(self) -> f64 {
        self
    }
    fn exact(v: f64) -> Option<f64> {
        Some(v)
    }
}
impl Num for f32 {
    const NAME: &'static str = "f32";
    fn alphabet() -> Vec<f32> {
        let mut v: Vec<f32> = FLOATS.iter().map(|x| *x as f32).collect();
        v.extend([f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        v
    }
    fn every(th: bool) -> Vec<f32> {
        <f64 as Num>::every(th).into_iter().map(|x| x as f32).collect()
    }
    fn val(self) -> f64 {
        f64::from(self)
    }
    fn exact(v: f64) -> Option<f32> {
        // a float conversion rounds: the nearest value is the expected result
        let f = v as f32;
        if v.is_finite() && f.is_infinite() { None } else { Some(f) }
    }
}

fn same<U: Num>(a: U, b: U) -> bool {
    a == b || (a.val().is_nan() && b.val().is_nan())
}

fn convert<T: Num, U: Num>(ck: &mut Check) {
    let mut fallbacks = U::alphabet();
    fallbacks.truncate(12);
    for x in T::every(ck.thorough()) {
        let k = format!("{} {x:?} -> {}", T::NAME, U::NAME);
        ck.state();
        let v = x.val();
        let is_float = U::NAME.starts_with('f');
        // fractions are cut off towards zero by integer conversions; float overflow saturates
        if (!is_float && v.fract() != 0.0 && v.is_finite()) || (U::NAME == "f32" && U::exact(v).is_none()) {
            ck.outside += 1;
            if !is_float {
                if let Some(t) = U::exact(v.trunc()) {
                    ck.require(&format!("{k}|safe_convert"), same(safe_convert::<T, U>(x), t), || format!("expected {t:?}"));
                }
                for fb in &fallbacks {
                    let t = U::exact(v.trunc()).unwrap_or(*fb);
                    let got = safe_convert_or::<T, U>(x, *fb);
                    ck.require(&format!("{k}|safe_convert_or {fb:?}"), same(got, t), || format!("got {got:?}, expected {t:?}"));
                }
            }
            continue;
        }
        let want = U::exact(v);
        let got = safe_convert::<T, U>(x);
        let w = want.unwrap_or_default();
        ck.outcome(&format!("{got:?}"));
        ck.require(&format!("{k}|safe_convert"), same(got, w), || format!("got {got:?}, expected {w:?}"));
        for fb in &fallbacks {
            let got = safe_convert_or::<T, U>(x, *fb);
            let w = want.unwrap_or(*fb);
            ck.require(&format!("{k}|safe_convert_or {fb:?}"), same(got, w), || format!("got {got:?}, expected {w:?}"));
        }
        ck.trace();
    }
}

fn floats<A: Fl, B: Fl>(ck: &mut Check) {
    let mut v = FLOATS.to_vec();
    v.extend([f64::NAN, f64::INFINITY, NEG, 1e30, -1e30, 1e-37]);
    v.extend(<f64 as Num>::every(ck.thorough()));
    for x in v {
        let a = A::of(x);
        let k = format!("{} {a:?} -> {}", A::NAME, B::NAME);
        ck.state();
        match safe_float_convert::<A, B>(a) {
            Ok(b) => {
                let w = B::of(a.d()).d();
                ck.require(&k, b.d() == w || (b.d().is_nan() && w.is_nan()), || format!("got {b:?}, expected {w:?}"));
            }
            Err(e) => ck.fail(&k, &format!("refused: {e}")),
        }
        let c = float_constant::<B>(a.d());
        let w = B::of(a.d()).d();
        ck.require(&format!("{k}|float_constant"), c.d() == w || (c.d().is_nan() && w.is_nan()), || format!("got {c:?}"));
        ck.trace();
    }
}

fn dots<F: Fl, const N: usize>(ck: &mut Check) {
    let al = [0.0, 1.0, -2.0, 3.0, 0.5];
    let k = if N <= 3 { 5 } else { 2 };
    for a in sequences(k, N) {
        for b in sequences(k, N) {
            let av: Vec<F> = a.iter().map(|&i| F::of(al[i] + if N > 3 { 1.0 + i as f64 } else { 0.0 })).collect();
            let bv: Vec<F> = b.iter().enumerate().map(|(j, &i)| F::of(al[i] + if N > 3 { (1 << j) as f64 } else { 0.0 })).collect();
            let want: f64 = av.iter().zip(&bv).map(|(x, y)| x.d() * y.d()).sum();
            let key = format!("{}|{av:?} . {bv:?}", F::NAME);
            ck.state();
            let aa: [F; N] = av.clone().try_into().unwrap();
            let bb: [F; N] = bv.clone().try_into().unwrap();
            ck.close(&format!("{key}|array"), aa.dot(&bb).d(), want, 0.0, 0.0);
            ck.close(&format!("{key}|vec"), av.dot(&bv).d(), want, 0.0, 0.0);
            if N <= 3 {
                let sub = measures_core::traits::dot_product::array_sub(aa, bb);
                ck.require(&format!("{key}|sub"), (0..N).all(|i| sub[i].d() == av[i].d() - bv[i].d()), || format!("{sub:?}"));
                use measures_exponential_family::exponential_family::array_utils::{add_arrays, default_array, sum_arrays};
                let add = add_arrays(aa, bb);
                ck.require(&format!("{key}|add"), (0..N).all(|i| add[i].d() == av[i].d() + bv[i].d()), || format!("{add:?}"));
                let s = sum_arrays([aa, bb, aa].into_iter());
                let t = <[F; N] as SumSufficientStats<[F; N]>>::sum_sufficient_stats([aa, bb, aa].into_iter());
                ck.require(&format!("{key}|sum"), (0..N).all(|i| s[i].d() == 2.0 * av[i].d() + bv[i].d() && t[i].d() == s[i].d()), || format!("{s:?} {t:?}"));
                let z: [F; N] = default_array();
                let e = <[F; N] as SumSufficientStats<[F; N]>>::sum_sufficient_stats(std::iter::empty());
                ck.require(&format!("{key}|empty"), z.iter().chain(&e).all(|x| x.d() == 0.0), || "not zero".into());
            }
            ck.trace();
        }
    }
}

/// Vectors and samples of every length up to a bound, position by position.
fn long<F: Fl>(ck: &mut Check) {
    let top = if ck.thorough() { 1300 } else { 600 };
    for n in 0..=top {
        let b: Vec<F> = (0..n).map(|j| F::of((j % 97 + 1) as f64)).collect();
        for i in 0..n {
            let mut a = vec![F::zero(); n];
            a[i] = F::of(3.0);
            let want = 3.0 * (i % 97 + 1) as f64;
            ck.close(&format!("{}|unit {i} of {n}", F::NAME), a.dot(&b).d(), want, 0.0, 0.0);
            ck.close(&format!("{}|unit {i} of {n}|swapped", F::NAME), b.dot(&a).d(), want, 0.0, 0.0);
            ck.state();
        }
        // statistics of a sample of n: distinct summands in each coordinate
        let st: Vec<[F; 2]> = (0..n).map(|j| [F::of((j + 1) as f64), F::of(if j % 2 == 0 { 2.0 } else { -1.0 })]).collect();
        let w = [(n * (n + 1) / 2) as f64, (2 * n.div_ceil(2)) as f64 - (n / 2) as f64];
        use measures_exponential_family::exponential_family::array_utils::sum_arrays;
        let t = <[F; 2] as SumSufficientStats<[F; 2]>>::sum_sufficient_stats(st.iter().copied());
        let u = sum_arrays(st.into_iter());
        for i in 0..2 {
            ck.close(&format!("{}|sum of {n} statistics|{i}", F::NAME), t[i].d(), w[i], 0.0, 0.0);
            ck.close(&format!("{}|sum of {n} arrays|{i}", F::NAME), u[i].d(), w[i], 0.0, 0.0);
        }
        ck.trace();
    }
}

pub fn c23() {
    let mut ck = Check::new("C23");
    macro_rules! pairs {
        (@row $a:ty; $($b:ty),*) => { $( convert::<$a, $b>(&mut ck); )* };
        ($($a:ty),*) => { $( pairs!(@row $a; i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64); )* };
    }
    pairs!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64);
    floats::<f64, f64>(&mut ck);
    floats::<f64, f32>(&mut ck);
    floats::<f32, f64>(&mut ck);
    floats::<f32, f32>(&mut ck);
    macro_rules! d { ($($n:literal),*) => { $( dots::<f64, $n>(&mut ck); dots::<f32, $n>(&mut ck); )* } }
    d!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
    long::<f64>(&mut ck);
    long::<f32>(&mut ck);
    let _ = ln_gamma(1.0);
    ck.assume("conversions pass through f64: values that f64 holds exactly; sequences of equal length");
    ck.finish("all 144 pairs of numeric types x every value of the 8-bit (thorough: 16-bit) types, powers of two and their neighbours within the wider ones; all pairs of vectors over a small alphabet for lengths 0 to 9, arrays and Vec; every position of vectors up to length 600 (1300), samples of every size up to 600 (1300), {f32,f64}");
}
