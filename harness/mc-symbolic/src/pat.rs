//! C16: the ready-made tagless patterns of the distribution and exponential-family layers.

use crate::ast::*;
use crate::jit;
use crate::parse::{Lang, parse};
use mc::num::{ln_beta, ln_gamma};
use mc::{Check, quiet, sequences};
use measures_distributions::distributions::final_tagless::{DistributionEval, DistributionExpr, DistributionMathExpr, patterns as dp};
use measures_exponential_family::exponential_family::final_tagless::{ExpFamEval, ExponentialFamilyExpr, patterns as ep};
use std::time::Duration;
use symbolic_math::final_tagless::{DirectEval, JITEval, JITRepr, MathExpr, PrettyPrint};

/// A pattern: its term in any interpreter, and the law it is named for with the scale of its terms.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Normal,
    StdNormal,
    Exponential,
    Gamma,
    Beta,
    Cauchy,
    StudentT,
    EfNormal,
    EfStdNormal,
    EfPoisson,
    EfExponential,
    LogGamma,
    LogGammaFunction,
    GammaFunction,
    LogBeta,
    BetaFunction,
    Logistic,
    Softplus,
    Lse2,
    Lse3,
}
use P::*;
const ALL: [P; 20] = [
    Normal, StdNormal, Exponential, Gamma, Beta, Cauchy, StudentT, EfNormal, EfStdNormal, EfPoisson, EfExponential, LogGamma, LogGammaFunction,
    GammaFunction, LogBeta, BetaFunction, Logistic, Softplus, Lse2, Lse3,
];

/// A value, and the magnitude that its rounding is relative to.
type W = (f64, f64);

impl P {
    fn arity(self) -> usize {
        match self {
            Normal | EfNormal | Gamma | Beta | Cauchy | Lse3 => 3,
            Exponential | StudentT | EfPoisson | EfExponential | LogBeta | BetaFunction | Lse2 => 2,
            _ => 1,
        }
    }

    fn term<E: DistributionExpr>(self, a: &[E::Repr<f64>]) -> E::Repr<f64>
    where
        E::Repr<f64>: Clone,
    {
        let g = |i: usize| a[i].clone();
        match self {
            Normal => dp::normal_log_density::<E>(g(0), g(1), g(2)),
            StdNormal => dp::standard_normal_log_density::<E>(g(0)),
            Exponential => dp::exponential_log_density::<E>(g(0), g(1)),
            Gamma => dp::gamma_log_density::<E>(g(0), g(1), g(2)),
            Beta => dp::beta_log_density::<E>(g(0), g(1), g(2)),
            Cauchy => dp::cauchy_log_density::<E>(g(0), g(1), g(2)),
            StudentT => dp::student_t_log_density::<E>(g(0), g(1)),
            EfNormal => ep::normal_log_density::<E>(g(0), g(1), g(2)),
            EfStdNormal => ep::standard_normal_log_density::<E>(g(0)),
            EfPoisson => ep::poisson_log_density::<E>(g(0), g(1)),
            EfExponential => ep::exponential_log_density::<E>(g(0), g(1)),
            LogGamma => <E as ExponentialFamilyExpr>::log_gamma(g(0)),
            LogGammaFunction => <E as DistributionMathExpr>::log_gamma_function(g(0)),
            GammaFunction => <E as DistributionMathExpr>::gamma_function(g(0)),
            LogBeta => <E as DistributionMathExpr>::log_beta(g(0), g(1)),
            BetaFunction => <E as DistributionMathExpr>::beta_function(g(0), g(1)),
            Logistic => <E as ExponentialFamilyExpr>::logistic(g(0)),
            Softplus => <E as ExponentialFamilyExpr>::softplus(g(0)),
            Lse2 | Lse3 => <E as ExponentialFamilyExpr>::log_sum_exp(a),
        }
    }

    fn want(self, a: &[f64]) -> W {
        let l2p = (2.0 * std::f64::consts::PI).ln();
        let sum = |ts: &[f64]| -> W { (ts.iter().sum(), ts.iter().map(|t| t.abs()).sum::<f64>() + 1.0) };
        let normal = |x: f64, m: f64, s: f64| {
            let d = (x - m) / s;
            // the difference x - m is itself rounded
            let w = sum(&[-0.5 * l2p, -s.ln(), -0.5 * d * d]);
            (w.0, w.1 + d.abs() * (x.abs() + m.abs()) / s)
        };
        // logarithms round relative to their own size, powers of them to the exponent's
        let lg = |x: f64| (ln_gamma(x), ln_gamma(x).abs() + 2.0 * (x + 8.0) * (x + 8.0).ln());
        match self {
            Normal | EfNormal => normal(a[0], a[1], a[2]),
            StdNormal | EfStdNormal => normal(a[0], 0.0, 1.0),
            Exponential | EfExponential => sum(&[a[1].ln(), -a[1] * a[0]]),
            Gamma => {
                let (x, s, r) = (a[0], a[1], a[2]);
                let w = sum(&[s * r.ln(), -lg(s).0, (s - 1.0) * x.ln(), -r * x]);
                (w.0, w.1 + lg(s).1)
            }
            Beta => {
                let (x, p, q) = (a[0], a[1], a[2]);
                let w = sum(&[(p - 1.0) * x.ln(), (q - 1.0) * (1.0 - x).ln(), -ln_beta(p, q)]);
                (w.0, w.1 + lg(p).1 + lg(q).1 + lg(p + q).1)
            }
            Cauchy => {
                let d = (a[0] - a[1]) / a[2];
                let w = sum(&[-std::f64::consts::PI.ln(), -a[2].ln(), -(d * d).ln_1p()]);
                (w.0, w.1 + if d == 0.0 { 0.0 } else { (a[0].abs() + a[1].abs()) / (a[0] - a[1]).abs() })
            }
            StudentT => {
                let (x, n) = (a[0], a[1]);
                let w = sum(&[ln_gamma((n + 1.0) / 2.0) - ln_gamma(n / 2.0), -0.5 * (n * std::f64::consts::PI).ln(), -(n + 1.0) / 2.0 * (x * x / n).ln_1p()]);
                // 1 + x^2/n is rounded before the logarithm
                (w.0, w.1 + lg((n + 1.0) / 2.0).1 + lg(n / 2.0).1 + n)
            }
            EfPoisson => {
                let (x, l) = (a[0], a[1]);
                let w = sum(&[x * l.ln(), -l, -ln_gamma(x + 1.0)]);
                (w.0, w.1 + lg(x + 1.0).1)
            }
            LogGamma | LogGammaFunction => (lg(a[0]).0, lg(a[0]).1),
            GammaFunction => (lg(a[0]).0.exp(), lg(a[0]).0.exp() * (1.0 + lg(a[0]).1)),
            LogBeta => (ln_beta(a[0], a[1]), lg(a[0]).1 + lg(a[1]).1 + lg(a[0] + a[1]).1),
            BetaFunction => {
                let b = ln_beta(a[0], a[1]).exp();
                (b, b * (1.0 + lg(a[0]).1 + lg(a[1]).1 + lg(a[0] + a[1]).1))
            }
            Logistic => {
                let s = 1.0 / (1.0 + (-a[0]).exp());
                (s, s * (1.0 + a[0].abs()))
            }
            Softplus => (a[0].max(0.0) + (-a[0].abs()).exp().ln_1p(), 1.0 + a[0].abs()),
            Lse2 | Lse3 => {
                let m = a.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                (m + a.iter().map(|x| (x - m).exp()).sum::<f64>().ln(), 1.0 + m.abs())
            }
        }
    }

    /// The points and parameters, one alphabet per argument.
    fn grid(self, th: bool) -> Vec<Vec<f64>> {
        let reals: &[f64] = if th {
            &[-1e6, -1e3, -40.0, -3.5, -1.0, -0.5, -1e-6, 0.0, 1e-6, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 7.25, 40.0, 1e3, 1e6]
        } else {
            &[-1e3, -3.5, -1.0, -1e-6, 0.0, 0.5, 1.0, 2.0, 7.25, 1e3]
        };
        let pos: &[f64] = if th {
            &[1e-6, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 0.999, 1.0, 1.001, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 7.5, 10.0, 11.99, 12.0, 12.01, 13.0, 30.0, 50.0, 100.0, 170.5, 200.0, 1001.5, 1e4, 1e6]
        } else {
            &[1e-3, 0.1, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 5.0, 7.5, 11.99, 12.0, 12.01, 30.0, 170.5, 1001.5, 1e5]
        };
        let (reals, pos) = (reals.to_vec(), pos.to_vec());
        let mut support = pos.clone();
        support.insert(0, 0.0);
        let unit: Vec<f64> = if th { vec![1e-9, 0.001, 0.1, 0.25, 0.3, 0.5, 0.7, 0.75, 0.9, 0.999] } else { vec![1e-6, 0.1, 0.25, 0.5, 0.7, 0.999] };
        let counts: Vec<f64> = (0..if th { 40 } else { 14 }).map(f64::from).chain([50.0, 100.0, 171.0, 1000.0]).collect();
        let mid: Vec<f64> = vec![-600.0, -300.0, -40.0, -37.0, -5.0, -1.0, -0.25, 0.0, 1e-9, 0.5, 1.0, 3.0, 20.0, 36.0, 38.0, 300.0, 600.0];
        let upto: Vec<f64> = pos.iter().copied().filter(|x| *x <= 170.5).collect();
        let small: Vec<f64> = pos.iter().copied().filter(|x| *x <= 85.0).collect();
        match self {
            Normal | EfNormal | Cauchy => vec![reals.clone(), reals, pos],
            StdNormal | EfStdNormal => vec![reals],
            Exponential | EfExponential => vec![support, pos],
            Gamma => vec![pos.clone(), pos.clone(), pos],
            Beta => vec![unit, pos.clone(), pos],
            StudentT => vec![reals, pos],
            EfPoisson => vec![counts, pos],
            LogGamma | LogGammaFunction => vec![fine_positives()],
            GammaFunction => vec![upto],
            LogBeta => vec![pos.clone(), pos],
            BetaFunction => vec![small.clone(), small],
            Logistic | Softplus => vec![mid],
            Lse2 => vec![mid.clone(), mid],
            Lse3 => vec![mid.clone(), mid.clone(), mid],
        }
    }
}

fn fine_positives() -> Vec<f64> {
    let mut v: Vec<f64> = (1..=400).map(|i| f64::from(i) / 16.0).collect();
    v.extend([1e-12, 1e-8, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.999999, 1.000001, 1.999999, 2.000001, 7.999, 8.001, 11.999, 12.001, 30.5, 99.0, 170.0, 171.0, 172.5, 500.0, 1e4, 1e6, 1e9, 1e15]);
    v
}

const TOL: f64 = 2e-12;

fn grid_points(axes: &[Vec<f64>], f: &mut impl FnMut(&[f64])) {
    let mut ix = vec![0usize; axes.len()];
    loop {
        let a: Vec<f64> = ix.iter().zip(axes).map(|(i, v)| v[*i]).collect();
        f(&a);
        let mut d = 0;
        loop {
            if d == ix.len() {
                return;
            }
            ix[d] += 1;
            if ix[d] < axes[d].len() {
                break;
            }
            ix[d] = 0;
            d += 1;
        }
    }
}

fn shown(a: &[f64]) -> String {
    a.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",")
}

fn judge(k: &mut Check, what: &str, p: &str, a: &[f64], want: W, got: Result<f64, String>) {
    if !want.0.is_finite() || !want.1.is_finite() {
        k.outside += 1;
        return;
    }
    match got {
        Ok(g) if (g - want.0).abs() <= TOL * want.1 + 1e-300 => {
            k.pass(g);
            k.sample(|| format!("{what}|{p}|{} -> {g:?} (model {:?})", shown(a), want.0));
        }
        g => {
            k.transitions += 1;
            k.fail(&format!("{what}|{p}|{}", shown(a)), &format!("got {g:?}, expected {:?}", want.0));
        }
    }
}

/// Points and parameters near the ends of the number type, at ordinary distances from each other.
fn far_points(p: P, f: &mut impl FnMut(&[f64])) {
    let scales = [1e-300, 1e-200, 1e-160, 1e-100, 1e100, 1e160, 1e200, 1e300];
    let near = [-3.0, -1.0, 0.0, 0.5, 1.0, 40.0];
    for s in scales {
        for d in near {
            match p {
                Normal | EfNormal | Cauchy => {
                    for m in [0.0, 1.0, -7.0] {
                        f(&[m * s + d * s, m * s, s]);
                    }
                }
                Exponential | EfExponential if d >= 0.0 => f(&[d * s, 1.0 / s]),
                Gamma if d > 0.0 => {
                    for shape in [0.5, 1.0, 2.0, 30.0] {
                        f(&[d * s, shape, 1.0 / s]);
                    }
                }
                Beta if d > 0.0 && s < 1.0 => {
                    for q in [0.5, 1.0, 7.5] {
                        f(&[d * s, 0.5, q]);
                        f(&[d * s, 3.0, q]);
                    }
                }
                StudentT if s < 1e150 => {
                    for n in [0.5, 1.0, 30.0] {
                        f(&[d * s, n]);
                    }
                }
                StdNormal | EfStdNormal if s < 1e150 => f(&[d * s]),
                _ => {}
            }
        }
    }
}

fn direct(k: &mut Check, p: P) {
    let axes = p.grid(true);
    let name = format!("{p:?}");
    let mut one = |a: &[f64]| {
        k.tick(|| format!("{name}|{}", shown(a)));
        k.state();
        k.trace();
        let w = p.want(a);
        judge(k, "DirectEval", &name, a, w, quiet(|| p.term::<DirectEval>(&a.iter().map(|x| DirectEval::var("v", *x)).collect::<Vec<_>>())));
        judge(k, "DistributionEval", &name, a, w, quiet(|| p.term::<DistributionEval>(&a.iter().map(|x| DistributionEval::var("v", *x)).collect::<Vec<_>>())));
        judge(k, "ExpFamEval", &name, a, w, quiet(|| p.term::<ExpFamEval>(&a.iter().map(|x| ExpFamEval::var("v", *x)).collect::<Vec<_>>())));
        // the specialised evaluators of the same laws
        let (own, g): (&str, Option<fn(&[f64]) -> f64>) = match p {
            Normal => ("DistributionEval::normal_log_density", Some(|a| DistributionEval::normal_log_density(a[0], a[1], a[2]))),
            Exponential => ("DistributionEval::exponential_log_density", Some(|a| DistributionEval::exponential_log_density(a[0], a[1]))),
            Gamma => ("DistributionEval::gamma_log_density", Some(|a| DistributionEval::gamma_log_density(a[0], a[1], a[2]))),
            LogGamma => ("DistributionEval::log_gamma", Some(|a| DistributionEval::log_gamma(a[0]))),
            _ => ("", None),
        };
        if let Some(g) = g {
            judge(k, own, &name, a, w, quiet(|| g(a)));
            if p == Exponential || p == Gamma {
                let mut b = a.to_vec();
                b[0] = if a[0] == 0.0 { -1e-9 } else { -a[0] };
                let got = quiet(|| g(&b));
                k.require(&format!("{own}|{}", shown(&b)), got == Ok(f64::NEG_INFINITY), || format!("{got:?} outside the support"));
            }
        }
    };
    grid_points(&axes, &mut one);
    far_points(p, &mut one);
}

/// One compiled or printed term per choice of constants, called at every value of the rest.
fn lowered(k: &mut Check, p: P, mask: usize) {
    let axes = p.grid(true);
    let n = p.arity();
    let name = format!("{p:?}");
    let fixed: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
    let free: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 0).collect();
    let fixed_axes: Vec<Vec<f64>> = fixed.iter().map(|i| axes[*i].clone()).collect();
    let free_axes: Vec<Vec<f64>> = free.iter().map(|i| axes[*i].clone()).collect();
    // every value of one constant; of several constants the values in step
    let steps = fixed_axes.iter().map(Vec::len).max().unwrap_or(1);
    for step in 0..steps {
        let consts: Vec<f64> = fixed_axes.iter().enumerate().map(|(j, v)| v[(step + 5 * j) % v.len()]).collect();
        let value = |i: usize| fixed.iter().position(|f| *f == i).map(|j| consts[j]);
        let label = format!("{name}|fixed {}", shown(&consts));
        k.at(&label, true);
        k.state();
        k.trace();
        let text = quiet(|| p.term::<PrettyPrint>(&(0..n).map(|i| value(i).map_or_else(|| PrettyPrint::var(var_names()[i]), PrettyPrint::constant)).collect::<Vec<_>>()));
        let tree = match text {
            Ok(t) => match parse(&t, Lang::Plain) {
                Ok(t) => Some(t),
                Err(e) => {
                    k.fail(&format!("PrettyPrint|{label}"), &format!("{t:?} cannot be read: {e}"));
                    None
                }
            },
            Err(e) => {
                k.fail(&format!("PrettyPrint|{label}"), &format!("panic: {e}"));
                None
            }
        };
        let term = || -> JITRepr { p.term::<JITEval>(&(0..n).map(|i| value(i).map_or_else(|| JITEval::var(var_names()[i]), JITEval::constant)).collect::<Vec<_>>()) };
        let mut made = vec![("JITEval::compile", 0, quiet(|| JITEval::compile(term())))];
        if free.len() > 1 {
            let d = vec![var_names()[free[0]].to_string()];
            let q: Vec<String> = free[1..].iter().map(|i| var_names()[*i].to_string()).collect();
            made.push(("JITEval::compile_data_params", 1, quiet(|| JITEval::compile_data_params(term(), &d[0], &q))));
        }
        let mut good = vec![];
        for (what, form, f) in made {
            match f {
                Ok(Ok(f)) => good.push((what, form, f)),
                Ok(Err(e)) => k.fail(&format!("{what}|{label}"), &format!("does not compile: {e}")),
                Err(e) => k.fail(&format!("{what}|{label}"), &format!("panic: {e}")),
            }
        }
        grid_points(&free_axes, &mut |f| {
            let a: Vec<f64> = (0..n).map(|i| value(i).unwrap_or_else(|| f[free.iter().position(|j| *j == i).unwrap()])).collect();
            k.tick(|| format!("{label}|{}", shown(&a)));
            let w = p.want(&a);
            if let Some(t) = &tree {
                let mut env: Env = [None; 4];
                for (i, x) in a.iter().enumerate() {
                    env[i] = Some(*x);
                }
                match ev(t, &env) {
                    R::Val(v, _) => judge(k, "PrettyPrint", &label, &a, w, Ok(v)),
                    R::Unsure => k.outside += 1,
                    r => judge(k, "PrettyPrint", &label, &a, w, Err(format!("{r:?}"))),
                }
            }
            for (what, form, c) in &good {
                let got = if *form == 0 { jit::call(c, f, &[]) } else { jit::call(c, &f[..1], &f[1..]) };
                judge(k, what, &label, &a, w, got);
            }
        });
        if mask == 0 {
            far_points(p, &mut |a| {
                let w = p.want(a);
                for (what, form, c) in &good {
                    let got = if *form == 0 { jit::call(c, a, &[]) } else { jit::call(c, &a[..1], &a[1..]) };
                    judge(k, what, &label, a, w, got);
                }
            });
        }
    }
}

/// An exponential family written against the interface: natural parameters, statistic, log-partition and
/// base measure, with parameters as constants.
#[derive(Clone, Copy, Debug)]
enum F {
    Normal(f64, f64),
    Poisson(f64),
    Exponential(f64),
    Gamma(f64, f64),
    Beta(f64, f64),
}

impl F {
    fn eta(self) -> Vec<f64> {
        match self {
            F::Normal(m, s) => vec![m / (s * s), -0.5 / (s * s)],
            F::Poisson(l) => vec![l.ln()],
            F::Exponential(r) => vec![-r],
            F::Gamma(a, b) => vec![a - 1.0, -b],
            F::Beta(a, b) => vec![a - 1.0, b - 1.0],
        }
    }
    fn partition(self) -> f64 {
        match self {
            F::Normal(m, s) => m * m / (2.0 * s * s) + s.ln() + 0.5 * (2.0 * std::f64::consts::PI).ln(),
            F::Poisson(l) => l,
            F::Exponential(r) => -r.ln(),
            F::Gamma(a, b) => ln_gamma(a) - a * b.ln(),
            F::Beta(a, b) => ln_beta(a, b),
        }
    }
    fn stat<E: DistributionExpr>(self, x: &E::Repr<f64>) -> Vec<E::Repr<f64>>
    where
        E::Repr<f64>: Clone,
    {
        match self {
            F::Normal(..) => vec![x.clone(), E::mul(x.clone(), x.clone())],
            F::Poisson(_) | F::Exponential(_) => vec![x.clone()],
            F::Gamma(..) => vec![E::ln(x.clone()), x.clone()],
            F::Beta(..) => vec![E::ln(x.clone()), E::ln(E::sub(E::constant(1.0), x.clone()))],
        }
    }
    fn base<E: DistributionExpr>(self, x: &E::Repr<f64>) -> E::Repr<f64>
    where
        E::Repr<f64>: Clone,
    {
        match self {
            F::Poisson(_) => E::neg(<E as ExponentialFamilyExpr>::log_gamma(E::add(x.clone(), E::constant(1.0)))),
            _ => E::constant(0.0),
        }
    }
    fn want(self, x: f64) -> W {
        let (v, s) = match self {
            F::Normal(m, s) => {
                let (v, z) = P::Normal.want(&[x, m, s]);
                (v, z + (x * x + 2.0 * (x * m).abs() + m * m) / (s * s))
            }
            F::Poisson(l) => P::EfPoisson.want(&[x, l]),
            F::Exponential(r) => P::Exponential.want(&[x, r]),
            F::Gamma(a, b) => P::Gamma.want(&[x, a, b]),
            F::Beta(a, b) => P::Beta.want(&[x, a, b]),
        };
        (v, s + self.partition().abs())
    }
    fn points(self) -> Vec<f64> {
        match self {
            F::Normal(..) => vec![-3.5, 0.0, 1.0, 40.0],
            F::Poisson(_) => vec![0.0, 1.0, 4.0, 30.0],
            F::Exponential(_) => vec![0.0, 0.5, 3.0, 100.0],
            F::Gamma(..) => vec![0.01, 1.0, 2.5, 60.0],
            F::Beta(..) => vec![0.01, 0.3, 0.5, 0.999],
        }
    }
    fn all() -> Vec<F> {
        let mut v = vec![];
        for a in [0.5, 1.0, 3.0, 25.0] {
            for b in [0.2, 1.0, 4.5] {
                v.extend([F::Normal(a - 1.5, b), F::Gamma(a, b), F::Beta(a, b)]);
            }
            v.extend([F::Poisson(a), F::Exponential(a)]);
        }
        v
    }
    /// The joint log-density of the observations, through the i.i.d. form.
    fn joint<E: DistributionExpr>(self, xs: &[E::Repr<f64>]) -> E::Repr<f64>
    where
        E::Repr<f64>: Clone,
    {
        let eta: Vec<_> = self.eta().into_iter().map(E::constant).collect();
        let stats: Vec<Vec<_>> = xs.iter().map(|x| self.stat::<E>(x)).collect();
        let mut total = <E as ExponentialFamilyExpr>::sum_sufficient_stats(&stats);
        if xs.is_empty() {
            assert!(total.is_empty(), "no observations, {} statistics", total.len());
            total = eta.iter().map(|_| E::constant(0.0)).collect();
        }
        let mut base = E::constant(0.0);
        for x in xs {
            base = E::add(base, self.base::<E>(x));
        }
        <E as ExponentialFamilyExpr>::iid_exp_fam_log_density(&eta, &total, E::constant(self.partition()), E::constant(xs.len() as f64), base)
    }
    fn single<E: DistributionExpr>(self, x: &E::Repr<f64>) -> E::Repr<f64>
    where
        E::Repr<f64>: Clone,
    {
        let eta: Vec<_> = self.eta().into_iter().map(E::constant).collect();
        <E as ExponentialFamilyExpr>::exp_fam_log_density(&eta, &self.stat::<E>(x), E::constant(self.partition()), self.base::<E>(x))
    }
}

fn iid(k: &mut Check, f: F) {
    let pts = f.points();
    let name = format!("{f:?}");
    for x in &pts {
        let w = f.want(*x);
        k.state();
        k.trace();
        judge(k, "exp_fam_log_density|DirectEval", &name, &[*x], w, quiet(|| f.single::<DirectEval>(x)));
        judge(k, "exp_fam_log_density|DistributionEval", &name, &[*x], w, quiet(|| f.single::<DistributionEval>(x)));
        judge(k, "exp_fam_log_density|ExpFamEval", &name, &[*x], w, quiet(|| f.single::<ExpFamEval>(x)));
    }
    let depth = if k.thorough() { 7 } else { 5 };
    for len in 0..=depth {
        // one term over variables serves every sequence of its length
        let compiled = (len > 0 && len <= 4).then(|| {
            let r = quiet(|| JITEval::compile(f.joint::<JITEval>(&(0..len).map(|i| JITEval::var(["w", "x", "y", "z"][i])).collect::<Vec<_>>())));
            let t = quiet(|| f.joint::<PrettyPrint>(&(0..len).map(|i| PrettyPrint::var(var_names()[i])).collect::<Vec<_>>()));
            (r, t.and_then(|t| parse(&t, Lang::Plain)))
        });
        for s in sequences(pts.len(), len) {
            let xs: Vec<f64> = s.iter().map(|i| pts[*i]).collect();
            k.tick(|| format!("iid|{name}|{}", shown(&xs)));
            k.state();
            k.trace();
            let w = xs.iter().map(|x| f.want(*x)).fold((0.0, 1.0), |a, b| (a.0 + b.0, a.1 + b.1));
            judge(k, "iid|DirectEval", &name, &xs, w, quiet(|| f.joint::<DirectEval>(&xs)));
            judge(k, "iid|DistributionEval", &name, &xs, w, quiet(|| f.joint::<DistributionEval>(&xs)));
            judge(k, "iid|ExpFamEval", &name, &xs, w, quiet(|| f.joint::<ExpFamEval>(&xs)));
            if let Some((c, t)) = &compiled {
                let got = match c {
                    Ok(Ok(c)) => jit::call(c, &xs, &[]),
                    Ok(Err(e)) => Err(format!("does not compile: {e}")),
                    Err(e) => Err(e.clone()),
                };
                judge(k, "iid|JITEval", &name, &xs, w, got);
                let mut env: Env = [None; 4];
                for (i, x) in xs.iter().enumerate() {
                    env[i] = Some(*x);
                }
                match t {
                    Ok(t) => match ev(t, &env) {
                        R::Val(v, _) => judge(k, "iid|PrettyPrint", &name, &xs, w, Ok(v)),
                        R::Unsure => k.outside += 1,
                        r => judge(k, "iid|PrettyPrint", &name, &xs, w, Err(format!("{r:?}"))),
                    },
                    Err(e) => k.fail(&format!("iid|PrettyPrint|{name}|{len}"), e),
                }
            }
        }
    }
    // long samples
    let mut lengths: Vec<usize> = (depth + 1..=70).collect();
    lengths.extend([100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096, 4097]);
    for len in lengths {
        for step in 1..=if len <= 70 { 3 } else { 1 } {
            let xs: Vec<f64> = (0..len).map(|i| pts[(i * step + i / 5) % pts.len()]).collect();
            k.tick(|| format!("iid|{name}|{len} observations"));
            k.state();
            k.trace();
            let w = xs.iter().map(|x| f.want(*x)).fold((0.0, 1.0), |a, b| (a.0 + b.0, a.1 + b.1));
            let at = [len as f64, step as f64];
            judge(k, "iid long|DirectEval", &name, &at, w, quiet(|| f.joint::<DirectEval>(&xs)));
            judge(k, "iid long|DistributionEval", &name, &at, w, quiet(|| f.joint::<DistributionEval>(&xs)));
            judge(k, "iid long|ExpFamEval", &name, &at, w, quiet(|| f.joint::<ExpFamEval>(&xs)));
        }
    }
}

/// Products and sums of vectors, sums of exponentials of any length.
fn vectors(k: &mut Check) {
    let al = [-1.5, 0.0, 2.0, 1e8];
    let depth = if k.thorough() { 6 } else { 5 };
    for n in 0..=depth {
        for s in sequences(al.len(), n) {
            let p: Vec<f64> = s.iter().map(|i| al[*i]).collect();
            for t in sequences(al.len(), n) {
                let q: Vec<f64> = t.iter().map(|i| al[*i]).collect();
                k.state();
                k.trace();
                let w = (p.iter().zip(&q).map(|(a, b)| a * b).sum(), p.iter().zip(&q).map(|(a, b)| (a * b).abs()).sum::<f64>());
                let all: Vec<f64> = p.iter().chain(&q).copied().collect();
                judge(k, "dot_product|DirectEval", "", &all, w, quiet(|| DirectEval::dot_product(&p, &q)));
                judge(k, "dot_product|DistributionEval", "", &all, w, quiet(|| DistributionEval::dot_product(&p, &q)));
                judge(k, "dot_product|ExpFamEval", "", &all, w, quiet(|| ExpFamEval::dot_product(&p, &q)));
                judge(k, "dot_product_array", "", &all, w, quiet(|| ExpFamEval::dot_product_array(&p, &q)));
            }
        }
    }
    // long vectors: every length up to a bound
    for n in (0..=70usize).chain([100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096, 4097]) {
        let p: Vec<f64> = (0..n).map(|i| 1.0 + i as f64 * 0.5).collect();
        let q: Vec<f64> = (0..n).map(|i| if i % 3 == 0 { -2.0 } else { i as f64 }).collect();
        let w = (p.iter().zip(&q).map(|(a, b)| a * b).sum(), p.iter().zip(&q).map(|(a, b)| (a * b).abs()).sum::<f64>());
        k.state();
        judge(k, "dot_product|DirectEval", "long", &[n as f64], w, quiet(|| DirectEval::dot_product(&p, &q)));
        judge(k, "dot_product_array", "long", &[n as f64], w, quiet(|| ExpFamEval::dot_product_array(&p, &q)));
        let rows: Vec<Vec<f64>> = (0..n).map(|i| vec![p[i], q[i], 1.0]).collect();
        let refs: Vec<&[f64]> = rows.iter().map(Vec::as_slice).collect();
        let want = vec![p.iter().sum::<f64>(), q.iter().sum::<f64>(), n as f64];
        let near = |g: &Result<Vec<f64>, String>| matches!(g, Ok(g) if (n == 0 && g.is_empty()) || (g.len() == 3 && g.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs()))));
        let g = quiet(|| DirectEval::sum_sufficient_stats(&rows));
        k.require(&format!("sum_sufficient_stats|{n}"), near(&g), || format!("{g:?}, expected {want:?}"));
        let g = quiet(|| ExpFamEval::sum_stats_array(&refs));
        k.require(&format!("sum_stats_array|{n}"), near(&g), || format!("{g:?}, expected {want:?}"));
    }
    // all small matrices of statistics
    for rows in 0..=3usize {
        for cols in 0..=(if rows == 3 { 2 } else { 3 }) {
            for s in sequences(al.len(), rows * cols) {
                let m: Vec<Vec<f64>> = (0..rows).map(|r| (0..cols).map(|c| al[s[r * cols + c]]).collect()).collect();
                let refs: Vec<&[f64]> = m.iter().map(Vec::as_slice).collect();
                let want: Vec<f64> = if rows == 0 { vec![] } else { (0..cols).map(|c| m.iter().map(|r| r[c]).sum()).collect() };
                k.state();
                k.trace();
                for (what, g) in [
                    ("sum_sufficient_stats|DirectEval", quiet(|| DirectEval::sum_sufficient_stats(&m))),
                    ("sum_sufficient_stats|DistributionEval", quiet(|| DistributionEval::sum_sufficient_stats(&m))),
                    ("sum_stats_array", quiet(|| ExpFamEval::sum_stats_array(&refs))),
                ] {
                    let ok = matches!(&g, Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 1e-7));
                    k.require(&format!("{what}|{m:?}"), ok, || format!("{g:?}, expected {want:?}"));
                }
            }
        }
    }
    // log-sum-exp of every sequence, the empty one included
    let ls = [-300.0, -2.0, 0.0, 1.5, 300.0];
    for n in 0..=depth + 1 {
        for s in sequences(ls.len(), n) {
            let a: Vec<f64> = s.iter().map(|i| ls[*i]).collect();
            k.state();
            let m = a.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            if n == 0 {
                let g = quiet(|| DirectEval::log_sum_exp::<f64>(&a));
                k.require("log_sum_exp|", g == Ok(f64::NEG_INFINITY), || format!("{g:?} for no values"));
                continue;
            }
            let w = (m + a.iter().map(|x| (x - m).exp()).sum::<f64>().ln(), 1.0 + m.abs());
            judge(k, "log_sum_exp|DirectEval", "", &a, w, quiet(|| DirectEval::log_sum_exp(&a)));
            judge(k, "log_sum_exp|ExpFamEval", "", &a, w, quiet(|| ExpFamEval::log_sum_exp(&a)));
        }
    }
    for n in (1..=70usize).chain([127, 128, 129, 255, 256, 257, 1000, 1024, 4097]) {
        for peak in [0, n / 2, n - 1] {
            let a: Vec<f64> = (0..n).map(|i| if i == peak { 40.0 } else { 41.0 - ((i * 7) % 13) as f64 }).collect();
            k.state();
            let m = a.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            let w = (m + a.iter().map(|x| (x - m).exp()).sum::<f64>().ln(), 1.0 + m.abs());
            judge(k, "log_sum_exp long|DirectEval", "", &[n as f64, peak as f64], w, quiet(|| DirectEval::log_sum_exp(&a)));
            judge(k, "log_sum_exp long|ExpFamEval", "", &[n as f64, peak as f64], w, quiet(|| ExpFamEval::log_sum_exp(&a)));
        }
    }
    // a single value is itself, however large
    for x in [-1e300, -1000.0, 1000.0, 1e300] {
        let g = quiet(|| DirectEval::log_sum_exp(&[x]));
        k.require(&format!("log_sum_exp|{x:?}"), g == Ok(x), || format!("{g:?}"));
    }
}

/// The ingredients at single precision.
fn singles(k: &mut Check) {
    let near = |k: &mut Check, what: &str, a: &[f64], w: W, g: Result<f32, String>| {
        k.transitions += 1;
        k.state();
        if !matches!(&g, Ok(g) if (f64::from(*g) - w.0).abs() <= 2e-5 * w.1 + 1e-30) {
            k.fail(&format!("f32|{what}|{}", shown(a)), &format!("got {g:?}, expected {:?}", w.0));
        }
    };
    for x in fine_positives().into_iter().filter(|x| *x >= 1e-3 && *x <= 1e4) {
        let y = f64::from(x as f32);
        let w = LogGamma.want(&[y]);
        near(k, "log_gamma", &[y], w, quiet(|| <DirectEval as ExponentialFamilyExpr>::log_gamma(x as f32)));
        near(k, "log_gamma_function", &[y], w, quiet(|| <DistributionEval as DistributionMathExpr>::log_gamma_function(x as f32)));
        for z in [0.5f32, 1.0, 7.5] {
            near(k, "log_beta", &[y, f64::from(z)], LogBeta.want(&[y, f64::from(z)]), quiet(|| <DirectEval as DistributionMathExpr>::log_beta(x as f32, z)));
        }
        if y < 30.0 {
            near(k, "gamma_function", &[y], GammaFunction.want(&[y]), quiet(|| <DirectEval as DistributionMathExpr>::gamma_function(x as f32)));
        }
    }
    for x in [-60.0f32, -5.0, -0.5, 0.0, 0.25, 1.0, 20.0, 60.0] {
        let a = [f64::from(x)];
        near(k, "logistic", &a, Logistic.want(&a), quiet(|| <DirectEval as ExponentialFamilyExpr>::logistic(x)));
        near(k, "softplus", &a, Softplus.want(&a), quiet(|| <DirectEval as ExponentialFamilyExpr>::softplus(x)));
        for y in [-3.0f32, 0.0, 30.0] {
            let b = [f64::from(x), f64::from(y)];
            near(k, "log_sum_exp", &b, Lse2.want(&b), quiet(|| ExpFamEval::log_sum_exp(&[x, y])));
            near(k, "dot_product", &b, (f64::from(x * y + y * x), 1.0 + 2.0 * f64::from((x * y).abs())), quiet(|| ExpFamEval::dot_product(&[x, y], &[y, x])));
        }
    }
}

pub fn c16() {
    let mut k = Check::new("C16");
    let mut jobs: Vec<(P, usize)> = vec![];
    for p in ALL {
        for mask in 0..1usize << p.arity() {
            jobs.push((p, mask));
        }
    }
    let fs = F::all();
    k.parallel(ALL.len(), |k, i| direct(k, ALL[i]));
    k.parallel(2, |k, i| if i == 0 { vectors(k) } else { singles(k) });
    let shards = 48;
    k.shards(shards, Duration::from_secs(60), |k, s| {
        for (i, (p, mask)) in jobs.iter().enumerate() {
            if i % shards == s {
                lowered(k, *p, *mask);
            }
        }
        for (i, f) in fs.iter().enumerate() {
            if i % shards == s {
                iid(k, *f);
            }
        }
    });
    k.assume("points lie in the support (a branch-free pattern has no other); plain exponentials neither over- nor underflow");
    k.finish("all patterns x all parameter and point grids x 3 evaluators; printed and native forms for every choice of which arguments are constants; scales from 1e-300 to 1e300 with points at up to 40 scales; i.i.d. sums over all sequences of up to 5 (thorough 7) points; all small vectors and matrices of statistics; single precision")
}
