//! C04 joint log-densities over observation sequences, C05 decompositions over builder-call sequences,
//! C06 caches over call histories.

use crate::fam::{self, Fl, Law, NEG, Pt, Size};
use crate::user;
use mc::{Check, sequences};
use measures_core::{DotProduct, EvaluateAt, HasLogDensity, LogDensity, LogDensityBuilder, LogDensityCaching, Measure, MeasureMarker};
use measures_core::core::log_density_decomposition::{DecompositionBuilder, HasLogDensityDecomposition, LogDensityDecomposition};
use measures_core::primitive::counting::CountingMeasure;
use measures_core::{False};
use measures_distributions as md;
use measures_exponential_family::exponential_family::iid::{IID, IIDBaseMeasure, IIDRootMeasure};
use measures_exponential_family::exponential_family::traits::{SumSufficientStats, compute_iid_exp_fam_log_density};
use measures_exponential_family::{ExponentialFamily, IIDExtension};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------------------------------- C04

/// Up to `n` support points (the ones with distinct masses first) and up to one point outside.
fn alphabet<X: Pt>(l: &Law<X>, n: usize) -> (Vec<X>, Option<X>) {
    let mut inside: Vec<X> = vec![];
    for x in l.support() {
        if inside.len() < n && !inside.contains(&x) {
            inside.push(x);
        }
    }
    let outside = l.pts.iter().find(|x| l.at(x) == NEG).cloned();
    (inside, outside)
}

struct Want {
    sum: f64,
    tol: f64,
    alt: Option<(&'static str, f64)>,
    inside: bool,
}

fn want<F: Fl, X: Pt>(l: &Law<X>, xs: &[X]) -> Want {
    let curv = crate::dist::norm_curvature(l);
    let mut w = Want { sum: 0.0, tol: 0.0, alt: None, inside: true };
    let mut scale = 0.0;
    for x in xs {
        let (v, s) = (l.f)(x.d());
        w.sum += v;
        w.inside &= v > NEG;
        scale += 1.0 + s + x.d() * x.d() * curv;
        if let Some((k, o)) = l.form_defect(x) {
            w.alt = Some((k, o + w.alt.map_or(0.0, |a| a.1)));
        }
    }
    // a straightforward sum of n terms loses up to n units in the last place of the total magnitude
    w.tol = scale * F::RTOL * (1.0 + xs.len() as f64 / 50.0);
    w
}

/// The routes every exponential family has.
fn joint<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X> + HasLogDensity<X, F> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + Clone,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, F> + Clone,
{
    joint_routes::<F, X, D>(ck, d, l, &|_, _, _, _, _| ());
}

/// Those whose root measure has a product are measures and exponential families over sequences as well.
fn joint_measure<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X> + HasLogDensity<X, F> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + Clone,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, F> + Clone,
    D::RootMeasure: IIDRootMeasure<X>,
    <D::BaseMeasure as Measure<X>>::RootMeasure: IIDRootMeasure<X>,
    <IID<D> as Measure<Vec<X>>>::RootMeasure: HasLogDensity<Vec<X>, F>,
{
    let iid = IIDExtension::<X, F>::iid(d.clone());
    let base: IIDBaseMeasure<D::BaseMeasure> = ExponentialFamily::<Vec<X>, F>::base_measure(&iid);
    let (rebuilt, eta) = (iid.clone(), ExponentialFamily::<Vec<X>, F>::to_natural(&iid));
    let again = <IID<D> as ExponentialFamily<Vec<X>, F>>::from_natural(eta);
    joint_routes::<F, X, D>(ck, d, l, &|ck, xs, w, key, target| {
        ck.expect_alt(&format!("{key}|clone"), target, F::RTOL, w.tol, w.alt, || rebuilt.iid_log_density::<X, F>(xs).d());
        if xs.len() <= 4 && target.abs() < 1e4 {
            let loose = if F::NAME == "f32" { 2e-4 } else { 1e-8 };
            ck.expect_alt(&format!("{key}|from_natural"), target, loose, loose * (1.0 + w.tol / F::RTOL), w.alt, || again.iid_log_density::<X, F>(xs).d());
        }
        // densities are relative to the product of the root measures
        ck.close(&format!("{key}|root measure"), iid.root_measure().log_density_wrt_root(xs).d(), 0.0, 0.0, 0.0);
        ck.require(&format!("{key}|root measure support"), iid.root_measure().in_support(xs.clone()) && base.root_measure().in_support(xs.clone()), || "the root measure does not cover the sequence".into());
        ck.require(&format!("{key}|in_support"), iid.in_support(xs.clone()) == w.inside, || format!("support membership is not {}", w.inside));
        if w.inside {
            // the exponential-family forms are stated for the support
            ck.expect_alt(&format!("{key}|exp_fam"), target, F::RTOL, w.tol, w.alt, || ExponentialFamily::<Vec<X>, F>::exp_fam_log_density(&iid, xs).d());
            // the joint distribution is an exponential family with these ingredients
            ck.expect_alt(&format!("{key}|ingredients"), target, F::RTOL, w.tol, w.alt, || {
                let (eta, a) = ExponentialFamily::<Vec<X>, F>::natural_and_log_partition(&iid);
                let t = ExponentialFamily::<Vec<X>, F>::sufficient_statistic(&iid, xs);
                (eta.dot(&t) - F::of(xs.len() as f64) * a + base.log_density_wrt_root(xs)).d()
            });
            ck.require(&format!("{key}|base support"), base.in_support(xs.clone()), || "support of the base measure".into());
        }
    });
}

/// A joint distribution is an exponential family, so several of its observations have a joint distribution
/// again: the sum over all observations of all groups, whatever the sizes of the groups.
fn nested<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X> + HasLogDensity<X, F> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + Clone,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, F> + Clone,
    IID<D>: ExponentialFamily<Vec<X>, F, NaturalParam = D::NaturalParam, SufficientStat = D::SufficientStat, BaseMeasure = IIDBaseMeasure<D::BaseMeasure>> + Measure<Vec<X>> + HasLogDensity<Vec<X>, F>,
    IID<IID<D>>: ExponentialFamily<Vec<Vec<X>>, F, NaturalParam = D::NaturalParam> + Measure<Vec<Vec<X>>> + HasLogDensity<Vec<Vec<X>>, F>,
    <IID<IID<D>> as ExponentialFamily<Vec<Vec<X>>, F>>::BaseMeasure: HasLogDensity<Vec<Vec<X>>, F>,
    D::NaturalParam: DotProduct<<IID<IID<D>> as ExponentialFamily<Vec<Vec<X>>, F>>::SufficientStat, Output = F>,
{
    let k = format!("{}|{}|nested", F::NAME, l.key);
    ck.at(&k, true);
    let inner = IIDExtension::<X, F>::iid(d.clone());
    let outer: IID<IID<D>> = IIDExtension::<Vec<X>, F>::iid(inner.clone());
    let (mut al, out) = alphabet(l, 2);
    al.extend(out);
    let mut groups: Vec<Vec<X>> = vec![];
    for n in 0..=2 {
        for s in sequences(al.len(), n) {
            groups.push(s.iter().map(|&i| al[i].clone()).collect());
        }
    }
    groups.push((0..7).map(|i| al[i % 2.min(al.len())].clone()).collect());
    for n in 0..=(if ck.thorough() { 3 } else { 2 }) {
        for s in sequences(groups.len(), n) {
            let xss: Vec<Vec<X>> = s.iter().map(|&i| groups[i].clone()).collect();
            let flat: Vec<X> = xss.iter().flatten().cloned().collect();
            let w = want::<F, X>(l, &flat);
            let target = if w.inside { w.sum } else { NEG };
            let key = format!("{k}|{xss:?}");
            ck.state();
            ck.require(&format!("{key}|in_support"), outer.in_support(xss.clone()) == w.inside, || format!("support membership is not {}", w.inside));
            ck.expect_alt(&format!("{key}|iid_log_density"), target, F::RTOL, w.tol, w.alt, || outer.iid_log_density::<Vec<X>, F>(&xss).d());
            ck.expect_alt(&format!("{key}|root density"), target, F::RTOL, w.tol, w.alt, || HasLogDensity::<Vec<Vec<X>>, F>::log_density_wrt_root(&outer, &xss).d());
            ck.expect_alt(&format!("{key}|fallback"), target, F::RTOL, w.tol, w.alt, || outer.iid_log_density_fallback::<Vec<X>, F>(&xss).d());
            if w.inside {
                ck.expect_alt(&format!("{key}|exp_fam"), target, F::RTOL, w.tol, w.alt, || ExponentialFamily::<Vec<Vec<X>>, F>::exp_fam_log_density(&outer, &xss).d());
                ck.expect_alt(&format!("{key}|helper"), target, F::RTOL, w.tol, w.alt, || compute_iid_exp_fam_log_density::<Vec<X>, F, IID<D>>(&inner, &xss).d());
            }
            ck.trace();
        }
    }
}

type Extra<'a, X> = &'a dyn Fn(&mut Check, &Vec<X>, &Want, &str, f64);

fn joint_routes<F, X, D>(ck: &mut Check, d: &D, l: &Law<X>, extra: Extra<X>)
where
    F: Fl,
    X: Pt,
    D: ExponentialFamily<X, F> + Measure<X> + HasLogDensity<X, F> + Clone,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = F> + Clone,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, F> + Clone,
{
    let k = format!("{}|{}", F::NAME, l.key);
    ck.at(&k, true);
    let iid = IIDExtension::<X, F>::iid(d.clone());
    let (mut al, out) = alphabet(l, 3);
    let has_out = out.is_some();
    al.extend(out);
    let depth = match (ck.thorough(), has_out) {
        (false, true) => 7,
        (false, false) => 8,
        (true, true) => 8,
        (true, false) => 9,
    };
    let mut judge = |ck: &mut Check, xs: Vec<X>, name: &dyn Fn() -> String| {
        let w = want::<F, X>(l, &xs);
        ck.state();
        let key = name();
        let target = if w.inside { w.sum } else { NEG };
        // the joint distribution itself
        ck.expect_alt(&format!("{key}|iid_log_density"), target, F::RTOL, w.tol, w.alt, || iid.iid_log_density::<X, F>(&xs).d());
        ck.expect_alt(&format!("{key}|root density"), target, F::RTOL, w.tol, w.alt, || <IID<D> as HasLogDensity<Vec<X>, F>>::log_density_wrt_root(&iid, &xs).d());
        ck.expect(&format!("{key}|fallback"), target, F::RTOL, w.tol, || iid.iid_log_density_fallback::<X, F>(&xs).d());
        if w.inside {
            ck.expect_alt(&format!("{key}|helper"), target, F::RTOL, w.tol, w.alt, || compute_iid_exp_fam_log_density::<X, F, D>(d, &xs).d());
        }
        extra(ck, &xs, &w, &key, target);
        ck.trace();
    };
    for n in 0..=depth {
        for s in sequences(al.len(), n) {
            let xs: Vec<X> = s.iter().map(|&i| al[i].clone()).collect();
            judge(ck, xs.clone(), &|| format!("{k}|{xs:?}"));
        }
    }
    // long sequences: every length class, repeating the support points; one stray point at either end
    let inside = if has_out { &al[..al.len() - 1] } else { &al[..] };
    let mut lens = vec![10usize, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097];
    lens.extend([5000, 8192, 10_000, 65_535, 65_536, 65_537]);
    if ck.thorough() {
        lens.extend([100_000, 131_071, 131_072, 131_073, 1_000_000]);
    }
    for n in lens {
        let xs: Vec<X> = (0..n).map(|i| inside[i % inside.len()].clone()).collect();
        judge(ck, xs.clone(), &|| format!("{k}|{n} cyclic observations"));
        if has_out {
            for at in [0, n / 2, n - 1] {
                let mut ys = xs.clone();
                ys[at] = al[al.len() - 1].clone();
                judge(ck, ys, &|| format!("{k}|{n} cyclic observations, one outside at {at}"));
            }
        }
    }
}

fn builder_route<X: Pt, D>(ck: &mut Check, d: &D, l: &Law<X>)
where
    D: ExponentialFamily<X, f64> + Measure<X> + Clone,
    IID<D>: LogDensityBuilder<Vec<X>> + Measure<Vec<X>> + HasLogDensity<Vec<X>, f64> + Clone,
    LogDensity<Vec<X>, IID<D>>: EvaluateAt<Vec<X>, f64>,
{
    let k = format!("builder|{}", l.key);
    ck.at(&k, true);
    let iid = IIDExtension::<X, f64>::iid(d.clone());
    let ld = LogDensityBuilder::<Vec<X>>::log_density(&iid);
    let (mut al, out) = alphabet(l, 2);
    al.extend(out);
    for n in 0..=4 {
        for s in sequences(al.len(), n) {
            let xs: Vec<X> = s.iter().map(|&i| al[i].clone()).collect();
            let w = want::<f64, X>(l, &xs);
            ck.state();
            let t = if w.inside { w.sum } else { NEG };
            ck.expect_alt(&format!("{k}|{xs:?}"), t, 1e-10, w.tol, w.alt, || ld.at(&xs));
            ck.trace();
        }
    }
}

/// The sample-wise route of the non-exponential families (and Normal): through their decompositions.
fn direct_iid<F: Fl + Pt>(ck: &mut Check, l: &Law<F>, f: &dyn Fn(&[F]) -> F) {
    let k = format!("{}|{}|log_density_iid", F::NAME, l.key);
    ck.at(&k, true);
    let (al, _) = alphabet(l, 4);
    for n in 0..=(if ck.thorough() { 9 } else { 7 }) {
        for s in sequences(al.len(), n) {
            let xs: Vec<F> = s.iter().map(|&i| al[i]).collect();
            let w = want::<F, F>(l, &xs);
            ck.state();
            ck.expect(&format!("{k}|{xs:?}"), w.sum, F::RTOL, w.tol, || f(&xs).d());
            ck.trace();
        }
    }
    for n in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 4097, 5000, 65_535, 65_536, 65_537] {
        let xs: Vec<F> = (0..n).map(|i| al[i % al.len()]).collect();
        let w = want::<F, F>(l, &xs);
        ck.state();
        ck.expect(&format!("{k}|{n} cyclic observations"), w.sum, F::RTOL, w.tol, || f(&xs).d());
        ck.trace();
    }
}

pub fn c04() {
    let mut ck = Check::new("C04");
    const PARTS: usize = 64;
    ck.parallel(PARTS, |ck, part| {
    let z = Size::Small;
    let mut n = 0;
    let mut mine = || {
        n += 1;
        n % PARTS == part
    };
    macro_rules! all {
        ($F:ty, $f:ident: $($fam:expr),*) => { $( for (d, l) in $fam { if mine() { $f::<$F, _, _>(ck, &d, &l); } } )* };
    }
    macro_rules! both {
        ($F:ty) => {
            all!($F, joint_measure: fam::normal::<$F>(z), fam::exponential::<$F>(z), fam::gamma::<$F>(z), fam::beta::<$F>(z), fam::chi_squared::<$F>(z));
            all!($F, joint_measure: fam::bernoulli::<$F>(z, false), fam::geometric::<$F>(z, false), user::three::<$F>(), user::odd::<$F>());
            all!($F, joint: fam::binomial::<$F>(z, false), fam::negative_binomial::<$F>(z), fam::poisson::<$F>(z));
        };
    }
    both!(f64);
    both!(f32);
    macro_rules! nest {
        ($F:ty) => {
            all!($F, nested: fam::normal::<$F>(z), fam::exponential::<$F>(z), fam::gamma::<$F>(z), fam::beta::<$F>(z), fam::chi_squared::<$F>(z), fam::bernoulli::<$F>(z, false), fam::geometric::<$F>(z, false), user::three::<$F>(), user::odd::<$F>());
        };
    }
    nest!(f64);
    nest!(f32);
    for (d, l) in fam::std_normal::<f64>(z) {
        if !mine() {
            continue;
        }
        for n in 0..=5 {
            for s in sequences(4, n) {
                let xs: Vec<f64> = s.iter().map(|&i| l.pts[i]).collect();
                let w = want::<f64, f64>(&l, &xs);
                ck.state();
                ck.expect(&format!("StdNormal|{xs:?}|helper"), w.sum, 1e-10, w.tol, || compute_iid_exp_fam_log_density::<f64, f64, _>(&d, &xs));
            }
        }
    }
    if mine() {
        all_iid_builder(ck);
    }
    macro_rules! direct {
        ($F:ty, $($f:ident),*) => { $( for (d, l) in fam::$f::<$F>(z) { if mine() { direct_iid::<$F>(ck, &l, &|xs| d.log_density_iid(xs)); } } )* };
    }
    direct!(f64, normal, cauchy, student_t);
    direct!(f32, normal, cauchy, student_t);
    });
    ck.assume("categorical distributions have list-valued statistics, for which the joint routes do not exist");
    ck.assume("the bare exponential-family routes (exp_fam_log_density and its helper) are stated for observations in the support");
    ck.finish("all observation sequences over 3 support points and 1 outside point up to length 7 or 8 (thorough 8 or 9), cyclic samples of lengths around block sizes up to 65537 (thorough 10^6), samples of up to 2 (thorough 3) samples, x family parameters, two families written by a user, x {f32,f64} x routes");
}

fn all_iid_builder(ck: &mut Check) {
    use fam::*;
    let z = Size::Small;
    macro_rules! b { ($($e:expr),*) => { $( for (d, l) in $e { builder_route(ck, &d, &l); } )* } }
    b!(normal::<f64>(z), exponential::<f64>(z), gamma::<f64>(z), beta::<f64>(z), chi_squared::<f64>(z), poisson::<f64>(z), binomial::<f64>(z, false), geometric::<f64>(z, false), negative_binomial::<f64>(z), bernoulli::<f64>(z, false));
}

// ---------------------------------------------------------------------------------------------- C05

#[derive(Clone, Copy, Debug)]
enum Op {
    Data(usize),
    Param(usize),
    Mixed(usize),
    Const(usize),
}
const OPS: [Op; 9] = [Op::Data(0), Op::Data(1), Op::Param(0), Op::Param(1), Op::Mixed(0), Op::Mixed(1), Op::Const(0), Op::Const(1), Op::Const(2)];
// every value is a small dyadic rational: all sums are exact in f32 and f64 and can be compared with ==
fn d0<F: Fl>(x: &F) -> F {
    *x * *x
}
fn d1<F: Fl>(x: &F) -> F {
    *x + F::of(17.0)
}
fn p0<F: Fl>(t: &(F, F)) -> F {
    t.0 * F::of(3.0) - t.1
}
fn p1<F: Fl>(t: &(F, F)) -> F {
    t.1 * F::of(64.0) + t.0
}
fn m0<F: Fl>(x: &F, t: &(F, F)) -> F {
    (*x - t.0) * (*x - t.0) * t.1
}
fn m1<F: Fl>(x: &F, t: &(F, F)) -> F {
    *x * t.1 - F::of(0.125)
}
const CONSTS: [f64; 3] = [256.5, -1024.0, 0.0625];

impl Op {
    fn value(self, x: f64, t: (f64, f64)) -> f64 {
        match self {
            Op::Data(0) => x * x,
            Op::Data(_) => x + 17.0,
            Op::Param(0) => t.0 * 3.0 - t.1,
            Op::Param(_) => t.1 * 64.0 + t.0,
            Op::Mixed(0) => (x - t.0) * (x - t.0) * t.1,
            Op::Mixed(_) => x * t.1 - 0.125,
            Op::Const(i) => CONSTS[i],
        }
    }
}
type Dec<F> = LogDensityDecomposition<F, (F, F), F>;

fn build<F: Fl>(ops: &[Op], fluent: bool) -> Dec<F> {
    if fluent {
        let mut b = DecompositionBuilder::<F, (F, F), F>::new();
        for o in ops {
            b = match o {
                Op::Data(0) => b.data_term(d0::<F>, "d0"),
                Op::Data(_) => b.data_term(d1::<F>, "d1"),
                Op::Param(0) => b.param_term(p0::<F>, "p0"),
                Op::Param(_) => b.param_term(p1::<F>, "p1"),
                Op::Mixed(0) => b.mixed_term(m0::<F>, "m0"),
                Op::Mixed(_) => b.mixed_term(m1::<F>, "m1"),
                Op::Const(i) => b.constant(F::of(CONSTS[*i])),
            };
        }
        b.build()
    } else {
        let mut b = Dec::<F>::new();
        for o in ops {
            b = match o {
                Op::Data(0) => b.add_data_term(d0::<F>, None),
                Op::Data(_) => b.add_data_term(d1::<F>, Some("d".into())),
                Op::Param(0) => b.add_param_term(p0::<F>, None),
                Op::Param(_) => b.add_param_term(p1::<F>, Some("d".into())),
                Op::Mixed(0) => b.add_mixed_term(m0::<F>, None),
                Op::Mixed(_) => b.add_mixed_term(m1::<F>, Some("d".into())),
                Op::Const(i) => b.add_constant(F::of(CONSTS[*i])),
            };
        }
        b
    }
}

/// One part of the sequences up to the depth: those whose number is `part` modulo `parts`.
fn decompositions<F: Fl>(ck: &mut Check, depth: usize, part: usize, parts: usize) {
    let mut number = 0usize;
    let xs = [0.5, -2.0, 3.0];
    let ts = [(1.0, 2.0), (-0.5, 4.0), (0.0, -1.0)];
    let f = F::of;
    for n in 0..=depth {
        for s in sequences(OPS.len(), n) {
            number += 1;
            if number % parts != part {
                continue;
            }
            let ops: Vec<Op> = s.iter().map(|&i| OPS[i]).collect();
            ck.state();
            for fluent in [false, true] {
                let k = format!("{}|{}|{ops:?}", F::NAME, if fluent { "builder" } else { "add" });
                ck.at(&k, false);
                let d = build::<F>(&ops, fluent);
                ck.trace();
                for &t in &ts {
                    let tf = (f(t.0), f(t.1));
                    let part = |p: &dyn Fn(&Op) -> bool, x: f64| -> f64 { ops.iter().filter(|o| p(o)).map(|o| o.value(x, t)).sum() };
                    let pw = part(&|o| matches!(o, Op::Param(_)), 0.0);
                    let cw = part(&|o| matches!(o, Op::Const(_)), 0.0);
                    let pg = d.evaluate_param_terms(&tf);
                    ck.close(&format!("{k}|{t:?}|param terms"), pg.d(), pw, 0.0, 0.0);
                    ck.close(&format!("{k}|{t:?}|constants"), d.constant_sum().d(), cw, 0.0, 0.0);
                    for &x in &xs {
                        let total = part(&|_| true, x);
                        let key = format!("{k}|x={x}|{t:?}");
                        ck.close(&key, d.evaluate(&f(x), &tf).d(), total, 0.0, 0.0);
                        let dw = part(&|o| matches!(o, Op::Data(_)), x);
                        let dg = d.evaluate_data_terms(&f(x));
                        ck.close(&format!("{key}|data terms"), dg.d(), dw, 0.0, 0.0);
                        let mixed: F = d.mixed_terms.iter().map(|m| (m.compute)(&f(x), &tf)).sum();
                        ck.close(&format!("{key}|parts"), (pg + dg + mixed + d.constant_sum()).d(), total, 0.0, 0.0);
                    }
                    if n <= 4 {
                        for m in 0..=3usize {
                            for q in sequences(if m < 3 { 3 } else { 2 }, m) {
                                let sample: Vec<F> = q.iter().map(|&i| f(xs[i])).collect();
                                let want: f64 = q.iter().map(|&i| part(&|_| true, xs[i])).sum();
                                ck.close(&format!("{k}|{t:?}|iid {q:?}"), d.evaluate_iid(&sample, &tf).d(), want, 0.0, 0.0);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Many terms and many observations: every number of either up to a bound.
fn long_decompositions<F: Fl>(ck: &mut Check, t: bool) {
    let f = F::of;
    let xs = [0.5, -2.0, 3.0];
    let tf = (-0.5, 4.0);
    let th = (f(tf.0), f(tf.1));
    // granularity 1/16 and terms below 1400: exact for these many of them
    let short = [71usize, 95, 96, 97, 100, 127, 128, 129, 255, 256, 257];
    let more = [500usize, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 65_535, 65_536, 65_537];
    let mut lens: Vec<usize> = if t { (0..=300).collect() } else { (0..=70).chain(short).collect() };
    if F::NAME == "f64" {
        lens.extend(more);
    }
    let mut sets: Vec<Vec<Op>> = vec![];
    for n in 0..=2 {
        sets.extend(sequences(OPS.len(), n).into_iter().map(|s| s.iter().map(|&i| OPS[i]).collect()));
    }
    sets.push(OPS.to_vec());
    for ops in &sets {
        ck.state();
        for fluent in [false, true] {
            let d = build::<F>(ops, fluent);
            for &n in &lens {
                let sample: Vec<f64> = (0..n).map(|i| xs[(i + i / 7) % 3]).collect();
                let want: f64 = sample.iter().map(|&x| ops.iter().map(|o| o.value(x, tf)).sum::<f64>()).sum();
                let sample: Vec<F> = sample.iter().map(|&x| f(x)).collect();
                ck.trace();
                ck.close(&format!("{}|{}|{ops:?}|{n} observations", F::NAME, if fluent { "builder" } else { "add" }), d.evaluate_iid(&sample, &th).d(), want, 0.0, 0.0);
            }
        }
    }
    for n in 0..=if t { 200 } else { 70 } {
        // one kind only, two kinds in turn, all kinds in turn
        let cycles: Vec<Vec<usize>> = (0..OPS.len()).map(|i| vec![i]).chain([vec![0, 1], vec![2, 3], vec![4, 5], vec![6, 7, 8], vec![8, 0, 2, 4], (0..OPS.len()).collect()]).collect();
        for c in cycles {
            let ops: Vec<Op> = (0..n).map(|i| OPS[c[i % c.len()]]).collect();
            ck.state();
            for fluent in [false, true] {
                let d = build::<F>(&ops, fluent);
                let key = format!("{}|{}|{n} terms {c:?}", F::NAME, if fluent { "builder" } else { "add" });
                for x in xs {
                    let want: f64 = ops.iter().map(|o| o.value(x, tf)).sum();
                    ck.close(&format!("{key}|x={x}"), d.evaluate(&f(x), &th).d(), want, 0.0, 0.0);
                    ck.close(&format!("{key}|x={x}|iid"), d.evaluate_iid(&[f(x), f(0.5)], &th).d(), want + ops.iter().map(|o| o.value(0.5, tf)).sum::<f64>(), 0.0, 0.0);
                    let parts = d.evaluate_param_terms(&th) + d.evaluate_data_terms(&f(x)) + d.constant_sum() + d.mixed_terms.iter().map(|m| (m.compute)(&f(x), &th)).sum::<F>();
                    ck.close(&format!("{key}|x={x}|parts"), parts.d(), want, 0.0, 0.0);
                }
            }
        }
    }
}

fn descriptions_and_sizes(ck: &mut Check) {
    type D = LogDensityDecomposition<f64, (f64, f64), f64>;
    fn gate(x: &f64) -> f64 {
        if *x > 0.0 { 0.5 * *x } else { f64::NEG_INFINITY }
    }
    fn small(x: &f64) -> f64 {
        *x * 1e-200
    }
    fn big(t: &(f64, f64)) -> f64 {
        t.0 * 1e200
    }
    fn edge(t: &(f64, f64)) -> f64 {
        if t.1 < 0.0 { f64::NEG_INFINITY } else { t.1 * 1e-17 }
    }
    fn meet(x: &f64, t: &(f64, f64)) -> f64 {
        if *x == t.1 { f64::NEG_INFINITY } else { (*x - t.1) * 1e-9 }
    }
    fn none(_: &f64, _: &(f64, f64)) -> f64 {
        0.0
    }
    type Step = (&'static str, fn(D, Option<String>) -> D, fn(f64, (f64, f64)) -> f64);
    let steps: [Step; 10] = [
        ("gate", |d, s| d.add_data_term(gate, s), |x, _| gate(&x)),
        ("1e-200 x", |d, s| d.add_data_term(small, s), |x, _| small(&x)),
        ("1e200 t", |d, s| d.add_param_term(big, s), |_, t| big(&t)),
        ("edge", |d, s| d.add_param_term(edge, s), |_, t| edge(&t)),
        ("meet", |d, s| d.add_mixed_term(meet, s), |x, t| meet(&x, &t)),
        ("none", |d, s| d.add_mixed_term(none, s), |_, _| 0.0),
        ("1e-300", |d, _| d.add_constant(1e-300), |_, _| 1e-300),
        ("-1e-13", |d, _| d.add_constant(-1e-13), |_, _| -1e-13),
        ("-0.0", |d, _| d.add_constant(-0.0), |_, _| -0.0),
        ("-inf", |d, _| d.add_constant(f64::NEG_INFINITY), |_, _| f64::NEG_INFINITY),
    ];
    let names = [None, Some(""), Some("term"), Some("inverse scale 1/σ")];
    for n in 0..=3 {
        for q in sequences(steps.len(), n) {
            for (w, name) in names.iter().enumerate() {
                ck.state();
                // all terms under the same name
                let d = q.iter().fold(D::new(), |d, &i| steps[i].1(d, name.map(Into::into)));
                let longer = q.iter().fold(d.clone(), |d, &i| steps[i].1(d, name.map(Into::into)));
                let key = format!("{:?} all named {name:?}", q.iter().map(|&i| steps[i].0).collect::<Vec<_>>());
                ck.at(&key, false);
                for x in [1.0, -1.0, 2.5] {
                    for t in [(1.0, 1.0), (0.0, 2.5), (-1e-190, -3.0)] {
                        let terms: Vec<f64> = q.iter().map(|&i| steps[i].2(x, t)).collect();
                        let want: f64 = terms.iter().sum();
                        let tol = if want.is_finite() && n > 1 { 1e-15 * terms.iter().map(|v| v.abs()).sum::<f64>() } else { 0.0 };
                        ck.close(&format!("{key}|x={x}|{t:?}"), d.evaluate(&x, &t), want, 0.0, tol);
                        ck.close(&format!("{key}|x={x}|{t:?}|iid"), d.evaluate_iid(&[x], &t), want, 0.0, tol);
                        ck.close(&format!("{key}|x={x}|{t:?}|parts"), d.evaluate_data_terms(&x) + d.evaluate_param_terms(&t) + d.constant_sum() + d.mixed_terms.iter().map(|m| (m.compute)(&x, &t)).sum::<f64>(), want, 0.0, tol);
                        if w == 2 {
                            ck.close(&format!("{key}|x={x}|{t:?}|twice"), longer.evaluate(&x, &t), 2.0 * want, 0.0, 4.0 * tol);
                        }
                    }
                }
                ck.trace();
            }
        }
    }
}

/// The decomposition of a distribution is a function of the parameters it is given, not of the instance
/// it was taken from.
fn of_distribution<F, Th, D>(ck: &mut Check, all: &[(D, Law<F>, Th)])
where
    F: Fl + Pt,
    Th: Clone,
    D: HasLogDensityDecomposition<F, Th, F>,
{
    let n = all.len();
    for (i, (d, dl, _)) in all.iter().enumerate() {
        let dec = d.log_density_decomposition();
        let copy = dec.clone();
        ck.at(&dl.key, false);
        for (j, (_, l, th)) in all.iter().enumerate() {
            // every ordered pair of the small alphabet, and the diagonal and neighbours of the large one
            if n > 40 && i != j && j != (i + 1) % n && j != 0 {
                continue;
            }
            ck.state();
            let (pg, cg) = (dec.evaluate_param_terms(th), dec.constant_sum());
            for x in l.pts.iter().step_by(if i == j { 1 } else { 7 }) {
                let want = l.at(x);
                let t = (*x).d();
                if !want.is_finite() || want.abs() > 1e30 || t.abs() > 1e15 {
                    ck.outside += 1;
                    continue;
                }
                let tol = l.tol::<F>(x) * 4.0;
                let key = format!("{}|{} at {}|x={x:?}", F::NAME, dl.key, l.key);
                ck.expect(&key, want, F::RTOL * 4.0, tol, || dec.evaluate(x, th).d());
                ck.expect(&format!("{key}|clone"), want, F::RTOL * 4.0, tol, || copy.evaluate(x, th).d());
                ck.expect(&format!("{key}|parts"), want, F::RTOL * 4.0, tol, || {
                    let m: F = dec.mixed_terms.iter().map(|m| (m.compute)(x, th)).sum();
                    (pg + cg + dec.evaluate_data_terms(x) + m).d()
                });
                ck.expect(&format!("{key}|iid x3"), 3.0 * want, F::RTOL * 12.0, 3.0 * tol, || dec.evaluate_iid(&[*x, *x, *x], th).d());
            }
            ck.trace();
        }
    }
}

pub fn c05() {
    let mut ck = Check::new("C05");
    let (depth, depth32) = if ck.thorough() { (6, 5) } else { (5, 4) };
    const PARTS: usize = 41;
    ck.parallel(2 * PARTS, |ck, part| {
        if part % 2 == 0 {
            decompositions::<f64>(ck, depth, part / 2, PARTS);
        } else {
            decompositions::<f32>(ck, depth32, part / 2, PARTS);
        }
        let t = ck.thorough();
        match part {
            0 => long_decompositions::<f64>(ck, t),
            1 => long_decompositions::<f32>(ck, t),
            2 => descriptions_and_sizes(ck),
            _ => (),
        }
    });
    let zs: &[Size] = if ck.thorough() { &[Size::Small, Size::Quick, Size::Full, Size::Deep] } else { &[Size::Small, Size::Quick, Size::Full] };
    // families x precisions x sizes, the large ones first
    ck.parallel(6 * zs.len(), |ck, part| {
        let z = zs[zs.len() - 1 - part / 6];
        macro_rules! dist {
            ($F:ty, $f:ident) => {{
                let v: Vec<_> = fam::$f::<$F>(z).into_iter().map(|(d, l)| { let p = d.params(); (d, l, p) }).collect();
                of_distribution(ck, &v);
            }};
        }
        match part % 6 {
            0 => dist!(f64, normal),
            1 => dist!(f64, cauchy),
            2 => dist!(f64, student_t),
            3 => dist!(f32, normal),
            4 => dist!(f32, cauchy),
            _ => dist!(f32, student_t),
        }
    });
    ck.finish("all sequences of 9 builder calls up to length 5 (thorough 6) through both builders x 3 points x 3 parameters x all samples up to length 3, compared exactly; every number of terms up to 70 (200) of each kind and of mixed kinds; samples of every length up to 70 (300) and around powers of two up to 65537; all sequences of up to 3 of 10 terms of extreme size, zero or negative infinity under the same description; decompositions of Normal, Cauchy and StudentT evaluated at other instances' parameters");
}

// ---------------------------------------------------------------------------------------------- C06

/// A point whose hash always collides: only equality tells the keys apart.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Clash(u32);
impl Hash for Clash {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0);
    }
}
/// A measure on `Clash` with special values: -inf, +0, -0, a NaN-free huge value.
#[derive(Clone)]
struct Table(Vec<f64>);
impl MeasureMarker for Table {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<Clash> for Table {
    type RootMeasure = CountingMeasure<Clash>;
    fn in_support(&self, _: Clash) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<Clash> {
        CountingMeasure::new()
    }
}
impl HasLogDensity<Clash, f64> for Table {
    fn log_density_wrt_root(&self, x: &Clash) -> f64 {
        self.0[x.0 as usize]
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Word(String);
/// A measure on words whose density tells words apart.
#[derive(Clone)]
struct Letters;
impl MeasureMarker for Letters {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<Word> for Letters {
    type RootMeasure = CountingMeasure<Word>;
    fn in_support(&self, _: Word) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<Word> {
        CountingMeasure::new()
    }
}
impl HasLogDensity<Word, f64> for Letters {
    fn log_density_wrt_root(&self, x: &Word) -> f64 {
        let h = x.0.bytes().fold(1u64, |h, b| h.wrapping_mul(1_000_003).wrapping_add(u64::from(b)));
        -((h >> 12) as f64)
    }
}
/// A measure whose density cannot be evaluated at odd points.
#[derive(Clone)]
struct Brittle;
impl MeasureMarker for Brittle {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<u64> for Brittle {
    type RootMeasure = CountingMeasure<u64>;
    fn in_support(&self, _: u64) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<u64> {
        CountingMeasure::new()
    }
}
impl HasLogDensity<u64, f64> for Brittle {
    fn log_density_wrt_root(&self, x: &u64) -> f64 {
        assert!(x % 2 == 0, "no density at {x}");
        -1.5 * (*x as f64) - 0.25
    }
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a == b && a == 0.0)
}

/// Every history over `keys` on a family of caches built by `mk`: call `i` asks cache `h[i] / keys` for
/// key `h[i] % keys`; the answer has to be the uncached one, in every position of every history.
fn histories<F: Fl>(ck: &mut Check, name: &str, caches: usize, truth: &[Vec<F>], depth: usize, mk: &dyn Fn() -> Vec<Box<dyn Fn(usize) -> F>>) {
    let keys = truth[0].len();
    ck.at(name, true);
    for n in 0..=depth {
        for h in sequences(caches * keys, n) {
            // shorter histories are prefixes of longer ones: judge every answer of the longest only
            if n < depth && n > 2 {
                break;
            }
            let cs = mk();
            ck.state();
            for (i, &c) in h.iter().enumerate() {
                let (which, x) = (c / keys, c % keys);
                let got = match mc::quiet(|| cs[which](x)) {
                    Ok(g) => g.d(),
                    Err(p) => {
                        ck.fail(&format!("{name}|{h:?}|{i}"), &format!("panicked: {p}"));
                        continue;
                    }
                };
                let w = truth[which][x].d();
                ck.transitions += 1;
                if !same(got, w) {
                    ck.fail(&format!("{name}|{h:?}|{i}"), &format!("got {got:?}, uncached {w:?}"));
                }
                ck.sample(|| format!("{name} history {h:?}: call {i} -> {got:?}"));
                ck.outcome(&format!("{got:?}"));
            }
            ck.trace();
        }
    }
}

macro_rules! cached {
    ($ck:expr, $depth:expr, $F:ty, $T:ty, $name:expr, [$($m:expr),*], $pts:expr) => {{
        let pts: Vec<$T> = $pts;
        let mut truth: Vec<Vec<$F>> = vec![];
        $( truth.push(pts.iter().map(|x| LogDensityBuilder::<$T>::log_density(&$m).at(x)).collect()); )*
        let n = truth.len();
        let p2 = pts.clone();
        histories::<$F>($ck, $name, n, &truth, $depth, &move || {
            let mut v: Vec<Box<dyn Fn(usize) -> $F>> = vec![];
            $( {
                let c = LogDensityBuilder::<$T>::log_density(&$m).cached_for::<$F>();
                let p = p2.clone();
                v.push(Box::new(move |i| c.at(&p[i])));
            } )*
            v
        });
        let p2 = pts.clone();
        histories::<$F>($ck, &format!("{}|wrt itself and nested", $name), n, &truth, 3, &move || {
            let mut v: Vec<Box<dyn Fn(usize) -> $F>> = vec![];
            $( {
                let m = $m;
                let root = Measure::<$T>::root_measure(&m);
                let c = LogDensityBuilder::<$T>::log_density(&m).wrt(root).cached_for::<$F>().cached_for::<$F>();
                let p = p2.clone();
                v.push(Box::new(move |i| c.at(&p[i])));
            } )*
            v
        });
    }};
}

pub fn c06() {
    let mut ck = Check::new("C06");
    let (d1, d2) = if ck.thorough() { (10, 8) } else { (8, 7) };
    let c = &mut ck;
    cached!(c, d1, f64, Clash, "colliding keys", [Table(vec![-1.5, f64::NEG_INFINITY, 0.0, 1e300])], (0..4).map(Clash).collect());
    cached!(c, d2, f64, Clash, "two caches, colliding keys", [Table(vec![-1.5, 2.0, 7.0]), Table(vec![-4.0, 0.0, f64::NEG_INFINITY])], (0..3).map(Clash).collect());
    cached!(c, d1, f64, u64, "Poisson", [md::Poisson::new(2.5f64)], vec![0, 1, 5, 300]);
    cached!(c, d1, f32, u64, "Poisson f32", [md::Poisson::new(2.5f32)], vec![0, 1, 5, 300]);
    cached!(c, d2, f64, u64, "two Poisson", [md::Poisson::new(2.5f64), md::Poisson::new(0.5f64)], vec![0, 3, 257]);
    cached!(c, d1, f64, u64, "Binomial with points outside", [md::Binomial::new(5, 0.3f64)], vec![0, 5, 6, 4]);
    cached!(c, d1, f64, u64, "Geometric with zero", [md::Geometric::new(0.25f64)], vec![0, 1, 2, 1 << 40]);
    cached!(c, d1, f64, u64, "NegativeBinomial", [md::NegativeBinomial::new(3, 0.4f64)], vec![0, 1, 2, 9]);
    cached!(c, d1, f64, u8, "Bernoulli", [md::Bernoulli::new(0.2f64)], vec![0, 1, 2, 255]);
    cached!(c, d1, f64, usize, "Categorical", [md::Categorical::new(vec![0.2f64, 0.3, 0.5])], vec![0, 1, 2, 1 << 40]);
    // long histories: many distinct keys, then all of them again in both orders
    let n: u64 = if c.thorough() { 4_000_000 } else { 600_000 };
    let m = md::Geometric::new(0.125f64);
    let ld = LogDensityBuilder::<u64>::log_density(&m);
    // consecutive keys, and keys that differ only in their upper, middle or lowest and highest bits
    let spread: [(&str, u64, fn(u64) -> u64); 6] = [
        ("consecutive", n, |i| i),
        ("multiples of 2^16", n / 4, |i| (i + 1) << 16),
        ("multiples of 2^32", n / 4, |i| (i + 1) << 32),
        ("multiples of 2^44", n / 4, |i| (i + 1) << 44),
        ("ends", n / 4, |i| (i << 48) | (i >> 8) | 1),
        ("down from the largest", n / 4, |i| u64::MAX - i),
    ];
    for (name, n, key) in spread {
        let cl = LogDensityBuilder::<u64>::log_density(&m).cached();
        c.state();
        for (round, rev) in [(0, false), (1, false), (2, true)] {
            for i in 0..n {
                let x = key(if rev { n - 1 - i } else { i });
                c.tick(|| format!("long history|{name}|round {round}|x={x}"));
                let (g, w): (f64, f64) = (cl.at(&x), ld.at(&x));
                c.transitions += 1;
                if !same(g, w) {
                    c.fail(&format!("long history|{name}|round {round}|x={x}"), &format!("got {g}, uncached {w}"));
                }
            }
            c.trace();
        }
    }
    // the same with text as keys: many lengths, common prefixes and suffixes
    let keys: Vec<Word> = (0..n as usize / 5)
        .map(|i| Word(match i % 4 {
            0 => format!("{i}"),
            1 => format!("{}{}", "a".repeat(i % 97), i / 97),
            2 => format!("{}{}", i / 97, "b".repeat(i % 97)),
            _ => format!("{:0>60}", i * 7919),
        }))
        .collect();
    let ld = LogDensityBuilder::<Word>::log_density(&Letters);
    let cl = LogDensityBuilder::<Word>::log_density(&Letters).cached();
    for (round, rev) in [(0, false), (1, false), (2, true)] {
        for i in 0..keys.len() {
            let x = &keys[if rev { keys.len() - 1 - i } else { i }];
            c.tick(|| format!("long history|text|round {round}|x={x:?}"));
            let (g, w): (f64, f64) = (cl.at(x), ld.at(x));
            c.transitions += 1;
            if !same(g, w) {
                c.fail(&format!("long history|text|round {round}|x={x:?}"), &format!("got {g}, uncached {w}"));
            }
        }
        c.trace();
    }
    // an evaluation that panics leaves the cache usable: every history of 6 calls over two good and two bad keys
    let ld = LogDensityBuilder::<u64>::log_density(&Brittle);
    for h in sequences(4, 6) {
        let cl = LogDensityBuilder::<u64>::log_density(&Brittle).cached();
        c.state();
        for (i, &k) in h.iter().enumerate() {
            let x = k as u64;
            let got = mc::quiet(|| cl.at(&x));
            let want: Result<f64, String> = mc::quiet(|| ld.at(&x));
            let ok = match (&got, &want) {
                (Ok(g), Ok(w)) => same(*g, *w),
                (Err(_), Err(_)) => true,
                _ => false,
            };
            c.require(&format!("panicking|{h:?}|{i}"), ok, || format!("got {got:?}, uncached {want:?}"));
        }
        c.trace();
    }
    // joint distributions: sequences as keys, permutations and prefixes are different keys
    let iid = IIDExtension::<u64, f64>::iid(md::Poisson::new(2.0f64));
    let keys: Vec<Vec<u64>> = (0..=3).flat_map(|n| sequences(3, n).map(|s| s.iter().map(|&i| i as u64).collect())).collect();
    let ld = LogDensityBuilder::<Vec<u64>>::log_density(&iid);
    let cl = LogDensityBuilder::<Vec<u64>>::log_density(&iid).cached();
    for a in &keys {
        for b in &keys {
            for x in [a, b, a] {
                let (g, w): (f64, f64) = (cl.at(x), ld.at(x));
                c.require(&format!("IID|{a:?} then {b:?}|{x:?}"), same(g, w), || format!("got {g}, uncached {w}"));
            }
            c.trace();
        }
    }
    c.state();
    ck.assume("a cached log-density is not Clone and not Sync: independence is checked between separately built caches on one thread");
    ck.finish("all call histories of length 8 (thorough 9) over 4 keys on one cache and of length 8 (9) over 3 keys on two caches, 10 measures, colliding hashes, f32 and f64; 600000 (4*10^6) keys of six bit patterns and 120000 (800000) words, each asked for three times; histories of 6 calls some of which panic");
}
