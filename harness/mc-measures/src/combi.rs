//! C08 and C09: every nesting of the combinators up to a depth, by wrapping any measure of the real
//! library in `Dyn`, so that the real combinator types can be stacked at run time.

use crate::fam::{self, Fl, NEG, Size};
use mc::{Check, quiet, sequences};
use measures_combinators::measures::combinators::product::{ProductMeasure, ProductMeasureExt};
use measures_combinators::measures::combinators::pushforward::{PushforwardExt, PushforwardMeasure, transforms};
use measures_combinators::measures::combinators::superposition::{MixtureExt, MixtureMeasure};
use measures_combinators::measures::derived::integral::IntegralMeasure;
use measures_combinators::measures::derived::weighted::WeightedMeasure;
use measures_combinators::measures::derived::{Dirac, FactorialMeasure};
use measures_combinators::{CountingMeasure, LebesgueMeasure, mixture, product_measure};
use measures_core::{False, HasLogDensity, LogDensityBuilder, Measure, MeasureMarker};
use measures_distributions as md;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

/// A measure of the library with its type erased; what it computes is entirely the library's code.
pub struct Dyn<X, R> {
    dens: Rc<dyn Fn(&X) -> f64>,
    supp: Rc<dyn Fn(X) -> bool>,
    root: PhantomData<R>,
}
impl<X, R> Clone for Dyn<X, R> {
    fn clone(&self) -> Self {
        Dyn { dens: self.dens.clone(), supp: self.supp.clone(), root: PhantomData }
    }
}
impl<X, R> MeasureMarker for Dyn<X, R> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<X, R: Measure<X> + Default> Measure<X> for Dyn<X, R> {
    type RootMeasure = R;
    fn in_support(&self, x: X) -> bool {
        (self.supp)(x)
    }
    fn root_measure(&self) -> R {
        R::default()
    }
}
impl<X, R> HasLogDensity<X, f64> for Dyn<X, R> {
    fn log_density_wrt_root(&self, x: &X) -> f64 {
        (self.dens)(x)
    }
}
fn erase<X: 'static, R, M: Measure<X> + HasLogDensity<X, f64> + 'static>(m: M) -> Dyn<X, R> {
    let m = Rc::new(m);
    let n = m.clone();
    Dyn { dens: Rc::new(move |x| m.log_density_wrt_root(x)), supp: Rc::new(move |x| n.in_support(x)), root: PhantomData }
}

/// The reference: log density and the size of the terms it was formed from, and the support.
struct Node<X, R> {
    key: String,
    depth: usize,
    d: Dyn<X, R>,
    val: Rc<dyn Fn(&X) -> (f64, f64)>,
    sup: Rc<dyn Fn(&X) -> bool>,
}
impl<X, R> Clone for Node<X, R> {
    fn clone(&self) -> Self {
        Node { key: self.key.clone(), depth: self.depth, d: self.d.clone(), val: self.val.clone(), sup: self.sup.clone() }
    }
}

fn leaf<X: Clone + 'static, R: 'static, M: Measure<X> + HasLogDensity<X, f64> + 'static>(key: &str, m: M) -> Node<X, R> {
    let d: Dyn<X, R> = erase(m);
    let (a, b) = (d.dens.clone(), d.supp.clone());
    Node {
        key: key.into(),
        depth: 0,
        d,
        val: Rc::new(move |x| {
            let v = a(x);
            (v, if v.is_finite() { v.abs() } else { 0.0 })
        }),
        sup: Rc::new(move |x| b(x.clone())),
    }
}

fn lse(t: &[(f64, f64)]) -> (f64, f64) {
    let m = t.iter().map(|x| x.0).fold(NEG, f64::max);
    if m == NEG {
        return (NEG, 0.0);
    }
    let s: f64 = t.iter().map(|x| (x.0 - m).exp()).sum();
    // only the terms that count carry their rounding into the result
    let scale = t.iter().filter(|x| x.0 > m - 40.0).map(|x| x.1).fold(0.0, f64::max);
    (m + s.ln(), scale + m.abs())
}

fn weighted<X: Clone + 'static, R: Measure<X> + Default + 'static>(a: &Node<X, R>, w: f64) -> Node<X, R> {
    let (v, s) = (a.val.clone(), a.sup.clone());
    Node {
        key: format!("weighted({w},{})", a.key),
        depth: a.depth + 1,
        d: erase(WeightedMeasure::<Dyn<X, R>, f64, X>::new(a.d.clone(), w)),
        val: Rc::new(move |x| {
            let (y, c) = v(x);
            (y + w, c + w.abs())
        }),
        sup: s,
    }
}

fn integral<X: Clone + 'static, R: Measure<X> + Default + 'static>(a: &Node<X, R>, name: &str, g: fn(&X) -> f64) -> Node<X, R> {
    let (v, s) = (a.val.clone(), a.sup.clone());
    Node {
        key: format!("integral({name},{})", a.key),
        depth: a.depth + 1,
        d: erase(IntegralMeasure::<Dyn<X, R>, fn(&X) -> f64, X>::new(a.d.clone(), g)),
        val: Rc::new(move |x| {
            let (y, c) = v(x);
            (y + g(x), c + g(x).abs())
        }),
        sup: s,
    }
}

fn mix<X: Clone + 'static, R: Measure<X> + Default + 'static>(ns: &[Node<X, R>], ws: &[f64], how: &str) -> Node<X, R> {
    let ds: Vec<Dyn<X, R>> = ns.iter().map(|n| n.d.clone()).collect();
    let key = format!("{how}({})", ns.iter().zip(ws).map(|(n, w)| format!("{w}*{}", n.key)).collect::<Vec<_>>().join(" + "));
    let m: MixtureMeasure<Dyn<X, R>, f64> = match how {
        "uniform" => MixtureMeasure::uniform(ds),
        "uniform_mixture" => ds[0].clone().uniform_mixture(ds[1].clone()),
        // normalises
        "ext" => MixtureExt::<X>::mixture(ds[0].clone(), ds[1].clone(), ws[0] * 6.0, ws[1] * 6.0),
        "macro" => match ds.len() {
            2 => mixture![(ws[0], ds[0].clone()), (ws[1], ds[1].clone())],
            _ => mixture![(ws[0], ds[0].clone()), (ws[1], ds[1].clone()), (ws[2], ds[2].clone())],
        },
        "macro uniform" => match ds.len() {
            2 => mixture![uniform: ds[0].clone(), ds[1].clone()],
            _ => mixture![uniform: ds[0].clone(), ds[1].clone(), ds[2].clone()],
        },
        _ => MixtureMeasure::new(ds, ws.to_vec()),
    };
    let vs: Vec<_> = ns.iter().map(|n| n.val.clone()).collect();
    let ss: Vec<_> = ns.iter().map(|n| n.sup.clone()).collect();
    let (w1, w2) = (ws.to_vec(), ws.to_vec());
    Node {
        key,
        depth: 1 + ns.iter().map(|n| n.depth).max().unwrap_or(0),
        d: erase(m),
        val: Rc::new(move |x| {
            let t: Vec<(f64, f64)> = vs
                .iter()
                .zip(&w1)
                .map(|(v, w)| {
                    let (y, c) = v(x);
                    (y + w.ln(), c + if *w > 0.0 { w.ln().abs() } else { 0.0 })
                })
                .collect();
            lse(&t)
        }),
        sup: Rc::new(move |x| ss.iter().zip(&w2).any(|(s, w)| *w > 0.0 && s(x))),
    }
}

fn product<X: Clone + 'static, Y: Clone + 'static, R, S>(a: &Node<X, R>, b: &Node<Y, S>, how: &str) -> Node<(X, Y), CountingMeasure<(X, Y)>>
where
    R: Measure<X> + Default + 'static,
    S: Measure<Y> + Default + 'static,
{
    let d = match how {
        "ext" => erase(ProductMeasureExt::<X>::product::<_, Y>(a.d.clone(), b.d.clone())),
        "macro" => erase(product_measure!(a.d.clone(), b.d.clone())),
        _ => erase(ProductMeasure::new(a.d.clone(), b.d.clone())),
    };
    let (v, w) = (a.val.clone(), b.val.clone());
    let (s, t) = (a.sup.clone(), b.sup.clone());
    Node {
        key: format!("product({},{})", a.key, b.key),
        depth: 1 + a.depth.max(b.depth),
        d,
        val: Rc::new(move |x| {
            let (p, c) = v(&x.0);
            let (q, e) = w(&x.1);
            (p + q, c + e)
        }),
        sup: Rc::new(move |x| s(&x.0) && t(&x.1)),
    }
}

/// Every worker walks the same enumeration and judges every PARTS-th program of it.
struct Turn {
    part: usize,
    next: usize,
}
const PARTS: usize = 32;
impl Turn {
    fn mine(&mut self) -> bool {
        self.next += 1;
        self.next % PARTS == self.part
    }
}

fn judge<X, R>(ck: &mut Check, tn: &mut Turn, pts: &[X], n: impl FnOnce() -> Node<X, R>)
where
    X: Clone + Debug,
    R: Measure<X> + Default + HasLogDensity<X, f64, >,
    (False, R::IsExponentialFamily): measures_core::core::density::ExpFamDispatch<X, Dyn<X, R>, R, f64>,
{
    if tn.mine() {
        judge_one(ck, &n(), pts);
    }
}

fn judge_one<X, R>(ck: &mut Check, n: &Node<X, R>, pts: &[X])
where
    X: Clone + Debug,
    R: Measure<X> + Default + HasLogDensity<X, f64, >,
    (False, R::IsExponentialFamily): measures_core::core::density::ExpFamDispatch<X, Dyn<X, R>, R, f64>,
{
    ck.state();
    ck.trace();
    for x in pts {
        let (want, c) = (n.val)(x);
        if want.is_nan() {
            ck.outside += 1;
            continue;
        }
        let key = format!("{}|x={x:?}", n.key);
        ck.at(&key, false);
        let tol = 1e-12 * (1.0 + c);
        ck.expect(&key, want, 1e-12, tol, || n.d.log_density_wrt_root(x));
        ck.expect(&format!("{key}|builder"), want, 1e-12, tol, || n.d.log_density().at::<f64>(x));
        let s = (n.sup)(x);
        match quiet(|| n.d.in_support(x.clone())) {
            Ok(g) => {
                ck.require(&format!("{key}|in_support"), g == s, || format!("got {g}, expected {s}"));
            }
            Err(p) => ck.fail(&format!("{key}|in_support"), &p),
        }
    }
}

type L<X> = LebesgueMeasure<X>;

fn unary<X: Clone + 'static, R: Measure<X> + Default + 'static>(a: &Node<X, R>, gs: &[(&'static str, fn(&X) -> f64)], ws: &[f64]) -> Vec<Node<X, R>> {
    let mut v: Vec<Node<X, R>> = ws.iter().map(|&w| weighted(a, w)).collect();
    for (k, g) in gs {
        v.push(integral(a, k, *g));
    }
    v.push(mix(std::slice::from_ref(a), &[1.0], "new"));
    v
}

const PAIR_WEIGHTS: [(f64, f64, &str); 11] = [(0.5, 0.5, "uniform"), (0.5, 0.5, "uniform_mixture"), (0.25, 0.75, "new"), (0.75, 0.25, "ext"), (1.0, 0.0, "new"), (0.0, 1.0, "macro"), (1e-9, 1.0 - 1e-9, "new"), (0.5, 0.5, "macro uniform"), (1e-14, 1.0 - 1e-14, "macro"), (1.0, 1e-300, "new"), (5e-324, 1.0, "new")];

/// All nestings over one space; returns level one for reuse.
fn nestings<X, R>(ck: &mut Check, tn: &mut Turn, leaves: &[Node<X, R>], gs: &[(&'static str, fn(&X) -> f64)], pts: &[X], thorough: bool) -> Vec<Node<X, R>>
where
    X: Clone + Debug + 'static,
    R: Measure<X> + Default + HasLogDensity<X, f64> + 'static,
    (False, R::IsExponentialFamily): measures_core::core::density::ExpFamDispatch<X, Dyn<X, R>, R, f64>,
{
    let ws = [0.0, 0.7, -3.0, 750.0, -1e6];
    let mut one: Vec<Node<X, R>> = vec![];
    for a in leaves {
        one.extend(unary(a, gs, &ws));
        for b in leaves {
            for (p, q, how) in PAIR_WEIGHTS {
                one.push(mix(&[a.clone(), b.clone()], &[p, q], how));
            }
            for c in leaves {
                one.push(mix(&[a.clone(), b.clone(), c.clone()], &[0.125, 0.5, 0.375], "new"));
                one.push(mix(&[a.clone(), b.clone(), c.clone()], &[0.0, 0.25, 0.75], "macro"));
                one.push(mix(&[a.clone(), b.clone(), c.clone()], &[1.0 / 3.0; 3], "macro uniform"));
            }
        }
    }
    for n in leaves.iter().chain(&one) {
        judge(ck, tn, pts, || n.clone());
    }
    // depth two: every unary operation on, and every mixture of, depth-one measures
    let mut two: Vec<Node<X, R>> = vec![];
    for a in &one {
        for u in unary(a, gs, &ws) {
            judge(ck, tn, pts, || u.clone());
            two.push(u);
        }
    }
    for a in &one {
        for b in &one {
            for (p, q, how) in PAIR_WEIGHTS {
                judge(ck, tn, pts, || mix(&[a.clone(), b.clone()], &[p, q], how));
            }
        }
    }
    {
        for a in &two {
            for u in unary(a, gs, &ws) {
                judge(ck, tn, pts, || u.clone());
                for v in unary(&u, gs, &ws[1..3]) {
                    judge(ck, tn, pts, || v.clone());
                }
            }
            for b in leaves {
                judge(ck, tn, pts, || mix(&[a.clone(), b.clone()], &[0.25, 0.75], "new"));
                judge(ck, tn, pts, || mix(&[b.clone(), a.clone()], &[0.25, 0.75], "ext"));
            }
        }
    }
    if thorough {
        // mixtures of a depth-two with a depth-one measure, either way round
        for (i, a) in two.iter().enumerate() {
            for (j, b) in one.iter().enumerate() {
                let (p, q, how) = PAIR_WEIGHTS[(i * 7 + j) % PAIR_WEIGHTS.len()];
                judge(ck, tn, pts, || if (i + j) % 2 == 0 { mix(&[a.clone(), b.clone()], &[p, q], how) } else { mix(&[b.clone(), a.clone()], &[p, q], how) });
            }
        }
    }
    one
}

pub fn c08() {
    let mut ck = Check::new("C08");
    let t = ck.thorough();
    ck.parallel(PARTS, |ck, part| {
        programs(ck, &mut Turn { part, next: 0 }, t);
        if part == 0 {
            many(ck, t);
            singles_and_masses(ck);
        }
    });
    ck.assume("component log-densities are taken from the components themselves (they are judged by C02)");
    ck.finish("all combinator nestings of depth 1, all unary and all weighted mixture nestings of depth 2, all unary nestings to depth 4 and mixtures of a depth-2 measure with a component (thorough: with every depth-1 measure), over 4 (5) continuous and 4 (5) discrete components; products of all depth-0 and depth-1 measures; mixtures of up to 60 (200) components");
}

fn programs(ck: &mut Check, tn: &mut Turn, t: bool) {
    let mut leaves: Vec<Node<f64, L<f64>>> = vec![
        leaf("Normal(0,1)", md::Normal::<f64>::new(0.0, 1.0)),
        leaf("Exponential(2)", md::Exponential::<f64>::new(2.0)),
        leaf("Beta(2,3)", md::Beta::<f64>::new(2.0, 3.0)),
        leaf("Lebesgue", LebesgueMeasure::<f64>::new()),
    ];
    if t {
        leaves.push(leaf("StudentT(1.5)", md::StudentT::<f64>::new(1.5)));
    }
    fn g1(x: &f64) -> f64 {
        0.5 * x - 1.0
    }
    fn g2(x: &f64) -> f64 {
        -x * x
    }
    let gs: [(&'static str, fn(&f64) -> f64); 2] = [("x/2-1", g1), ("-x^2", g2)];
    let pts = [0.5, 0.01, 1.0, 3.0, -1.0, 0.0, 40.0, -38.5, 2e4, -3e5];
    let reals = nestings(ck, tn, &leaves, &gs, &pts, t);

    let mut cl: Vec<Node<u64, CountingMeasure<u64>>> = vec![
        leaf("Poisson(2.5)", md::Poisson::<f64>::new(2.5)),
        leaf("Binomial(3,0.25)", md::Binomial::<f64>::new(3, 0.25)),
        leaf("Geometric(0.5)", md::Geometric::<f64>::new(0.5)),
        leaf("Factorial", FactorialMeasure::<f64>::new()),
    ];
    if t {
        cl.push(leaf("NegativeBinomial(3,0.4)", md::NegativeBinomial::<f64>::new(3, 0.4)));
    }
    fn h1(k: &u64) -> f64 {
        (*k as f64).sqrt()
    }
    let hs: [(&'static str, fn(&u64) -> f64); 1] = [("sqrt k", h1)];
    let ks = [0u64, 1, 2, 3, 4, 21, 200];
    let counts = nestings(ck, tn, &cl, &hs, &ks, t);

    // products, and combinators on top of products
    let mut pp = vec![];
    for x in [0.5, -1.0, 2e4, 1.0] {
        for k in [0u64, 2, 4, 60] {
            pp.push((x, k));
        }
    }
    let stride = 1;
    let mut prods = vec![];
    for (i, a) in leaves.iter().chain(reals.iter().step_by(stride)).enumerate() {
        for (j, b) in cl.iter().chain(counts.iter().step_by(stride)).enumerate() {
            let how = ["new", "ext", "macro"][(i + j) % 3];
            let n = product(a, b, how);
            judge(ck, tn, &pp, || n.clone());
            if i < 6 && j < 6 {
                prods.push(n);
            }
        }
    }
    fn pg(x: &(f64, u64)) -> f64 {
        x.0 - x.1 as f64
    }
    for a in &prods {
        for u in unary(a, &[("x-k", pg)], &[0.7, -3.0]) {
            judge(ck, tn, &pp, || u.clone());
        }
        for b in &prods {
            judge(ck, tn, &pp, || mix(&[a.clone(), b.clone()], &[0.25, 0.75], "new"));
            judge(ck, tn, &pp, || mix(&[a.clone(), b.clone()], &[0.5, 0.5], "uniform"));
        }
    }
    if tn.part == 1 {
        triples(ck, &leaves, &cl);
    }
}

/// Triple and quadruple products, both nestings.
fn triples(ck: &mut Check, leaves: &[Node<f64, L<f64>>], cl: &[Node<u64, CountingMeasure<u64>>]) {
    let tri: Vec<(f64, (u64, f64))> = [0.5, -1.0, 7.0].iter().flat_map(|&x| [0u64, 3, 9].iter().flat_map(move |&k| [0.25, -2.0].iter().map(move |&y| (x, (k, y))))).collect();
    let tri2: Vec<((f64, u64), f64)> = tri.iter().map(|&(x, (k, y))| ((x, k), y)).collect();
    for a in leaves {
        for b in cl {
            for c in leaves {
                judge_one(ck, &product(a, &product(b, c, "new"), "ext"), &tri);
                judge_one(ck, &product(&product(a, b, "macro"), c, "new"), &tri2);
                let m = product_measure!(a.d.clone(), b.d.clone(), c.d.clone());
                for p in &tri {
                    let want = (a.val)(&p.0).0 + (b.val)(&p.1.0).0 + (c.val)(&p.1.1).0;
                    ck.expect(&format!("product_measure!({},{},{})|{p:?}", a.key, b.key, c.key), want, 1e-12, 1e-12, || m.log_density_wrt_root(p));
                    let s = (a.sup)(&p.0) && (b.sup)(&p.1.0) && (c.sup)(&p.1.1);
                    ck.require(&format!("product_measure!({},{},{})|{p:?}|in_support", a.key, b.key, c.key), m.in_support(*p) == s, || format!("expected {s}"));
                }
                let m = product_measure!(a.d.clone(), b.d.clone(), c.d.clone(), b.d.clone());
                for p in &tri {
                    let q = (p.0, (p.1.0, (p.1.1, 2u64)));
                    let want = (a.val)(&p.0).0 + (b.val)(&p.1.0).0 + (c.val)(&p.1.1).0 + (b.val)(&2).0;
                    ck.expect(&format!("product_measure!({},{},{},{})|{q:?}", a.key, b.key, c.key, b.key), want, 1e-12, 1e-12, || m.log_density_wrt_root(&q));
                }
            }
        }
    }
}

/// Mixtures of many components.
fn many(ck: &mut Check, t: bool) {
    // many components: every size up to a bound, equal and geometric weights, far separated
    for n in 1..=if t { 200 } else { 60 } {
        let cs: Vec<md::Normal<f64>> = (0..n).map(|i| md::Normal::new(f64::from(i) * 3.0, 0.5 + f64::from(i % 3))).collect();
        let m = MixtureMeasure::<_, f64>::uniform(cs.clone());
        let raw: Vec<f64> = (0..n).map(|i| f64::from(i % 7) + 1.0).collect();
        let tot: f64 = raw.iter().sum();
        let ws: Vec<f64> = raw.iter().map(|w| w / tot).collect();
        let m2 = MixtureMeasure::new(cs.clone(), ws.clone());
        ck.state();
        for x in [0.0, 1.7, 30.0, -50.0, 1e4] {
            let t1: Vec<(f64, f64)> = cs.iter().map(|c| (HasLogDensity::<f64, f64>::log_density_wrt_root(c, &x) - f64::from(n).ln(), 1.0)).collect();
            let t2: Vec<(f64, f64)> = cs.iter().zip(&ws).map(|(c, w)| (HasLogDensity::<f64, f64>::log_density_wrt_root(c, &x) + w.ln(), 1.0)).collect();
            ck.expect(&format!("uniform mixture of {n} normals|x={x}"), lse(&t1).0, 1e-12, 1e-11, || m.log_density_wrt_root(&x));
            ck.expect(&format!("mixture of {n} normals|x={x}"), lse(&t2).0, 1e-12, 1e-11, || m2.log_density_wrt_root(&x));
        }
        ck.require(&format!("mixture of {n}|num_components"), m.num_components() == n as usize, || m.num_components().to_string());
    }
}

fn singles_and_masses(ck: &mut Check) {
    // single precision
    for (w, v) in [(0.25f32, 0.75f32), (0.5, 0.5), (1.0, 0.0), (0.1, 0.9), (0.3, 0.7)] {
        let a = md::Normal::<f32>::new(0.0, 1.0);
        let b = md::Normal::<f32>::new(2.0, 0.5);
        ck.state();
        let Ok(m) = quiet(|| MixtureMeasure::new(vec![a.clone(), b.clone()], vec![w, v])) else {
            ck.fail(&format!("f32 mixture {w} {v}"), "refused");
            continue;
        };
        let wt = WeightedMeasure::<_, f32, f32>::new(m.clone(), -1.5f32);
        let pr = ProductMeasure::new(wt.clone(), b.clone());
        for x in [0.5f32, -3.0, 2.0, 30.0, 150.0] {
            let (p, q): (f32, f32) = (a.log_density_wrt_root(&x), b.log_density_wrt_root(&x));
            let want = lse(&[(p.d() + w.d().ln(), 1.0), (q.d() + v.d().ln(), 1.0)]).0;
            let tol = 4e-6 * (1.0 + p.d().abs().min(q.d().abs()) + want.abs());
            ck.expect(&format!("f32 mixture {w} {v}|x={x}"), want, 0.0, tol, || { let r: f32 = m.log_density_wrt_root(&x); r.d() });
            ck.expect(&format!("f32 weighted mixture {w} {v}|x={x}"), want - 1.5, 0.0, tol, || { let r: f32 = wt.log_density_wrt_root(&x); r.d() });
            ck.expect(&format!("f32 product {w} {v}|x={x}"), want - 1.5 + q.d(), 0.0, tol + q.d().abs() * 1e-6, || { let r: f32 = pr.log_density_wrt_root(&(x, x)); r.d() });
        }
    }
    // point masses
    for p in 0u64..40 {
        let d = Dirac::new(p);
        ck.state();
        for x in 0u64..40 {
            ck.require(&format!("Dirac({p})|x={x}"), d.in_support(x) == (x == p), || "wrong support".into());
        }
    }
    let fs = [0.0, -0.0, 1.0, 1.0 + f64::EPSILON, -1.0, f64::MIN_POSITIVE, f64::MAX, f64::INFINITY];
    for p in fs {
        let d = Dirac::new(p);
        for x in fs {
            ck.require(&format!("Dirac({p:?})|x={x:?}"), d.in_support(x) == (x == p), || "wrong support".into());
        }
    }
}

// ---------------------------------------------------------------------------------------------- C09

#[derive(Clone, Copy, PartialEq)]
enum Tr {
    Exp,
    Log,
    Lin(f64, f64),
    Logit,
    Cube,
    Neg,
}
impl Tr {
    fn name(self) -> String {
        match self {
            Tr::Exp => "exp".into(),
            Tr::Log => "log".into(),
            Tr::Lin(a, b) => format!("linear({a},{b})"),
            Tr::Logit => "logit".into(),
            Tr::Cube => "cube".into(),
            Tr::Neg => "neg".into(),
        }
    }
    /// the preimage, if there is one
    fn back(self, y: f64) -> Option<f64> {
        match self {
            Tr::Exp => (y > 0.0).then(|| y.ln()),
            Tr::Log => Some(y.exp()),
            Tr::Lin(a, b) => Some((y - b) / a),
            Tr::Logit => Some(if y >= 0.0 { 1.0 / (1.0 + (-y).exp()) } else { y.exp() / (1.0 + y.exp()) }),
            Tr::Cube => Some(y.cbrt()),
            Tr::Neg => Some(-y),
        }
    }
    fn log_jac(self, y: f64) -> f64 {
        match self {
            Tr::Exp => -y.ln(),
            Tr::Log => y,
            Tr::Lin(a, _) => -a.abs().ln(),
            Tr::Logit => -y.abs() - 2.0 * (-y.abs()).exp().ln_1p(),
            Tr::Cube => -(3.0 * y.cbrt() * y.cbrt()).ln(),
            Tr::Neg => 0.0,
        }
    }
    fn apply(self, d: &Dyn<f64, L<f64>>, ext: bool) -> Dyn<f64, L<f64>> {
        macro_rules! go {
            ($t:expr) => {{
                let (f, i, j) = $t;
                if ext { erase(PushforwardExt::<f64>::pushforward(d.clone(), f, i, j)) } else { erase(PushforwardMeasure::new(d.clone(), f, i, j)) }
            }};
        }
        match self {
            Tr::Exp => go!(transforms::exp_transform::<f64>()),
            Tr::Log => go!(transforms::log_transform::<f64>()),
            Tr::Lin(a, b) => go!(transforms::linear_transform::<f64>(a, b)),
            Tr::Logit => go!(transforms::logit_transform::<f64>()),
            Tr::Cube => go!((|x: &f64| x * x * x, |y: &f64| y.cbrt(), |y: &f64| -(3.0 * y.cbrt() * y.cbrt()).ln())),
            Tr::Neg => go!((|x: &f64| -x, |y: &f64| -y, |_y: &f64| 0.0)),
        }
    }
}

/// Density of the transported measure by the rule, with an estimate of how far rounding of the preimages
/// can move it. None: too ill-conditioned to judge.
fn transported(base: &Node<f64, L<f64>>, chain: &[Tr], y: f64) -> Option<(f64, f64, bool)> {
    let mut x = y;
    let mut jac = 0.0;
    let mut size = 0.0;
    let mut rel = 1e-16; // relative error of x
    for t in chain.iter().rev() {
        let prev = x;
        match t.back(prev) {
            None => return Some((NEG, 0.0, false)),
            Some(b) => {
                let j = t.log_jac(prev);
                // error propagation through the inverse: |dx| = |inv'(y)| |dy|
                let abs = j.exp() * prev.abs() * rel;
                let jac_err = ((t.log_jac(prev * (1.0 + 4.0 * rel)) - j).abs()).min(1e300);
                if t.back(prev * (1.0 - 4.0 * rel)).is_none() || !jac_err.is_finite() {
                    if !j.is_finite() { return None; }
                }
                jac += j;
                size += j.abs() + jac_err * 1e12;
                x = b;
                rel = if x == 0.0 { return None } else { abs / x.abs() + 2e-16 };
                if let Tr::Lin(_, o) = t {
                    rel += 4e-16 * o.abs() / (prev - o).abs().max(1e-300);
                }
                if !x.is_finite() || !jac.is_finite() || x.abs() > 1e300 || x.abs() < 1e-300 || rel > 1e-6 {
                    return None;
                }
            }
        }
    }
    let (v, _) = (base.val)(&x);
    let mut spread = 0.0f64;
    for e in [-1.0, 1.0, 4.0, -4.0] {
        let (w, _) = (base.val)(&(x * (1.0 + e * rel.max(1e-15))));
        if (w == NEG) != (v == NEG) {
            return None;
        }
        if v.is_finite() {
            spread = spread.max((w - v).abs());
        }
    }
    if v.is_nan() || v == f64::INFINITY {
        return None;
    }
    let s = (base.sup)(&x);
    if v == NEG {
        return Some((NEG, 0.0, s));
    }
    let tol = 1e-12 * (1.0 + v.abs() + size) + 8.0 * spread;
    if tol > 1e-3 * (1.0 + (v + jac).abs()) {
        return None;
    }
    Some((v + jac, tol, s))
}

fn transform_pairs<F: Fl>(ck: &mut Check) {
    macro_rules! one {
        ($name:expr, $t:expr, $xs:expr, $jac:expr) => {{
            let (f, i, j) = $t;
            ck.state();
            for x in $xs {
                let x = F::of(x);
                let key = format!("{}|{}|x={x:?}", F::NAME, $name);
                let y = f(&x);
                let back = i(&y);
                if !y.is_finite() {
                    ck.outside += 1;
                    continue;
                }
                // rounding of y moves the preimage by its derivative
                let jac: fn(f64) -> f64 = $jac;
                let want = jac(y.d());
                let slack = F::epsilon().d() * 8.0 * (x.d().abs() + (want.exp() * y.d().abs()) + 1e-30);
                ck.close(&format!("{key}|there and back"), back.d(), x.d(), 0.0, slack);
                let tol = F::epsilon().d() * 16.0 * (1.0 + want.abs());
                ck.close(&format!("{key}|log derivative"), j(&y).d(), want, 0.0, tol);
                ck.trace();
            }
        }};
    }
    let pos: Vec<f64> = fam::positives(Size::Full);
    let all: Vec<f64> = fam::reals(Size::Full).into_iter().filter(|x| x.abs() < 80.0).collect();
    one!("log", transforms::log_transform::<F>(), pos.clone(), |y| y);
    one!("exp", transforms::exp_transform::<F>(), all.clone(), |y| -y.ln());
    one!("logit", transforms::logit_transform::<F>(), fam::units(Size::Full), |y| -y.abs() - 2.0 * (-y.abs()).exp().ln_1p());
    macro_rules! lin {
        ($a:expr, $b:expr) => {
            {
                let (f, i, j) = transforms::linear_transform::<F>(F::of($a), F::of($b));
                for &x in &all {
                    let x = F::of(x);
                    let key = format!("{}|linear({},{})|x={x:?}", F::NAME, $a, $b);
                    let y = f(&x);
                    let want: f64 = F::of($a).d() * x.d() + F::of($b).d();
                    let e = F::epsilon().d() * 8.0;
                    ck.close(&format!("{key}|forward"), y.d(), want, 0.0, e * (($a as f64 * x.d()).abs() + ($b as f64).abs()));
                    ck.close(&format!("{key}|there and back"), i(&y).d(), x.d(), 0.0, e * (x.d().abs() + ($b as f64 / $a as f64).abs()));
                    ck.close(&format!("{key}|log derivative"), j(&y).d(), -F::of($a).d().abs().ln(), 0.0, e * (1.0 + ($a as f64).abs().ln().abs()));
                }
                ck.trace();
            }
        };
    }
    for a in [1.0, -1.0, 2.0, -0.5, 0.001, 300.0, -7.25] {
        for b in [0.0, 1.0, -3.5, 1000.0] {
            lin!(a, b);
        }
    }
    // slopes over the whole exponent range of the type, exact throughout
    let (least, most) = if F::NAME == "f32" { (-149, 127) } else { (-1074, 1023) };
    for k in least..=most {
        for sign in [1.0, -1.0] {
            let a = F::of(sign * 2f64.powi(k));
            let (f, i, j) = transforms::linear_transform::<F>(a, F::zero());
            ck.state();
            for x in [1.0, -1.0, 0.5, 2.0, 3.0, -5.0, 0.0] {
                let y = F::of(sign * 2f64.powi(k) * x);
                if !y.is_finite() || (y.d() / 2f64.powi(k) * sign != x) {
                    ck.outside += 1;
                    continue;
                }
                let key = format!("{}|linear({a:?},0)|x={x:?}", F::NAME);
                ck.close(&format!("{key}|forward"), f(&F::of(x)).d(), y.d(), 0.0, y.d().abs() * F::epsilon().d() * 4.0);
                ck.close(&format!("{key}|there and back"), i(&y).d(), x, 0.0, F::epsilon().d() * 8.0 * x.abs());
                ck.close(&format!("{key}|log derivative"), j(&y).d(), -f64::from(k) * std::f64::consts::LN_2, 0.0, F::epsilon().d() * 8.0 * (1.0 + f64::from(k).abs()));
            }
            ck.trace();
        }
    }
    // far ends of the logistic function
    let (_, i, j) = transforms::logit_transform::<F>();
    for k in -400..=400 {
        let y = F::of(f64::from(k) * if F::NAME == "f32" { 0.2 } else { 1.75 });
        let key = format!("{}|logit end|y={y:?}", F::NAME);
        let s = Tr::Logit.back(y.d()).unwrap();
        ck.close(&format!("{key}|inverse"), i(&y).d(), s, F::epsilon().d() * 8.0 * (1.0 + y.d().abs()), 1e-300);
        ck.close(&format!("{key}|log derivative"), j(&y).d(), Tr::Logit.log_jac(y.d()), F::epsilon().d() * 8.0, F::epsilon().d() * 8.0);
    }
}

pub fn c09() {
    let mut ck = Check::new("C09");
    let depth = if ck.thorough() { 7 } else { 6 };
    ck.parallel(8 * 8 + 1, |ck, part| transports(ck, part, depth));
    ck.assume("base log-densities are taken from the base measures themselves (judged by C02); points where rounding of the preimage decides the value are counted as outside");
    ck.finish("all chains of up to 6 (thorough: 7) transformations out of 8 over 8 base measures x 29 points (chains of up to 3: 22 more at the ends of the type); transform identities in f32 and f64 on a fine grid; every power of two of the type as slope");
}

/// Points at the ends of the type and just below one, for short chains.
const FAR: [f64; 22] = [
    5e-324, 1e-310, 2.2250738585072014e-308, 1e-300, 1e-200, 1e-100, 1e-30, 1e30, 1e100, 1e200, 1e300, f64::MAX, 700.0, 709.7, 1.0 - f64::EPSILON / 2.0, 1.0 - 1e-12, 1.0 + f64::EPSILON, -700.0, -740.0, -1e-310, -1e100, -1e300,
];

fn transports(ck: &mut Check, part: usize, depth: usize) {
    let bases: Vec<Node<f64, L<f64>>> = vec![
        leaf("Normal(0.25,1.5)", md::Normal::<f64>::new(0.25, 1.5)),
        leaf("Exponential(2)", md::Exponential::<f64>::new(2.0)),
        leaf("Beta(2,3)", md::Beta::<f64>::new(2.0, 3.0)),
        leaf("Gamma(2.5,0.5)", md::Gamma::<f64>::new(2.5, 0.5)),
        leaf("Cauchy(1,2)", md::Cauchy::<f64>::new(1.0, 2.0)),
        leaf("Lebesgue", LebesgueMeasure::<f64>::new()),
        weighted(&leaf("StudentT(3)", md::StudentT::<f64>::new(3.0)), -0.5),
        mix(&[leaf("Normal(-3,1)", md::Normal::<f64>::new(-3.0, 1.0)), leaf("Gamma(2,3)", md::Gamma::<f64>::new(2.0, 3.0))], &[0.25, 0.75], "new"),
    ];
    let trs = [Tr::Exp, Tr::Log, Tr::Lin(2.0, -1.0), Tr::Lin(-0.5, 3.0), Tr::Lin(1e-3, 0.0), Tr::Logit, Tr::Cube, Tr::Neg];
    let mut pts = vec![0.5, 0.25, 0.9, 1.0, 2.0, 3.5, 7.0, 30.0, 300.0, 1e-3, 1e-6, 1e-12, 0.1, 0.75];
    let negs: Vec<f64> = pts.iter().map(|x| -x).collect();
    pts.extend(negs);
    pts.push(0.0);
    if let Some(base) = bases.get(part / 8) {
        let first = part % 8;
        for n in 0..=depth {
            for mut seq in sequences(trs.len(), n.max(1) - 1) {
                if n > 0 {
                    seq.insert(0, first);
                } else if first > 0 {
                    continue;
                }
                let chain: Vec<Tr> = seq.iter().map(|&i| trs[i]).collect();
                let mut d = base.d.clone();
                for (i, t) in chain.iter().enumerate() {
                    d = t.apply(&d, i % 2 == 1);
                }
                let name = format!("{} -> {}", base.key, chain.iter().map(|t| t.name()).collect::<Vec<_>>().join(" -> "));
                ck.state();
                ck.trace();
                let far: &[f64] = if n <= 3 { &FAR } else { &[] };
                for &y in pts.iter().chain(far) {
                    let key = format!("{name}|y={y:?}");
                    ck.at(&key, false);
                    let Some((want, tol, sup)) = transported(base, &chain, y) else {
                        ck.outside += 1;
                        continue;
                    };
                    ck.expect(&key, want, 0.0, tol, || d.log_density_wrt_root(&y));
                    ck.expect(&format!("{key}|builder"), want, 0.0, tol, || d.log_density().at::<f64>(&y));
                    if n > 0 {
                        ck.require(&format!("{key}|in_support"), d.in_support(y) == sup, || format!("expected {sup}"));
                    }
                }
            }
        }
    }
    if part < 64 {
        return;
    }
    transform_pairs::<f64>(ck);
    transform_pairs::<f32>(ck);
    // forth and back restores the measure, whatever the model of the chain says
    let inv: Vec<(Vec<Tr>, fn(f64) -> bool)> = vec![
        (vec![Tr::Exp, Tr::Log], |_| true),
        (vec![Tr::Log, Tr::Exp], |y| y > 0.0),
        (vec![Tr::Lin(4.0, 1.0), Tr::Lin(0.25, -0.25)], |_| true),
        (vec![Tr::Lin(-0.125, -3.0), Tr::Lin(-8.0, -24.0)], |_| true),
        (vec![Tr::Neg, Tr::Neg], |_| true),
    ];
    for base in &bases {
        for (chain, ok) in &inv {
            for pre in [None, Some(Tr::Lin(0.5, 0.0)), Some(Tr::Cube)] {
                let d0 = pre.map_or(base.d.clone(), |t| t.apply(&base.d, false));
                let mut d = d0.clone();
                for t in chain {
                    d = t.apply(&d, true);
                }
                ck.state();
                for &y in pts.iter().filter(|y| ok(**y) && y.abs() >= 1e-3 && y.abs() <= 30.0) {
                    let want = d0.log_density_wrt_root(&y);
                    let near = d0.log_density_wrt_root(&(y * (1.0 + 1e-9)));
                    if want.is_nan() || (near == NEG) != (want == NEG) || want == f64::INFINITY {
                        continue;
                    }
                    let tol = 1e-9 * (1.0 + if want.is_finite() { want.abs() } else { 0.0 }) + if want.is_finite() { (near - want).abs() } else { 0.0 };
                    ck.expect(&format!("{} restored by {}{}|y={y:?}", base.key, pre.map_or(String::new(), |t| t.name() + " "), chain.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")), want, 0.0, tol, || d.log_density_wrt_root(&y));
                }
            }
        }
    }
    // probability is preserved: total mass one after transport
    let whole: [(usize, Vec<Tr>, u8); 12] = [
        (0, vec![Tr::Exp], 1),
        (1, vec![Tr::Log], 0),
        (2, vec![Tr::Logit], 0),
        (2, vec![Tr::Log], 0),
        (3, vec![Tr::Log, Tr::Lin(2.0, -1.0)], 0),
        (0, vec![Tr::Lin(-0.5, 3.0)], 0),
        (0, vec![Tr::Lin(2.0, -1.0), Tr::Exp], 1),
        (2, vec![Tr::Logit, Tr::Exp], 1),
        (0, vec![Tr::Neg, Tr::Lin(2.0, -1.0)], 0),
        (3, vec![Tr::Log, Tr::Neg, Tr::Exp], 1),
        (1, vec![Tr::Log, Tr::Exp, Tr::Log], 0),
        (2, vec![Tr::Logit, Tr::Lin(-0.5, 3.0), Tr::Exp], 1),
    ];
    for (b, chain, kind) in whole {
        let mut d = bases[b].d.clone();
        for t in &chain {
            d = t.apply(&d, false);
        }
        let h = 1.0 / 64.0;
        let mut s = 0.0;
        for i in -2560..=2560 {
            let t = f64::from(i) * h;
            let (y, dy) = if kind == 0 { (t.sinh(), t.cosh()) } else { (t.exp(), t.exp()) };
            let l = d.log_density_wrt_root(&y);
            if l > NEG {
                s += (l + dy.ln()).exp() * h;
            }
            ck.transitions += 1;
        }
        ck.trace();
        ck.close(&format!("{} -> {}|total mass", bases[b].key, chain.iter().map(|t| t.name()).collect::<Vec<_>>().join(" -> ")), s, 1.0, 0.0, 1e-6);
    }
}
