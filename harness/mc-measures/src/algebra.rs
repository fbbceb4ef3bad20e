//! C01: every ordered pair (and, through the table, every triple) of measures on a space, every builder
//! route, every point of the alphabet.

use crate::fam::{self, Fl, Size};
use crate::user;
use mc::{Check, quiet};
use measures_combinators::measures::combinators::product::ProductMeasure;
use measures_combinators::measures::combinators::pushforward::{PushforwardMeasure, transforms};
use measures_combinators::measures::combinators::superposition::MixtureMeasure;
use measures_combinators::measures::derived::integral::IntegralMeasure;
use measures_combinators::measures::derived::weighted::WeightedMeasure;
use measures_combinators::measures::derived::{BinomialCoefficientMeasure, FactorialMeasure, NegativeBinomialCoefficientMeasure};
use measures_core::core::density::ExpFamDispatch;
use measures_core::{EvaluateAt, HasLogDensity, LogDensity, LogDensityBuilder, LogDensityTrait, Measure, MeasureMarker, SharedRootMeasure, log_density_at, log_density_batch};
use measures_distributions as md;
use measures_exponential_family::IIDExtension;
use std::collections::BTreeMap;
use std::fmt::Debug;

struct Space<'a, T, F> {
    ck: &'a mut Check,
    name: &'static str,
    pts: Vec<T>,
    table: BTreeMap<(String, String), Vec<Option<F>>>,
}

fn eq<F: Fl>(ck: &mut Check, key: &str, got: Result<F, String>, want: F, scale: f64) {
    match got {
        Ok(g) => {
            let tol = F::epsilon().d() * 8.0 * (1.0 + scale);
            ck.close(key, g.d(), want.d(), 0.0, tol);
        }
        Err(p) => {
            ck.transitions += 1;
            ck.fail(key, &format!("panicked: {p}"));
        }
    }
}

/// What every route answers at one point.
type Routes<F> = Vec<(&'static str, F)>;

fn judge_pair<T: Clone + Debug, F: Fl>(sp: &mut Space<T, F>, mk: &str, bk: &str, eval: &dyn Fn(&T) -> (F, F, Routes<F>)) {
    sp.ck.state();
    let k = format!("{}|{}|{mk} wrt {bk}", sp.name, F::NAME);
    sp.ck.at(&k, false);
    let mut row = vec![];
    for x in sp.pts.clone() {
        let key = format!("{k}|x={x:?}");
        let (rm, rb, routes) = match quiet(|| eval(&x)) {
            Ok(r) => r,
            Err(p) => {
                sp.ck.fail(&key, &format!("panicked: {p}"));
                row.push(None);
                continue;
            }
        };
        if !rb.is_finite() || rm.is_nan() || rm == F::infinity() {
            sp.ck.outside += 1;
            row.push(None);
            continue;
        }
        let want = rm - rb;
        let sc = if rm.is_finite() { rm.d().abs() + rb.d().abs() } else { 0.0 };
        for (r, v) in &routes {
            eq(sp.ck, &format!("{key}|{r}"), Ok(*v), want, sc);
        }
        let v = routes[0].1;
        row.push(v.is_finite().then_some(v));
        sp.ck.traces += routes.len() as u64;
    }
    sp.table.insert((mk.to_string(), bk.to_string()), row);
}

fn pair<T, F, M, B>(sp: &mut Space<T, F>, ms: &[(String, M)], bs: &[(String, B)])
where
    T: Clone + Debug,
    F: Fl,
    M: Measure<T> + HasLogDensity<T, F>,
    B: Measure<T> + HasLogDensity<T, F>,
    (M::IsExponentialFamily, B::IsExponentialFamily): ExpFamDispatch<T, M, B, F>,
{
    for (mk, m) in ms {
        for (bk, b) in bs {
            let direct = m.log_density().wrt(b.clone());
            let new = LogDensity::new(m.clone()).wrt(b.clone());
            let twice = m.log_density().wrt(m.clone()).wrt(b.clone());
            // the same values elsewhere in memory
            let boxed = Box::new(direct.clone());
            let shelf = vec![new.clone(), direct.clone(), twice.clone()];
            let moved = shelf.clone().pop().unwrap();
            let ev = |x: &T| -> (F, F, Routes<F>) {
                let rm: F = log_density_at(m, x);
                let rb: F = log_density_at(b, x);
                let pm: F = direct.measure().log_density_wrt_root(x);
                let pb: F = direct.base_measure().log_density_wrt_root(x);
                (
                    rm,
                    rb,
                    vec![
                        ("builder", direct.at(x)),
                        ("LogDensity::new", new.at(x)),
                        ("rebased twice", twice.at(x)),
                        ("boxed", boxed.at(x)),
                        ("moved", moved.at(x)),
                        ("in a vector 0", shelf[0].at(x)),
                        ("in a vector 1", shelf[1].at(x)),
                        ("trait", EvaluateAt::<T, F>::at(&direct, x)),
                        ("again", direct.at(x)),
                        ("parts", pm - pb),
                    ],
                )
            };
            judge_pair(sp, mk, bk, &ev);
        }
    }
}

/// One measure: default base, helpers, shared root.
fn single<T, F, M>(sp: &mut Space<T, F>, ms: &[(String, M)])
where
    T: Clone + Debug,
    F: Fl,
    M: Measure<T> + HasLogDensity<T, F>,
    M::RootMeasure: HasLogDensity<T, F>,
    (M::IsExponentialFamily, <M::RootMeasure as MeasureMarker>::IsExponentialFamily): ExpFamDispatch<T, M, M::RootMeasure, F>,
{
    for (mk, m) in ms {
        sp.ck.state();
        let ld = m.log_density();
        let ld2 = LogDensity::new(m.clone());
        let ld3 = m.log_density().wrt(m.root_measure());
        let all: Vec<F> = log_density_batch(m, &sp.pts);
        sp.ck.require(&format!("{}|{}|{mk}|batch length", sp.name, F::NAME), all.len() == sp.pts.len(), || format!("{} values", all.len()));
        for (i, x) in sp.pts.clone().into_iter().enumerate() {
            let key = format!("{}|{}|{mk}|x={x:?}", sp.name, F::NAME);
            let Ok(rm) = quiet(|| -> F { m.log_density_wrt_root(&x) }) else {
                sp.ck.fail(&key, "panicked");
                continue;
            };
            if rm.is_nan() || rm == F::infinity() {
                continue;
            }
            let sc = if rm.is_finite() { rm.d().abs() } else { 0.0 };
            let ck = &mut *sp.ck;
            eq(ck, &format!("{key}|default base"), quiet(|| ld.at::<F>(&x)), rm, sc);
            eq(ck, &format!("{key}|LogDensity::new default base"), quiet(|| ld2.at::<F>(&x)), rm, sc);
            eq(ck, &format!("{key}|wrt its root"), quiet(|| ld3.at::<F>(&x)), rm, sc);
            eq(ck, &format!("{key}|log_density_at"), quiet(|| log_density_at(m, &x)), rm, sc);
            eq(ck, &format!("{key}|log_density_batch"), Ok(all[i]), rm, sc);
            eq(ck, &format!("{key}|root of root"), quiet(|| m.root_measure().log_density_wrt_root(&x)), F::zero(), 0.0);
            for (_, b) in ms {
                let rb: F = b.log_density_wrt_root(&x);
                if rb.is_finite() && rm.is_finite() {
                    let p = (m.clone(), b.clone());
                    eq(ck, &format!("{key}|shared root"), quiet(|| SharedRootMeasure::<T, F>::log_density_wrt_shared_root(&p, &x)), rm + rb, sc + rb.d().abs());
                }
            }
        }
        // batches of every length up to 70 and around larger block sizes, in two orders
        for n in (0..=70usize).chain([95, 96, 97, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4097]) {
            for step in [1usize, 3] {
                let idx: Vec<usize> = (0..n).map(|i| (i * step + i / sp.pts.len()) % sp.pts.len()).collect();
                let xs: Vec<T> = idx.iter().map(|&i| sp.pts[i].clone()).collect();
                let b: Vec<F> = log_density_batch(m, &xs);
                let bad = if b.len() == n { (0..n).find(|&j| !(b[j] == all[idx[j]] || (b[j].is_nan() && all[idx[j]].is_nan()))) } else { Some(b.len().min(n)) };
                sp.ck.require(&format!("{}|{}|{mk}|batch of {n} step {step}", sp.name, F::NAME), bad.is_none(), || format!("{} values, differs at {bad:?}", b.len()));
            }
        }
        sp.ck.trace();
    }
}

fn chains<T: Debug, F: Fl>(sp: &mut Space<T, F>) {
    let names: Vec<String> = sp.table.keys().map(|k| k.0.clone()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    for i in 0..sp.pts.len() {
        let x = format!("{:?}", sp.pts[i]);
        let get = |a: &String, b: &String| sp.table.get(&(a.clone(), b.clone())).and_then(|r| r[i]);
        let m: Vec<Vec<Option<F>>> = names.iter().map(|a| names.iter().map(|b| get(a, b)).collect()).collect();
        let n = names.len();
        let root: Vec<f64> = (0..n).map(|a| m[a].iter().flatten().map(|v| v.d().abs()).fold(0.0, f64::max)).collect();
        for a in 0..n {
            if let Some(v) = m[a][a] {
                sp.ck.close(&format!("{}|{}|{} wrt itself|x={x}", sp.name, F::NAME, names[a]), v.d(), 0.0, 0.0, 0.0);
            }
            for b in 0..n {
                let Some(ab) = m[a][b] else { continue };
                let tol = F::epsilon().d() * 32.0 * (1.0 + root[a] + root[b]);
                if let Some(ba) = m[b][a] {
                    sp.ck.close(&format!("{}|{}|{} and {} swapped|x={x}", sp.name, F::NAME, names[a], names[b]), ba.d(), -ab.d(), 0.0, tol);
                }
                for c in 0..n {
                    if let (Some(bc), Some(ac)) = (m[b][c], m[a][c]) {
                        sp.ck.transitions += 1;
                        let tol = tol + F::epsilon().d() * 32.0 * root[c];
                        if !mc::close(ab.d() + bc.d(), ac.d(), 0.0, tol) {
                            sp.ck.fail(&format!("{}|{}|chain {} / {} / {}|x={x}", sp.name, F::NAME, names[a], names[b], names[c]), &format!("{ab:?} + {bc:?} != {ac:?}"));
                        }
                    }
                }
            }
        }
    }
}

/// All ordered pairs of the listed groups.
macro_rules! cross {
    ($sp:expr; $($a:ident),*) => { cross!(@rows $sp; [$($a)*] [$($a)*]); $( single(&mut $sp, &$a); )* chains(&mut $sp); };
    (@rows $sp:expr; [$($a:ident)*] $all:tt) => { $( cross!(@row $sp; $a $all); )* };
    (@row $sp:expr; $a:ident [$($b:ident)*]) => { $( pair(&mut $sp, &$a, &$b); )* };
}

fn named<M, X>(v: Vec<(M, fam::Law<X>)>, n: usize) -> Vec<(String, M)> {
    v.into_iter().take(n).map(|(d, l)| (l.key, d)).collect()
}

fn nm<M>(k: &str, m: M) -> (String, M) {
    (k.to_string(), m)
}

/// Words, without order or arithmetic; the words that contain a z are outside every support.
#[derive(Clone, Debug, PartialEq)]
struct Word(String);
#[derive(Clone, Debug)]
struct Len;
#[derive(Clone, Debug)]
struct Vowels;
#[derive(Clone, Debug)]
struct Scaled<M>(M, f64);
macro_rules! word_measure {
    (<$($g:ident)?> $t:ty, $d:expr) => {
        impl<$($g: HasLogDensity<Word, f64> + Clone)?> MeasureMarker for $t {
            type IsPrimitive = measures_core::False;
            type IsExponentialFamily = measures_core::False;
        }
        impl<$($g: HasLogDensity<Word, f64> + Clone)?> Measure<Word> for $t {
            type RootMeasure = measures_core::CountingMeasure<Word>;
            fn in_support(&self, x: Word) -> bool {
                !x.0.contains('z')
            }
            fn root_measure(&self) -> Self::RootMeasure {
                measures_core::CountingMeasure::new()
            }
        }
        impl<$($g: HasLogDensity<Word, f64> + Clone)?> HasLogDensity<Word, f64> for $t {
            fn log_density_wrt_root(&self, x: &Word) -> f64 {
                let f: fn(&$t, &Word) -> f64 = $d;
                if x.0.contains('z') { f64::NEG_INFINITY } else { f(self, x) }
            }
        }
    };
}
word_measure!(<> Len, |_, x| -0.5 - x.0.len() as f64);
word_measure!(<> Vowels, |_, x| 0.125 * x.0.chars().filter(|c| "ae".contains(*c)).count() as f64 - 1.0);
word_measure!(<M> Scaled<M>, |m, x| m.1 * m.0.log_density_wrt_root(x));

pub fn c01() {
    let mut ck = Check::new("C01");
    let n = 4;
    let z = Size::Small;
    let (th, rz) = if ck.thorough() { (true, Size::Full) } else { (false, Size::Quick) };
    let mut reals = vec![0.5f64, 0.25, 0.9, 1.0, 2.0, 3.5, -0.75, 0.0, -20.0, 150.0];
    reals.extend(fam::reals(rz));
    let ks: Vec<u64> = fam::counts(rz);
    ck.parallel(9, |ck, part| space(ck, part, n, z, th, &reals, &ks));
    ck.assume("both measures are taken on the same sample space with the same reference measure (Lebesgue or counting)");
    ck.assume("points where the base measure has no density are not judged");
    ck.finish("all ordered pairs and triples of the listed measures per space x all routes x point alphabet x {f32,f64}");
}

/// The largest spaces first.
fn space(ck: &mut Check, part: usize, n: usize, z: Size, th: bool, reals: &[f64], ks: &[u64]) {
    macro_rules! real_space {
        ($F:ty, $name:expr) => {{
            let normal = named(fam::normal::<$F>(z), n);
            let expo = named(fam::exponential::<$F>(z), n);
            let gam = named(fam::gamma::<$F>(z), n);
            let bet = named(fam::beta::<$F>(z), n);
            let chi = named(fam::chi_squared::<$F>(z), n);
            let cau = named(fam::cauchy::<$F>(z), n);
            let stu = named(fam::student_t::<$F>(z), n);
            let leb = vec![nm("Lebesgue", measures_core::LebesgueMeasure::<$F>::new())];
            let leb2 = vec![nm("combinators Lebesgue", measures_combinators::LebesgueMeasure::<$F>::new())];
            let wei = vec![
                nm("Weighted(Normal,0.7)", WeightedMeasure::<_, $F, $F>::new(md::Normal::<$F>::new(0.0, 1.0), 0.7)),
                nm("Weighted(Normal(1,2),-3)", WeightedMeasure::<_, $F, $F>::new(md::Normal::<$F>::new(1.0, 2.0), -3.0)),
            ];
            let mix = vec![nm("Mixture(Normal,Normal)", MixtureMeasure::<_, $F>::new(vec![md::Normal::<$F>::new(0.0, 1.0), md::Normal::<$F>::new(2.0, 0.5)], vec![0.25, 0.75]))];
            fn tilt(x: &$F) -> $F { 0.5 * *x - 1.0 }
            let int = vec![nm("Integral(Cauchy)", IntegralMeasure::<_, fn(&$F) -> $F, $F>::new(md::Cauchy::<$F>::new(0.0, 1.0), tilt))];
            let pts: Vec<$F> = reals.iter().map(|&x| x as $F).collect();
            let mut sp: Space<$F, $F> = Space { ck: &mut *ck, name: $name, pts, table: BTreeMap::new() };
            let usr = named(user::three::<$F>(), n);
            cross!(sp; normal, expo, gam, bet, chi, cau, stu, leb, leb2, wei, mix, int, usr);
        }};
    }
    match part {
        0 => return real_space!(f64, "reals"),
        1 => return real_space!(f32, "reals"),
        _ => (),
    }
    if part == 2 {
        // transported measures exist for f64 only, over the combinators' own Lebesgue measure
        let (f, i, j) = transforms::linear_transform::<f64>(2.0, -1.0);
        let lin = vec![nm("Pushforward(linear)", PushforwardMeasure::new(WeightedMeasure::<_, f64, f64>::new(measures_combinators::LebesgueMeasure::<f64>::new(), 0.3), f, i, j))];
        let (f, i, j) = transforms::log_transform::<f64>();
        let log = vec![nm("Pushforward(log)", PushforwardMeasure::new(measures_combinators::LebesgueMeasure::<f64>::new(), f, i, j))];
        let (f, i, j) = transforms::exp_transform::<f64>();
        let exp = vec![nm("Pushforward(exp)", PushforwardMeasure::new(measures_combinators::LebesgueMeasure::<f64>::new(), f, i, j))];
        let leb2 = vec![nm("combinators Lebesgue", measures_combinators::LebesgueMeasure::<f64>::new())];
        let nrm = named(fam::normal::<f64>(z), n);
        let bet = named(fam::beta::<f64>(z), n);
        let mut sp: Space<f64, f64> = Space { ck: &mut *ck, name: "transported reals", pts: reals.to_vec(), table: BTreeMap::new() };
        cross!(sp; lin, log, exp, leb2, nrm, bet);
    }
    macro_rules! count_space {
        ($F:ty) => {{
            let poi = named(fam::poisson::<$F>(z), n);
            let bin = named(fam::binomial::<$F>(z, false), n);
            let geo = named(fam::geometric::<$F>(z, false), n);
            let neg = named(fam::negative_binomial::<$F>(z), n);
            let cnt = vec![nm("Counting", measures_core::CountingMeasure::<u64>::new())];
            let cnt2 = vec![nm("combinators Counting", measures_combinators::CountingMeasure::<u64>::new())];
            let fac = vec![nm("Factorial", FactorialMeasure::<$F>::new())];
            let bc = vec![nm("BinomialCoefficient(7)", BinomialCoefficientMeasure::<$F>::new(7)), nm("BinomialCoefficient(3)", BinomialCoefficientMeasure::<$F>::new(3))];
            let nbc = vec![nm("NegativeBinomialCoefficient(4)", NegativeBinomialCoefficientMeasure::<$F>::new(4))];
            let wei = vec![nm("Weighted(Poisson,-0.5)", WeightedMeasure::<_, $F, u64>::new(md::Poisson::<$F>::new(2.0), -0.5))];
            let mix = vec![nm("Mixture(Geometric)", MixtureMeasure::<_, $F>::new(vec![md::Geometric::<$F>::new(0.5), md::Geometric::<$F>::new(0.25)], vec![0.5, 0.5]))];
            let mut sp: Space<u64, $F> = Space { ck: &mut *ck, name: "counts", pts: ks.to_vec(), table: BTreeMap::new() };
            let usr = named(user::odd::<$F>(), n);
            cross!(sp; poi, bin, geo, neg, cnt, cnt2, fac, bc, nbc, wei, mix, usr);
        }};
    }
    match part {
        3 => return count_space!(f64),
        4 => return count_space!(f32),
        _ => (),
    }
    if part == 5 {
        let ber = named(fam::bernoulli::<f64>(z, true), 5);
        let cnt = vec![nm("Counting", measures_core::CountingMeasure::<u8>::new())];
        let wei = vec![nm("Weighted(Bernoulli)", WeightedMeasure::<_, f64, u8>::new(md::Bernoulli::<f64>::new(0.3), 1.5))];
        let mut sp: Space<u8, f64> = Space { ck: &mut *ck, name: "bits", pts: vec![0, 1, 2, 255], table: BTreeMap::new() };
        cross!(sp; ber, cnt, wei);
        let cat = named(fam::categorical::<f64>(z, false), 4);
        let cnt = vec![nm("Counting", measures_core::CountingMeasure::<usize>::new())];
        let mut sp: Space<usize, f64> = Space { ck: &mut *ck, name: "categories", pts: vec![0, 1, 2, 3, 7], table: BTreeMap::new() };
        cross!(sp; cat, cnt);
    }
    if part == 6 {
        // joint observations
        type V = Vec<f64>;
        let nrm: Vec<_> = named(fam::normal::<f64>(z), 3).into_iter().map(|(k, d)| (format!("IID({k})"), IIDExtension::<f64, f64>::iid(d))).collect();
        let exp: Vec<_> = named(fam::exponential::<f64>(z), 2).into_iter().map(|(k, d)| (format!("IID({k})"), IIDExtension::<f64, f64>::iid(d))).collect();
        let gam: Vec<_> = named(fam::gamma::<f64>(z), 2).into_iter().map(|(k, d)| (format!("IID({k})"), IIDExtension::<f64, f64>::iid(d))).collect();
        let mut sp: Space<V, f64> = Space { ck: &mut *ck, name: "samples", pts: vec![vec![], vec![0.5], vec![1.0, 2.0], vec![0.1, 0.2, 0.3, 4.0], vec![-1.0, 2.0]], table: BTreeMap::new() };
        cross!(sp; nrm, exp, gam);
    }
    if part == 7 {
        let a = vec![nm("Normal x Poisson", ProductMeasure::new(md::Normal::<f64>::new(0.0, 1.0), md::Poisson::<f64>::new(2.0)))];
        let b = vec![nm("Cauchy x Geometric", ProductMeasure::new(md::Cauchy::<f64>::new(1.0, 2.0), md::Geometric::<f64>::new(0.5)))];
        let c = vec![nm("Exponential x Counting", ProductMeasure::new(md::Exponential::<f64>::new(1.0), measures_core::CountingMeasure::<u64>::new()))];
        let d = vec![nm("Lebesgue x Factorial", ProductMeasure::new(measures_core::LebesgueMeasure::<f64>::new(), FactorialMeasure::<f64>::new()))];
        let mut pts = vec![];
        for x in [0.5, -1.0, 3.0] {
            for k in [0u64, 1, 4] {
                pts.push((x, k));
            }
        }
        let mut sp: Space<(f64, u64), f64> = Space { ck: &mut *ck, name: "pairs", pts, table: BTreeMap::new() };
        cross!(sp; a, b, c, d);
    }
    if part == 8 {
        // a space of a user's own, with measures of a user's own: several of them carry no data
        let len = vec![nm("Len", Len)];
        let vow = vec![nm("Vowels", Vowels)];
        let scaled = vec![nm("Scaled(Len,2)", Scaled(Len, 2.0)), nm("Scaled(Len,-1)", Scaled(Len, -1.0)), nm("Scaled(Len,0)", Scaled(Len, 0.0))];
        let deep = vec![nm("Scaled(Scaled(Vowels))", Scaled(Scaled(Vowels, 0.5), 3.0))];
        let cnt = vec![nm("Counting", measures_core::CountingMeasure::<Word>::new())];
        let wei = vec![nm("Weighted(Vowels)", WeightedMeasure::<_, f64, Word>::new(Vowels, 0.75))];
        let mix = vec![nm("Mixture(Scaled)", MixtureMeasure::<_, f64>::new(vec![Scaled(Len, 1.0), Scaled(Len, -0.5)], vec![0.5, 0.5]))];
        let mut pts = vec![];
        for k in 0..=(if th { 5 } else { 3 }) {
            for q in mc::sequences(4, k) {
                pts.push(Word(q.iter().map(|&i| ['a', 'b', 'e', 'z'][i]).collect()));
            }
        }
        let mut sp: Space<Word, f64> = Space { ck: &mut *ck, name: "words", pts, table: BTreeMap::new() };
        cross!(sp; len, vow, scaled, deep, cnt, wei, mix);
    }
}
