//! C22: building expressions, and densities with attached parameters.

use crate::ast::*;
use crate::sym::*;
use mc::{Check, quiet};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;
use symbolic_math::{ConstantPool, Expr, SymbolicLogDensity, builders as top, const_expr, expr, expr::builders as low, var};

/// The ways to write a term down.
const STYLES: [&str; 5] = ["functions", "operators", "mixed", "methods", "macros"];

fn build(t: &T, style: usize) -> Expr {
    let go = |t: &T| build(t, style);
    let num = |t: &T| match t {
        T::C(x) if style == 2 => Some(*x),
        _ => None,
    };
    match t {
        T::C(x) => match style {
            0 => Expr::constant(*x),
            3 if *x == f64::from(*x as i32) => Expr::from(*x as i32),
            4 => const_expr!(*x),
            _ => Expr::from(*x),
        },
        T::V(i) => match style {
            0 => Expr::variable(var_names()[*i as usize]),
            1 => Expr::from(var_names()[*i as usize]),
            2 => Expr::variable(var_names()[*i as usize].to_string()),
            4 => var!(var_names()[*i as usize]),
            _ => Expr::from(var_names()[*i as usize].to_string()),
        },
        T::U(o, a) => {
            let e = go(a);
            match (style, o) {
                (0, U::Ln) => Expr::ln(e),
                (0, U::Exp) => Expr::exp(e),
                (0, U::Sqrt) => Expr::sqrt(e),
                (0, U::Neg) => Expr::neg(e),
                (_, U::Ln) => e.natural_log(),
                (_, U::Exp) => e.exponential(),
                (_, U::Sqrt) => e.square_root(),
                (_, U::Sin) => Expr::sin(e),
                (_, U::Cos) => Expr::cos(e),
                (_, U::Neg) => -e,
                (_, U::Logistic) => top::logistic(e),
                (_, U::Softplus) => top::softplus(e),
            }
        }
        T::B(o, a, b) => {
            if style == 0 || (style == 4 && *o == B::Pow) {
                let f = match o {
                    B::Add => Expr::add,
                    B::Sub => Expr::sub,
                    B::Mul => Expr::mul,
                    B::Div => Expr::div,
                    B::Pow => Expr::pow,
                };
                return f(go(a), go(b));
            }
            match (o, num(a), num(b)) {
                (B::Pow, _, Some(q)) => go(a).powf(q),
                (B::Pow, ..) => match &**b {
                    T::C(x) if *x == f64::from(*x as i32) => go(a).powf(*x as i32),
                    T::V(i) => go(a).powf(var_names()[*i as usize]),
                    _ => go(a).powf(go(b)),
                },
                (B::Add, Some(p), None) => p + go(b),
                (B::Sub, Some(p), None) => p - go(b),
                (B::Mul, Some(p), None) => p * go(b),
                (B::Div, Some(p), None) => p / go(b),
                (B::Add, _, Some(q)) => go(a) + q,
                (B::Sub, _, Some(q)) => go(a) - q,
                (B::Mul, _, Some(q)) => go(a) * q,
                (B::Div, _, Some(q)) => go(a) / q,
                (B::Add, ..) => go(a) + go(b),
                (B::Sub, ..) => go(a) - go(b),
                (B::Mul, ..) => go(a) * go(b),
                (B::Div, ..) => go(a) / go(b),
            }
        }
    }
}

fn means(k: &mut Check, what: &str, t: &T, made: Result<Expr, String>, all: &[Env]) {
    k.state();
    k.trace();
    match made {
        Ok(e) if e == to_expr(t) => k.pass(0.0),
        Ok(e) => same_value(k, what, t, &e, all, false),
        Err(p) => k.fail(&format!("{what}|{}", show(t)), &format!("panic: {p}")),
    }
}

fn occurs(e: &Expr) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    expr_vars(e, &mut |n| {
        s.insert(n.to_string());
    });
    s
}

fn reports(k: &mut Check, key: &str, got: &[String], e: &Expr) {
    let set: BTreeSet<String> = got.iter().cloned().collect();
    let want = occurs(e);
    k.require(key, set.len() == got.len() && set == want, || format!("reports the variables {got:?}, but {want:?} occur in {e}"));
}

fn written(k: &mut Check, t: &Rc<T>, all: &[Env]) {
    k.tick(|| format!("build|{}", show(t)));
    for (s, name) in STYLES.iter().enumerate() {
        means(k, &format!("build-{name}"), t, quiet(|| build(t, s)), all);
    }
    let e = to_expr(t);
    let key = format!("inspect|{}", show(t));
    match quiet(|| (e.variables(), e.complexity())) {
        Ok((vs, n)) => {
            reports(k, &key, &vs, &e);
            k.require(&key, n == size(t), || format!("reports {n} operations of {}", size(t)));
        }
        Err(p) => k.fail(&key, &format!("panic: {p}")),
    }
}

fn repeated(k: &mut Check, t: &Rc<T>, all: &[Env]) {
    let e = || to_expr(t);
    means(k, "square", &bi(B::Mul, t, t), quiet(|| e().square()), all);
    means(k, "cube", &bi(B::Mul, &bi(B::Mul, t, t), t), quiet(|| e().cube()), all);
    means(k, "abs", &un(U::Sqrt, &bi(B::Mul, t, t)), quiet(|| e().abs()), all);
}

fn macros(k: &mut Check, all: &[Env]) {
    let (x, y, two, half) = (v(0), v(1), c(2.0), c(0.5));
    macro_rules! m {
        ($($t:expr => [$($m:tt)*]),* $(,)?) => { $( means(k, concat!("expr!(", stringify!($($m)*), ")"), &$t, quiet(|| expr!($($m)*)), all); )* };
    }
    m!(
        x => [x], two => [2.0], two => [2], c(-2.5) => [-2.5], x => [(x)], x => [((x))], half => [(0.5)],
        bi(B::Add, &x, &y) => [x + y], bi(B::Add, &two, &x) => [2.0 + x], bi(B::Add, &x, &two) => [x + 2], bi(B::Add, &two, &half) => [2.0 + 0.5],
        bi(B::Sub, &x, &y) => [x - y], bi(B::Sub, &y, &x) => [y - x], bi(B::Sub, &two, &x) => [2.0 - x], bi(B::Sub, &x, &two) => [x - 2.0],
        bi(B::Mul, &x, &y) => [x * y], bi(B::Mul, &two, &y) => [2.0 * y], bi(B::Mul, &y, &half) => [y * 0.5], bi(B::Mul, &x, &x) => [x * x],
        bi(B::Div, &x, &y) => [x / y], bi(B::Div, &y, &x) => [y / x], bi(B::Div, &two, &x) => [2.0 / x], bi(B::Div, &x, &two) => [x / 2.0],
        bi(B::Pow, &x, &y) => [x ^ y], bi(B::Pow, &y, &x) => [y ^ x], bi(B::Pow, &x, &two) => [x ^ 2.0], bi(B::Pow, &two, &x) => [2.0 ^ x],
        un(U::Ln, &x) => [ln(x)], un(U::Exp, &y) => [exp(y)], un(U::Sqrt, &x) => [sqrt(x)], un(U::Sin, &x) => [sin(x)], un(U::Cos, &y) => [cos(y)],
        un(U::Ln, &two) => [ln(2.0)], un(U::Exp, &half) => [exp(0.5)], un(U::Sqrt, &two) => [sqrt(2.0)], un(U::Sin, &half) => [sin(0.5)], un(U::Cos, &half) => [cos(0.5)],
        un(U::Ln, &x) => [ln((x))], un(U::Neg, &x) => [-x], un(U::Neg, &x) => [-(x)], bi(B::Sub, &x, &y) => [(x) - (y)], bi(B::Pow, &x, &two) => [(x) ^ (2.0)],
    );
}

fn sq(t: &Rc<T>) -> Rc<T> {
    bi(B::Mul, t, t)
}

/// -(x - mu)^2 / (2 sigma^2)
pub fn quad(x: &Rc<T>, mu: &Rc<T>, sigma: &Rc<T>) -> Rc<T> {
    un(U::Neg, &bi(B::Div, &sq(&bi(B::Sub, x, mu)), &bi(B::Mul, &c(2.0), &sq(sigma))))
}

pub fn log_norm(sigma: &Rc<T>) -> Rc<T> {
    let half_log_two_pi = c(0.5 * (2.0 * std::f64::consts::PI).ln());
    un(U::Neg, &bi(B::Add, &half_log_two_pi, &un(U::Ln, sigma)))
}

fn ready_made(k: &mut Check, all: &[Env]) {
    let args = [v(0), v(1), v(2), c(0.0), c(1.5), c(-2.0), bi(B::Add, &v(0), &c(1.0)), un(U::Exp, &v(1))];
    let sig = [v(1), v(0), v(2), c(1.0), c(0.25), c(7.0), un(U::Exp, &v(0)), c(-1.5)];
    let envs3: Vec<Env> = all.iter().zip(0..).map(|(e, i)| [e[0], e[1], Some([1.0, 0.5, 3.0, -2.0][i % 4]), None]).collect();
    // same_value picks its assignments by the variables of the term; y and z need all of them
    let check = |k: &mut Check, what: String, t: &T, made: Result<Expr, String>| {
        k.state();
        k.trace();
        match made {
            Err(p) => k.fail(&what, &format!("panic: {p}")),
            Ok(e) => {
                let got = occurs(&e);
                let vs = var_set(t);
                k.require(&format!("{what}|variables"), got.iter().all(|n| var_names().iter().position(|m| m == n).is_some_and(|i| vs[i])), || format!("mentions {got:?}"));
                for env in &envs3 {
                    match (ev(t, env), ev_expr(&e, env)) {
                        (R::Val(v0, e0), R::Val(v1, e1)) => match agree(v0, e0, v1, e1) {
                            Agree::Yes => k.pass(v1),
                            Agree::Skip => k.outside += 1,
                            Agree::No => {
                                k.transitions += 1;
                                k.fail(&format!("{what}|{}", show_env(env)), &format!("{e} has value {v1:?}, expected {v0:?}"));
                            }
                        },
                        (R::Val(v0, _), R::Undef(_)) => {
                            k.transitions += 1;
                            k.fail(&format!("{what}|{}", show_env(env)), &format!("{e} has no value, expected {v0:?}"));
                        }
                        _ => k.outside += 1,
                    }
                }
            }
        }
    };
    for x in &args {
        for mu in &args {
            for s in &sig {
                let a = format!("{}|{}|{}", show(x), show(mu), show(s));
                let e = || (to_expr(x), to_expr(mu), to_expr(s));
                let pdf = bi(B::Add, &log_norm(s), &quad(x, mu, s));
                check(k, format!("normal_log_pdf|{a}"), &pdf, quiet(|| top::normal_log_pdf(e().0, e().1, e().2)));
                check(k, format!("gaussian_kernel|{a}"), &un(U::Exp, &quad(x, mu, s)), quiet(|| top::gaussian_kernel(e().0, e().1, e().2)));
            }
        }
        check(k, format!("logistic|{}", show(x)), &un(U::Logistic, x), quiet(|| top::logistic(to_expr(x))));
        check(k, format!("softplus|{}", show(x)), &un(U::Softplus, x), quiet(|| top::softplus(to_expr(x))));
        for n in 0..=5 {
            for s in mc::sequences(4, n) {
                let cs: Vec<f64> = s.iter().map(|i| [0.0, 1.0, -2.0, 0.5][*i]).collect();
                let mut t: Option<Rc<T>> = None;
                for (i, q) in cs.iter().enumerate() {
                    let m = bi(B::Mul, &c(*q), &bi(B::Pow, x, &c(i as f64)));
                    t = Some(t.map_or(m.clone(), |t| bi(B::Add, &t, &m)));
                }
                check(k, format!("polynomial|{}|{cs:?}", show(x)), &t.unwrap_or(c(0.0)), quiet(|| top::polynomial(to_expr(x), &cs)));
            }
        }
    }
    for n in (6usize..=40).chain([63, 64, 65, 100, 128, 129]) {
        let cs: Vec<f64> = (0..n).map(|i| ((i * 5) % 7) as f64 - 3.0).collect();
        let t = cs.iter().enumerate().fold(c(0.0), |t, (i, q)| bi(B::Add, &t, &bi(B::Mul, &c(*q), &bi(B::Pow, &v(0), &c(i as f64)))));
        check(k, format!("polynomial|x|{n} terms"), &t, quiet(|| top::polynomial("x", &cs)));
    }
    // every kind of argument
    for (q, i) in [(1.0, 1), (-2.0, -2), (3.0, 3)] {
        let pdf = bi(B::Add, &log_norm(&v(1)), &quad(&v(0), &c(q), &v(1)));
        check(k, format!("normal_log_pdf|&str,i32,String|{q}"), &pdf, quiet(|| top::normal_log_pdf("x", i, "y".to_string())));
        check(k, format!("normal_log_pdf|&str,f64,&str|{q}"), &pdf, quiet(|| top::normal_log_pdf("x", q, "y")));
        check(k, format!("gaussian_kernel|&str,i32,String|{q}"), &un(U::Exp, &quad(&v(0), &c(q), &v(1))), quiet(|| top::gaussian_kernel("x", i, "y".to_string())));
    }
    for mu in [0.0, 2.0, -1.5, 1e3] {
        for s in [1.0, 0.5, 1.5, 10.0, -2.0] {
            check(k, format!("quadratic_term|{mu}|{s}"), &quad(&v(0), &c(mu), &c(s)), quiet(|| low::quadratic_term("x", mu, s)));
            check(k, format!("quadratic_term|y|{mu}|{s}"), &quad(&v(1), &c(mu), &c(s)), quiet(|| low::quadratic_term("y", mu, s)));
            check(k, format!("log_normal_constant|{s}"), &log_norm(&c(s)), quiet(|| low::log_normal_constant(s)));
        }
        check(k, format!("linear_term|{mu}"), &bi(B::Mul, &c(mu), &v(0)), quiet(|| low::linear_term("x", mu)));
    }
}

/// What is done to a density, one step at a time.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Simplify,
    Substitute,
    Evaluate,
}

/// Every order of simplify / substitute / evaluate, for every split of the variables.
fn density(k: &mut Check, t: &Rc<T>, depth: usize) {
    let vs = var_set(t);
    let points: [Env; 3] = [
        [Some(1.25), Some(2.5), Some(0.75), Some(3.0)],
        [Some(-0.5), Some(1.5), Some(2.0), Some(-1.0)],
        [Some(4.0), Some(-3.0), Some(0.5), Some(2.0)],
    ];
    let par = [1.5, -0.75, 2.25, 0.5];
    // each used variable: parameter, explicit, both (explicit wins) or missing
    let used: Vec<usize> = (0..4).filter(|i| vs[*i]).collect();
    let spare = (0..4).find(|i| !vs[*i]);
    for roles in mc::sequences(4, used.len()) {
        for with_spare in [false, true] {
            if with_spare && spare.is_none() {
                continue;
            }
            let is_param = |j: usize| matches!(roles[j], 0 | 2);
            let is_given = |j: usize| matches!(roles[j], 1 | 2);
            let mut params: HashMap<String, f64> = used.iter().enumerate().filter(|(j, _)| is_param(*j)).map(|(_, i)| (var_names()[*i].to_string(), par[*i])).collect();
            if with_spare {
                params.insert(var_names()[spare.unwrap()].to_string(), 99.0);
            }
            let desc: Vec<String> = used.iter().zip(&roles).map(|(i, r)| format!("{}:{}", var_names()[*i], ["param", "given", "both", "missing"][*r])).collect();
            let base = format!("density|{}|{}{}", show(t), desc.join(","), if with_spare { ",spare" } else { "" });
            k.tick(|| base.clone());
            let e = to_expr(t);
            for n in 0..=depth {
                for seq in mc::sequences(3, n) {
                    let steps: Vec<Step> = seq.iter().map(|s| [Step::Simplify, Step::Substitute, Step::Evaluate][*s]).collect();
                    if n > 0 && steps[n - 1] == Step::Evaluate {
                        continue; // an evaluation ends every history anyway
                    }
                    k.state();
                    k.trace();
                    let mut d = SymbolicLogDensity::new(e.clone(), params.clone());
                    let key = format!("{base}|{steps:?}");
                    let (mut simplified, mut substituted) = (false, false);
                    for step in steps.iter().chain([&Step::Evaluate]) {
                        match step {
                            Step::Simplify => {
                                simplified = true;
                                match quiet(|| d.clone().simplify()) {
                                    Ok(n) => d = n,
                                    Err(p) => return k.fail(&key, &format!("panic: {p}")),
                                }
                            }
                            Step::Substitute => {
                                substituted = true;
                                match quiet(|| d.clone().substitute_parameters()) {
                                    Ok(n) => d = n,
                                    Err(p) => return k.fail(&key, &format!("panic: {p}")),
                                }
                                let left = occurs(&d.expression);
                                k.require(&format!("{key}|substituted"), !left.iter().any(|n| params.contains_key(n)), || format!("parameters {left:?} remain in {}", d.expression));
                            }
                            Step::Evaluate => {
                                if substituted && (0..used.len()).any(|j| roles[j] == 2) {
                                    continue; // the parameter is gone: nothing to override
                                }
                                for (pi, pt) in points.iter().enumerate() {
                                    let mut env: Env = [None; 4];
                                    let mut given = HashMap::new();
                                    for (j, i) in used.iter().enumerate() {
                                        if is_given(j) {
                                            env[*i] = pt[*i];
                                            given.insert(var_names()[*i].to_string(), pt[*i].unwrap());
                                        } else if is_param(j) {
                                            env[*i] = Some(par[*i]);
                                        }
                                    }
                                    let want = ev(t, &env);
                                    let mut got = vec![("evaluate", quiet(|| d.evaluate(&given)))];
                                    if let [(n, x)] = given.iter().collect::<Vec<_>>()[..] {
                                        got.push(("evaluate_single", quiet(|| d.evaluate_single(n, *x))));
                                    }
                                    for (route, g) in got {
                                        let key = || format!("{key}|{route}|{pi}");
                                        match (want, g) {
                                            (_, Err(p)) => {
                                                k.transitions += 1;
                                                k.fail(&key(), &format!("panic: {p}"));
                                            }
                                            (R::Val(v0, e0), Ok(Ok(g))) => match agree(v0, e0, g, e0) {
                                                Agree::Yes => k.pass(g),
                                                Agree::Skip => k.outside += 1,
                                                Agree::No => {
                                                    k.transitions += 1;
                                                    k.fail(&key(), &format!("evaluates to {g:?}, the value is {v0:?}"));
                                                }
                                            },
                                            (R::Val(v0, _), Ok(Err(e))) => {
                                                k.transitions += 1;
                                                k.fail(&key(), &format!("fails ({e}), the value is {v0:?}"));
                                            }
                                            (R::Undef(m), Ok(g)) if m & HARD != 0 && m & POW == 0 && !simplified && !zero_factor(t) => {
                                                k.require(&key(), g.is_err(), || format!("evaluates to {g:?}, but the expression has no value there"));
                                            }
                                            _ => k.outside += 1,
                                        }
                                    }
                                }
                            }
                        }
                        reports(k, &format!("{key}|variables"), &d.variables, &d.expression);
                    }
                    k.require(&format!("{key}|parameters"), d.parameters == params, || format!("the parameters became {:?}", d.parameters));
                }
            }
        }
    }
}

fn pool(k: &mut Check) {
    // every sequence of additions over three names
    for n in 0..=4 {
        for s in mc::sequences(6, n) {
            let mut p = if n % 2 == 0 { ConstantPool::new() } else { ConstantPool::default() };
            let mut model: HashMap<String, (f64, String, Vec<String>)> = HashMap::new();
            k.state();
            k.trace();
            for (i, a) in s.iter().enumerate() {
                let name = ["a", "b", "c"][a % 3].to_string();
                let val = (i as f64) * 1.5 + *a as f64;
                let deps = if *a < 3 { vec![] } else { vec!["a".to_string(), "z".to_string()] };
                p.add_constant(name.clone(), val, format!("e{i}"), deps.clone());
                model.insert(name, (val, format!("e{i}"), deps));
                let same = p.constants.len() == model.len()
                    && p.expressions.len() == model.len()
                    && p.dependencies.len() == model.len()
                    && model.iter().all(|(n, (v, e, d))| p.constants.get(n) == Some(v) && p.expressions.get(n) == Some(e) && p.dependencies.get(n) == Some(d));
                k.require(&format!("pool|{s:?}|{i}"), same, || format!("holds {p:?}"));
            }
        }
    }
}

pub fn c22() {
    let mut k = Check::new("C22");
    let th = k.thorough();
    let all = envs();
    let leaves = || vec![v(0), v(1), c(0.5), c(2.0), c(-1.0), c(0.0)];
    let n1 = height1(&leaves()).len();
    k.parallel(n1 + 1, |k, part| {
        let l = leaves();
        let mut h1 = height1(&l);
        if part == n1 {
            for t in &h1 {
                written(k, t, &all);
                repeated(k, t, &all);
            }
            for o in [U::Logistic, U::Softplus] {
                for t in &h1 {
                    means(k, "builders", &un(o, t), quiet(|| build(&un(o, t), 1)), &all);
                }
            }
            macros(k, &all);
            ready_made(k, &all);
            pool(k);
            return;
        }
        let a = h1.swap_remove(part);
        for o in US {
            written(k, &un(o, &a), &all);
            repeated(k, &un(o, &a), &all);
        }
        let h1 = height1(&l);
        for o in BS {
            for b in &h1 {
                written(k, &bi(o, &a, b), &all);
            }
        }
    });
    long(&mut k, &all, |k, t| written(k, t, &all));
    // the names of the variables do not matter
    renamed(1..SETS, || {
        k.parallel(chain_parts(3), |k, part| {
            let l = vec![v(0), c(2.0), v(1)];
            chains_part(&l, 2, part, &mut |t| written(k, t, &all));
            let h1 = height1(&[v(0), v(1), v(2), c(2.0)]);
            for t in h1.iter().skip(part).step_by(chain_parts(3)) {
                density(k, t, 2);
            }
        });
    });
    k.parallel(chain_parts(3), |k, part| {
        let l = vec![v(0), c(2.0), v(1)];
        chains_part(&l, 4, part, &mut |t| written(k, t, &all));
    });
    if th {
        k.parallel(chain_parts(4), |k, part| {
            let l = vec![v(0), c(-1.0), v(1), c(0.5)];
            chains_part(&l, 4, part, &mut |t| written(k, t, &all));
        });
    }
    let terms = || {
    let (x, y, z, w) = (v(0), v(1), v(2), v(3));
    let mut ts = vec![
        bi(B::Add, &log_norm(&z), &quad(&x, &y, &z)),
        bi(B::Sub, &bi(B::Mul, &x, &y), &bi(B::Div, &z, &w)),
        bi(B::Add, &bi(B::Mul, &c(0.0), &y), &x),
        bi(B::Pow, &bi(B::Add, &x, &c(1.0)), &bi(B::Sub, &y, &y)),
        bi(B::Sub, &un(U::Ln, &un(U::Exp, &bi(B::Sub, &x, &w))), &bi(B::Pow, &z, &c(1.0))),
        bi(B::Div, &un(U::Sin, &bi(B::Mul, &x, &y)), &un(U::Cos, &bi(B::Add, &z, &x))),
        un(U::Neg, &un(U::Sqrt, &bi(B::Add, &sq(&x), &sq(&y)))),
        un(U::Neg, &un(U::Neg, &y)),
        x.clone(),
        c(2.5),
    ];
    ts.extend(height1(&[v(0), v(1), c(2.0), c(0.0), c(1.0)]));
    ts
    };
    let depth = 5;
    k.parallel(terms().len(), |k, part| density(k, &terms()[part], depth));
    let small = || height1(&[v(0), v(1), c(2.0)]);
    k.parallel(small().len(), |k, part| {
        let small = small();
        for o in US {
            density(k, &un(o, &small[part]), 2);
        }
        for o in BS {
            for b in &small {
                density(k, &bi(o, &small[part], b), 3);
            }
        }
    });
    k.extra_s("oracle", "the term written down: its reference meaning, its variables and its operation count; closed forms for the builders");
    k.finish("every term of height 2 over {x,y,1/2,2,-1,0} and every chain of 4 frames over {x,y,2} (thorough also {x,y,-1,1/2}) in five ways of writing it (chains of 2 also under each of 16 sets of variable names); repeated patterns of up to 64 frames; every form of the expr! macro; every builder with all arguments of an alphabet, coefficient lists up to length 5 (patterned up to 129); every history of up to 5 simplify/substitute/evaluate steps (3 for all terms of height 2 over {x,y,2}) for every split of the variables into parameters, given, both and missing; every sequence of up to 4 additions to a constant pool");
}
