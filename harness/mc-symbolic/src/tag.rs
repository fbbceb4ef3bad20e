//! C15 and C19: terms written against the two tagless interfaces, under every interpreter.

use crate::ast::*;
use crate::jit;
use crate::parse::Lang;
use crate::print::{number_grid, reads_back};
use crate::sym::*;
use mc::{Check, quiet};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

const STAT: [U; 2] = [U::Logistic, U::Softplus];

/// The interpretation of a term for one of the two tagless crates.
macro_rules! interpretation {
    ($name:ident, $tl:path) => {
        pub mod $name {
            use crate::ast::{B, T, U};
            use $tl as tl;
            use tl::{MathExpr, StatisticalExpr};
            pub fn f64s<E: StatisticalExpr>(t: &T, leaf: &dyn Fn(u8) -> E::Repr<f64>) -> E::Repr<f64> {
                let go = |t: &T| f64s::<E>(t, leaf);
                match t {
                    T::C(x) => E::constant(*x),
                    T::V(i) => leaf(*i),
                    T::U(o, a) => {
                        let a = go(a);
                        match o {
                            U::Ln => E::ln(a),
                            U::Exp => E::exp(a),
                            U::Sqrt => E::sqrt(a),
                            U::Sin => E::sin(a),
                            U::Cos => E::cos(a),
                            U::Neg => E::neg(a),
                            U::Logistic => E::logistic(a),
                            U::Softplus => E::softplus(a),
                        }
                    }
                    T::B(o, a, b) => {
                        let (a, b) = (go(a), go(b));
                        match o {
                            B::Add => E::add(a, b),
                            B::Sub => E::sub(a, b),
                            B::Mul => E::mul(a, b),
                            B::Div => E::div(a, b),
                            B::Pow => E::pow(a, b),
                        }
                    }
                }
            }
            pub fn f32s(t: &T, env: &crate::ast::Env) -> f32 {
                type E = tl::DirectEval;
                let go = |t: &T| f32s(t, env);
                match t {
                    T::C(x) => <E as MathExpr>::constant(*x as f32),
                    T::V(i) => E::var("v", env[*i as usize].unwrap() as f32),
                    T::U(o, a) => {
                        let a = go(a);
                        match o {
                            U::Ln => <E as MathExpr>::ln(a),
                            U::Exp => <E as MathExpr>::exp(a),
                            U::Sqrt => <E as MathExpr>::sqrt(a),
                            U::Sin => <E as MathExpr>::sin(a),
                            U::Cos => <E as MathExpr>::cos(a),
                            U::Neg => <E as MathExpr>::neg(a),
                            U::Logistic => <E as StatisticalExpr>::logistic(a),
                            U::Softplus => <E as StatisticalExpr>::softplus(a),
                        }
                    }
                    T::B(o, a, b) => {
                        let (a, b) = (go(a), go(b));
                        match o {
                            B::Add => <E as MathExpr>::add(a, b),
                            B::Sub => <E as MathExpr>::sub(a, b),
                            B::Mul => <E as MathExpr>::mul(a, b),
                            B::Div => <E as MathExpr>::div(a, b),
                            B::Pow => <E as MathExpr>::pow(a, b),
                        }
                    }
                }
            }
            pub fn sigmoid<E: StatisticalExpr>(t: &T, leaf: &dyn Fn(u8) -> E::Repr<f64>) -> E::Repr<f64> {
                E::sigmoid(f64s::<E>(t, leaf))
            }
            /// The value and the printed text.
            pub fn run(t: &T, env: &crate::ast::Env) -> f64 {
                f64s::<tl::DirectEval>(t, &|i| tl::DirectEval::var(crate::ast::var_names()[i as usize], env[i as usize].unwrap()))
            }
            pub fn run_sigmoid(t: &T, env: &crate::ast::Env) -> f64 {
                sigmoid::<tl::DirectEval>(t, &|i| tl::DirectEval::var(crate::ast::var_names()[i as usize], env[i as usize].unwrap()))
            }
            pub fn text(t: &T) -> String {
                f64s::<tl::PrettyPrint>(t, &|i| tl::PrettyPrint::var(crate::ast::var_names()[i as usize]))
            }
            pub fn text_sigmoid(t: &T) -> String {
                sigmoid::<tl::PrettyPrint>(t, &|i| <tl::PrettyPrint as MathExpr>::var::<f64>(crate::ast::var_names()[i as usize]))
            }
            /// Operands of different types keep their order.
            pub fn typed() -> Vec<(String, bool)> {
                use std::fmt;
                use std::ops::{Add, Div, Mul, Sub};
                #[derive(Clone, Default)]
                struct L(i64);
                #[derive(Clone, Default)]
                struct R(i64);
                #[derive(Clone, Default, PartialEq)]
                struct O(char, i64, i64);
                impl fmt::Display for L {
                    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "l{}", self.0)
                    }
                }
                impl fmt::Display for R {
                    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "r{}", self.0)
                    }
                }
                impl fmt::Display for O {
                    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        write!(f, "{}{}{}", self.0, self.1, self.2)
                    }
                }
                macro_rules! op {
                    ($t:ident, $m:ident, $c:expr) => {
                        impl $t<R> for L {
                            type Output = O;
                            fn $m(self, r: R) -> O {
                                O($c, self.0, r.0)
                            }
                        }
                    };
                }
                op!(Add, add, '+');
                op!(Sub, sub, '-');
                op!(Mul, mul, '*');
                op!(Div, div, '/');
                type D = tl::DirectEval;
                type P = tl::PrettyPrint;
                let mut out = vec![];
                for a in -1..2 {
                    for b in -1..2 {
                        let (l, r) = (|| <D as MathExpr>::constant(L(a)), || <D as MathExpr>::constant(R(b)));
                        out.push((format!("typed|{a}+{b}"), <D as MathExpr>::add::<L, R, O>(l(), r()) == O('+', a, b)));
                        out.push((format!("typed|{a}-{b}"), <D as MathExpr>::sub::<L, R, O>(l(), r()) == O('-', a, b)));
                        out.push((format!("typed|{a}*{b}"), <D as MathExpr>::mul::<L, R, O>(l(), r()) == O('*', a, b)));
                        out.push((format!("typed|{a}/{b}"), <D as MathExpr>::div::<L, R, O>(l(), r()) == O('/', a, b)));
                        let s = <P as MathExpr>::sub::<L, R, O>(<P as MathExpr>::constant(L(a)), <P as MathExpr>::constant(R(b)));
                        let (i, j) = (s.find(&format!("l{a}")), s.find(&format!("r{b}")));
                        out.push((format!("typed|print {a}-{b}: {s}"), i.is_some() && i < j));
                    }
                }
                out
            }
        }
    };
}
/// The evaluators of the distribution crates, which interpret the same interface.
macro_rules! evaluator {
    ($name:ident, $e:ty, $t:ty, $var:expr) => {
        fn $name(t: &T, env: &Env) -> f64 {
            fn go(t: &T, env: &Env) -> $t {
                use measures_exponential_family::exponential_family::final_tagless::ExponentialFamilyExpr;
                type E = $e;
                match t {
                    T::C(x) => <E as MathExpr>::constant(*x as $t),
                    T::V(i) => $var(var_names()[*i as usize], env[*i as usize].unwrap()),
                    T::U(o, a) => {
                        let a = go(a, env);
                        match o {
                            U::Ln => <E as MathExpr>::ln(a),
                            U::Exp => <E as MathExpr>::exp(a),
                            U::Sqrt => <E as MathExpr>::sqrt(a),
                            U::Sin => <E as MathExpr>::sin(a),
                            U::Cos => <E as MathExpr>::cos(a),
                            U::Neg => <E as MathExpr>::neg(a),
                            U::Logistic => <E as ExponentialFamilyExpr>::logistic(a),
                            U::Softplus => <E as ExponentialFamilyExpr>::softplus(a),
                        }
                    }
                    T::B(o, a, b) => {
                        let (a, b) = (go(a, env), go(b, env));
                        match o {
                            B::Add => <E as MathExpr>::add(a, b),
                            B::Sub => <E as MathExpr>::sub(a, b),
                            B::Mul => <E as MathExpr>::mul(a, b),
                            B::Div => <E as MathExpr>::div(a, b),
                            B::Pow => <E as MathExpr>::pow(a, b),
                        }
                    }
                }
            }
            f64::from(go(t, env))
        }
    };
}
use measures_distributions::distributions::final_tagless::DistributionEval;
use measures_exponential_family::exponential_family::final_tagless::ExpFamEval;
evaluator!(dist64, DistributionEval, f64, DistributionEval::var);
evaluator!(dist32, DistributionEval, f32, |_: &str, x: f64| x as f32);
evaluator!(fam64, ExpFamEval, f64, ExpFamEval::var);
evaluator!(fam32, ExpFamEval, f32, |_: &str, x: f64| x as f32);
evaluator!(direct64, symbolic_math::final_tagless::DirectEval, f64, symbolic_math::final_tagless::DirectEval::var);
type Eval = fn(&T, &Env) -> f64;
const OTHERS: [(&str, Eval, Option<Eval>); 3] = [("distribution-eval", dist64, Some(dist32)), ("exp-fam-eval", fam64, Some(fam32)), ("direct-exp-fam", direct64, None)];

interpretation!(sm, symbolic_math::final_tagless);
interpretation!(mj, mathjit::final_tagless);

/// The crate under test.
#[derive(Clone, Copy)]
struct Tl {
    id: &'static str,
    run: fn(&T, &Env) -> f64,
    run32: fn(&T, &Env) -> f32,
    run_sigmoid: fn(&T, &Env) -> f64,
    text: fn(&T) -> String,
    text_sigmoid: fn(&T) -> String,
    typed: fn() -> Vec<(String, bool)>,
    others: &'static [(&'static str, Eval, Option<Eval>)],
}
const SM: Tl = Tl { id: "tagless", run: sm::run, run32: sm::f32s, run_sigmoid: sm::run_sigmoid, text: sm::text, text_sigmoid: sm::text_sigmoid, typed: sm::typed, others: &OTHERS };
const MJ: Tl = Tl { id: "mathjit", run: mj::run, run32: mj::f32s, run_sigmoid: mj::run_sigmoid, text: mj::text, text_sigmoid: mj::text_sigmoid, typed: mj::typed, others: &[] };

/// The meaning in single precision: the value with the error of every rounding to 24 bits.
fn ev32(t: &T, env: &Env) -> R {
    let r = match t {
        T::C(x) => {
            let y = f64::from(*x as f32);
            return if y == *x { R::Val(y, 0.0) } else { R::Unsure };
        }
        T::V(i) => {
            let x = env[*i as usize].unwrap();
            // outside the range of the type
            if x != 0.0 && !(1e-30..1e30).contains(&x.abs()) {
                return R::Unsure;
            }
            return R::Val(f64::from(x as f32), 0.0);
        }
        T::U(U::Neg, a) => return unary(U::Neg, ev32(a, env)),
        T::U(o, a) => match ev32(a, env) {
            R::Val(x, _) if x.abs() > 80.0 && matches!(o, U::Exp | U::Logistic | U::Softplus) => return R::Unsure,
            r => unary(*o, r),
        },
        T::B(o, a, b) => binary(*o, ev32(a, env), ev32(b, env)),
    };
    match r {
        R::Val(v, _) if v.abs() > 1e30 || (v != 0.0 && v.abs() < 1e-30) => R::Unsure,
        R::Val(v, e) => {
            let extra = match t {
                T::U(U::Softplus, _) => 3e-7 * (1.0 + v.abs()),
                T::U(U::Logistic, _) => 5e-7 * v.abs(),
                // sin and cos near a zero lose digits of the argument only
                _ => 1.3e-7 * v.abs(),
            };
            R::Val(v, e + extra)
        }
        o => o,
    }
}

fn env_list<'a>(t: &T, all: &'a [Env]) -> &'a [Env] {
    let vs = var_set(t);
    if vs[1] || all.len() > XS.len() && all[0][1].is_none() {
        all
    } else if vs[0] {
        &all[..XS.len()]
    } else {
        &all[..1]
    }
}

fn judge(k: &mut Check, key: impl Fn() -> String, want: R, got: Result<f64, String>) {
    match (want, got) {
        (R::Val(v, e), Ok(g)) => match agree(v, e, g, e) {
            Agree::Yes => {
                k.pass(g);
                k.sample(|| format!("{} = {g:?}", key()));
            }
            Agree::Skip => k.outside += 1,
            Agree::No => {
                k.transitions += 1;
                k.fail(&key(), &format!("evaluates to {g:?}, the value is {v:?}"));
            }
        },
        (R::Val(..), Err(p)) => {
            k.transitions += 1;
            k.fail(&key(), &format!("panic: {p}"));
        }
        _ => k.outside += 1,
    }
}

/// Direct evaluation in both precisions and the printed text.
fn one(k: &mut Check, tl: Tl, t: &Rc<T>, all: &[Env]) {
    let key = || format!("{}|{}", tl.id, show(t));
    k.tick(key);
    k.state();
    k.trace();
    let list = env_list(t, all);
    for env in list {
        judge(k, || format!("{}|direct|{}", key(), show_env(env)), ev(t, env), quiet(|| (tl.run)(t, env)));
        let want = ev32(t, env);
        if let R::Val(v, e) = want
            && e <= 1e-2 * v.abs().max(1e-3)
        {
            match quiet(|| (tl.run32)(t, env)) {
                Ok(g) if (f64::from(g) - v).abs() <= 4.0 * e + 1e-35 => k.pass(0.0),
                g => {
                    k.transitions += 1;
                    k.fail(&format!("{}|f32|{}", key(), show_env(env)), &format!("evaluates to {g:?}, the value is {v:?}"));
                }
            }
        }
        for (id, run, run32) in tl.others {
            judge(k, || format!("{id}|{}|{}", show(t), show_env(env)), ev(t, env), quiet(|| run(t, env)));
            if let (R::Val(v, e), Some(run32)) = (want, run32)
                && e <= 1e-2 * v.abs().max(1e-3)
            {
                match quiet(|| run32(t, env)) {
                    Ok(g) if (g - v).abs() <= 4.0 * e + 1e-35 => k.pass(0.0),
                    g => {
                        k.transitions += 1;
                        k.fail(&format!("{id}|f32|{}|{}", show(t), show_env(env)), &format!("evaluates to {g:?}, the value is {v:?}"));
                    }
                }
            }
        }
    }
    match quiet(|| (tl.text)(t)) {
        Ok(s) => reads_back(k, &format!("{}-print", tl.id), t, &s, Lang::Plain, list),
        Err(p) => k.fail(&key(), &format!("printing panics: {p}")),
    }
}

/// Every term of the bounds through direct evaluation and printing.
fn direct_and_print(k: &mut Check, tl: Tl, th: bool) {
    let all = envs();
    let leaves = || vec![v(0), v(1), c(0.5), c(1.0), c(2.0), c(-1.0), c(-2.5)];
    let n1 = height1(&leaves()).len();
    k.parallel(n1 + 1, |k, part| {
        let l = leaves();
        let mut h1 = height1(&l);
        for o in STAT {
            for a in &l {
                h1.push(un(o, a));
            }
        }
        if part == n1 {
            for t in &l {
                one(k, tl, t, &all);
            }
            for o in STAT {
                for a in &h1 {
                    one(k, tl, &un(o, a), &all);
                    for env in env_list(a, &all) {
                        let t = un(U::Logistic, a);
                        judge(k, || format!("{}|sigmoid|{}|{}", tl.id, show(a), show_env(env)), ev(&t, env), quiet(|| (tl.run_sigmoid)(a, env)));
                    }
                    if o == U::Logistic {
                        match quiet(|| (tl.text_sigmoid)(a)) {
                            Ok(s) => reads_back(k, &format!("{}-print-sigmoid", tl.id), &un(o, a), &s, Lang::Plain, env_list(a, &all)),
                            Err(p) => k.fail(&format!("{}|sigmoid|{}", tl.id, show(a)), &format!("printing panics: {p}")),
                        }
                    }
                }
            }
            for (key, ok) in (tl.typed)() {
                k.require(&format!("{}|{key}", tl.id), ok, || "operands are not combined as left operator right".into());
            }
            return;
        }
        let a = &h1[part];
        for o in US {
            one(k, tl, &un(o, a), &all);
        }
        for o in BS {
            for b in &h1 {
                one(k, tl, &bi(o, a, b), &all);
                if size(b) > 0 && matches!(**b, T::U(U::Logistic | U::Softplus, _)) {
                    one(k, tl, &bi(o, b, a), &all);
                }
            }
        }
    });
    k.parallel(chain_parts(5), |k, part| {
        let l = vec![v(0), v(1), c(1.0), c(-1.0), c(2.0)];
        chains_part(&l, 3, part, &mut |t| one(k, tl, t, &all));
    });
    if th {
        for set in [[-2.0, 3.0], [-1.0, 0.5]] {
            k.parallel(chain_parts(3), |k, part| {
                let l = vec![v(0), c(set[0]), c(set[1])];
                chains_part(&l, 4, part, &mut |t| one(k, tl, t, &all));
            });
        }
    }
    long(k, &all, |k, t| one(k, tl, t, &all));
    // every single operation over many magnitudes
    k.parallel(64, |k, part| {
        let mut w = single_operations(&few_values());
        w.extend(STAT.map(|o| un(o, &v(0))));
        w.push(un(U::Logistic, &un(U::Neg, &v(0))));
        for t in w.iter().skip(part).step_by(64) {
            one(k, tl, t, &value_envs(t));
        }
        if part == 0 {
            for x in values() {
                let (x, env) = (v(0), env1(x));
                let t = un(U::Logistic, &x);
                judge(k, || format!("{}|sigmoid|{}|{}", tl.id, show(&x), show_env(&env)), ev(&t, &env), quiet(|| (tl.run_sigmoid)(&x, &env)));
            }
        }
    });
    // near the ends of the number type
    let far = far_envs();
    k.parallel(FAR.len(), |k, i| {
        chains(&[v(0), v(1), c(FAR[i])], 2, &mut |t| one(k, tl, t, &far));
        for b in &FAR[i + 1..] {
            chains(&[v(0), c(FAR[i]), c(*b)], 2, &mut |t| one(k, tl, t, &far));
        }
    });
    // names of other shapes
    renamed(1..IDENTIFIERS, || {
        k.parallel(chain_parts(4), |k, part| {
            chains_part(&[v(0), v(1), c(2.0), c(-1.0)], 2, part, &mut |t| one(k, tl, t, &all));
        });
    });
    // constants print precisely
    let grid = number_grid(if th { 1 } else { 8 });
    k.parallel(32, |k, part| {
        for x in grid.iter().skip(part).step_by(32) {
            for q in [*x, -*x] {
                let t = c(q);
                let s = quiet(|| (tl.text)(&t)).unwrap_or_default();
                k.state();
                k.require(&format!("{}|constant|{q:?}", tl.id), s.parse::<f64>() == Ok(q) || s.trim_matches(['(', ')']).parse::<f64>() == Ok(q), || format!("printed as {s:?}"));
                if q.abs() < 1e150 && q.abs() > 1e-150 {
                    for t in [bi(B::Mul, &t, &v(0)), bi(B::Sub, &v(0), &t), bi(B::Pow, &t, &v(0)), bi(B::Pow, &v(0), &t), un(U::Neg, &t)] {
                        one(k, tl, &t, &all[..XS.len()]);
                    }
                }
            }
        }
    });
}

// ---- native code ------------------------------------------------------------------------------------

use symbolic_math::GeneralJITFunction;
use symbolic_math::final_tagless::{JITEval, JITRepr, MathExpr};

fn repr(t: &T) -> JITRepr {
    sm::f64s::<JITEval>(t, &|i| JITEval::var(var_names()[i as usize]))
}

fn jit_breadth(k: &mut Check, t: &Rc<T>, all: &[Env]) {
    let key = || format!("tagless-jit|{}", show(t));
    k.at(&key(), true);
    k.state();
    let vs = var_set(t);
    let used: Vec<usize> = (0..4).filter(|i| vs[*i]).collect();
    let made = quiet(|| {
        let r = repr(t);
        let mut got: Vec<String> = r.collect_variables().into_iter().collect();
        got.sort();
        (got, r.count_constants(), JITEval::compile(r))
    });
    let f = match made {
        Err(p) => return k.fail(&key(), &format!("panic: {p}")),
        Ok((got, _, f)) => {
            let mut want = jit::names(&used);
            want.sort();
            k.require(&key(), got == want, || format!("reports the variables {got:?}"));
            match f {
                Ok(f) => f,
                Err(e) => return k.fail(&key(), &format!("does not compile: {e}")),
            }
        }
    };
    k.trace();
    // compile() takes its inputs in alphabetical order
    let mut order = used.clone();
    order.sort_by_key(|i| var_names()[*i]);
    for env in env_list(t, all) {
        let d: Vec<f64> = order.iter().map(|i| env[*i].unwrap()).collect();
        jit::judge(k, || format!("{}|{}", key(), show_env(env)), ev(t, env), jit::call(&f, &d, &[]));
    }
}

/// The compile function made for exactly this split, and the general one otherwise.
fn shaped(t: &T, data: &[usize], params: &[usize], constants: &HashMap<String, f64>) -> Result<Result<GeneralJITFunction, symbolic_math::JITError>, String> {
    let (d, p) = (jit::names(data), jit::names(params));
    quiet(|| {
        let r = repr(t);
        match (d.len(), p.len(), constants.is_empty()) {
            (1, 0, true) => JITEval::compile_single_var(r, &d[0]),
            (1, 1, true) => JITEval::compile_data_param(r, &d[0], &p[0]),
            (1, _, true) => JITEval::compile_data_params(r, &d[0], &p),
            (_, _, true) => JITEval::compile_with_signature(r, &d, &p),
            _ => JITEval::compile_with_constants(r, &d, &p, constants),
        }
    })
}

fn general(t: &T, data: &[usize], params: &[usize], constants: &HashMap<String, f64>) -> Result<Result<GeneralJITFunction, symbolic_math::JITError>, String> {
    let (d, p) = (jit::names(data), jit::names(params));
    quiet(|| JITEval::compile_with_constants(repr(t), &d, &p, constants))
}

fn by_signature(t: &T, data: &[usize], params: &[usize], constants: &HashMap<String, f64>) -> Result<Result<GeneralJITFunction, symbolic_math::JITError>, String> {
    let (d, p) = (jit::names(data), jit::names(params));
    quiet(|| {
        // constants written into the term instead
        let r = sm::f64s::<JITEval>(t, &|i| match constants.get(var_names()[i as usize]) {
            Some(q) => JITEval::constant(*q),
            None => <JITEval as MathExpr>::var::<f64>(var_names()[i as usize]),
        });
        JITEval::compile_with_signature(r, &d, &p)
    })
}

fn native(k: &mut Check) {
    let th = k.thorough();
    let all = envs();
    let four: Vec<Env> = all.iter().map(|e| [e[0], e[1], e[0].map(|x| 2.0 - x), e[1].map(|y| y * 0.5 + 7.0)]).collect();
    #[allow(non_snake_case)]
    let S: usize = if th { 120 } else { 48 };
    k.shards(S, Duration::from_secs(60), |k, shard| {
        let mut n = 0usize;
        let mut mine = || {
            n += 1;
            n % S == shard
        };
        let l5 = vec![v(0), v(1), c(2.0), c(-1.0), c(0.5)];
        let mut h1 = height1(&l5);
        for t in grow(&[], &l5) {
            h1.push(un(U::Logistic, &t));
            h1.push(un(U::Softplus, &t));
        }
        h1.truncate(if th { h1.len() } else { 170 + 5 });
        for a in &h1 {
            for o in US.into_iter().chain(STAT) {
                if mine() {
                    jit_breadth(k, &un(o, a), &all);
                }
            }
            for o in BS {
                for b in &h1 {
                    if mine() {
                        jit_breadth(k, &bi(o, a, b), &all);
                    }
                }
            }
        }
        let l7 = vec![v(0), v(1), c(0.0), c(1.0), c(3.0), c(-1.0), c(0.5)];
        chains(&l7, 2, &mut |t| {
            if mine() {
                jit_breadth(k, t, &all);
            }
        });
        chains(&[v(1), c(2.0)], if th { 4 } else { 3 }, &mut |t| {
            if mine() {
                jit_breadth(k, t, &all);
            }
        });
        for q in POOL {
            chains(&[v(0), c(q)], 2, &mut |t| {
                if mine() {
                    jit_breadth(k, t, &all);
                }
            });
        }
        for i in -40..=40 {
            for base in [v(0), bi(B::Add, &v(0), &c(1.0)), un(U::Exp, &v(0)), v(1), c(3.0)] {
                if mine() {
                    jit_breadth(k, &bi(B::Pow, &base, &c(f64::from(i) * 0.25)), &all);
                }
            }
        }
        let mut w = single_operations(&few_values());
        w.extend(STAT.map(|o| un(o, &v(0))));
        for t in w {
            if mine() {
                jit_breadth(k, &t, &value_envs(&t));
            }
        }
        let far = far_envs();
        for q in FAR {
            chains(&[v(0), v(1), c(q)], 2, &mut |t| {
                if mine() && somewhere(t, &far) {
                    jit_breadth(k, t, &far);
                }
            });
        }
        for t in long_list(th) {
            if mine() && somewhere(&t, &all) {
                jit_breadth(k, &t, &all);
            }
        }
        for (i, t) in jit::asymmetric().iter().enumerate() {
            if i % S == shard {
                jit::bindings(k, "tagless-bind", t, &general);
            }
            if (i + 10) % S == shard {
                jit::bindings(k, "tagless-bind-shaped", t, &shaped);
            }
            if (i + 20) % S == shard {
                jit::bindings(k, "tagless-bind-inlined", t, &by_signature);
            }
        }
        // the names of the variables do not matter
        let mut turn = 0usize;
        renamed(1..SETS, || {
            for t in grow(&[v(0), v(1)], &height1(&[v(0), v(1)])) {
                turn += 1;
                if turn % S == shard {
                    jit_breadth(k, &t, &all);
                }
            }
            for t in jit::asymmetric().iter().take(4) {
                turn += 1;
                if turn % S == shard {
                    jit_breadth(k, t, &four);
                }
            }
            for (i, t) in jit::asymmetric().iter().enumerate().skip(3).take(3) {
                turn += 1;
                if turn % S == shard {
                    jit::bindings(k, "tagless-bind", t, if i == 3 { &general } else if i == 4 { &shaped } else { &by_signature });
                }
            }
        });
        // every constant survives
        for q in number_grid(if th { 8 } else { 32 }) {
            for q in [q, -q] {
                if mine() {
                    let key = format!("tagless-jit-constant|{q:?}");
                    k.at(&key, true);
                    k.state();
                    let f = quiet(|| JITEval::compile(JITEval::constant(q)));
                    let got = match f {
                        Ok(Ok(f)) => jit::call(&f, &[], &[]),
                        Ok(Err(e)) => Err(format!("does not compile: {e}")),
                        Err(p) => Err(p),
                    };
                    k.require(&key, got == Ok(q), || format!("compiled to {got:?}"));
                }
            }
        }
    });
}

pub fn c15() {
    let mut k = Check::new("C15");
    let th = k.thorough();
    direct_and_print(&mut k, SM, th);
    native(&mut k);
    k.extra_s("oracle", "the reference meaning of the term with a running error bound; printed text through the checker's own reader; native code in worker processes");
    k.finish("every term of height 2 over {x,y,1/2,1,2,-1,-5/2} with the statistical operators at height 1 and on top, every chain of 3 frames over {x,y,1,-1,2}: direct evaluation in f64 and f32, printing; every operation with 63 constants at 700 values and at pairs of 63 values; native code for every term of height 2 over {x,y,2,-1,1/2}, chains, 34 constants, 81 exponents; every binding of four variables in every order for 10 terms through three compile routes; constants over the exponent range; 16 sets of variable names; 13 assignments");
}

// ---- mathjit ------------------------------------------------------------------------------------------

use mathjit::expr::Expr as MExpr;
use mathjit::polynomial;
use mathjit::{DirectEval as MD, MathExpr as MMathExpr, PrettyPrint as MP};

/// sum of c_i x^i, and the sum of the magnitudes of its terms (the scale of rounding)
fn poly(cs: &[f64], x: f64) -> (f64, f64) {
    let (mut s, mut m, mut p) = (0.0, 0.0, 1.0);
    for c in cs {
        s += c * p;
        m += (c * p).abs();
        p *= x;
    }
    (s, m)
}

fn poly_term(cs: &[f64]) -> Rc<T> {
    let mut t: Option<Rc<T>> = None;
    for (i, q) in cs.iter().enumerate() {
        let m = bi(B::Mul, &c(*q), &bi(B::Pow, &v(0), &c(i as f64)));
        t = Some(t.map_or(m.clone(), |t| bi(B::Add, &t, &m)));
    }
    t.unwrap_or(c(0.0))
}

fn roots_term(rs: &[f64]) -> Rc<T> {
    rs.iter().fold(c(1.0), |t, r| bi(B::Mul, &t, &bi(B::Sub, &v(0), &c(*r))))
}

fn near(k: &mut Check, key: &dyn Fn() -> String, got: Result<f64, String>, want: f64, mag: f64, eps: f64) {
    let ok = got.as_ref().is_ok_and(|g| (g - want).abs() <= eps * mag + 1e-300);
    if ok {
        k.pass(want);
    } else {
        k.transitions += 1;
        k.fail(&key(), &format!("{got:?}, the polynomial has the value {want:?}"));
    }
}

const PX: [f64; 9] = [0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 7.5, 1e3];

fn polynomials(k: &mut Check, cs: &[f64], print: bool) {
    k.tick(|| format!("poly|{cs:?}"));
    k.state();
    k.trace();
    let n = cs.len() as f64;
    let ds: Vec<f64> = cs.iter().enumerate().skip(1).map(|(i, q)| q * i as f64).collect();
    for x in PX {
        let key = |what: &str| format!("{what}|{cs:?}|x={x:?}");
        let (w, m) = poly(cs, x);
        // no power overflows
        if cs.len() as f64 * (x.abs() + 4.0).log10() > 300.0 {
            k.outside += 1;
            continue;
        }
        let eps = 4.0 * (n + 2.0) * f64::EPSILON;
        near(k, &|| key("horner"), quiet(|| polynomial::horner::<MD, f64>(cs, MD::var("x", x))), w, m, eps);
        near(k, &|| key("horner-expr"), quiet(|| polynomial::horner_expr::<MD, f64>(cs, MD::var("x", x))), w, m, eps);
        let (dw, dm) = poly(&ds, x);
        near(k, &|| key("derivative"), quiet(|| polynomial::horner_derivative::<MD, f64>(cs, MD::var("x", x))), dw, dm, eps);
        // product over the roots: rounding is relative to the factors
        let (mut rw, mut rm) = (1.0, 1.0);
        for r in cs {
            rw *= x - r;
            rm *= x.abs() + r.abs();
        }
        near(k, &|| key("roots"), quiet(|| polynomial::from_roots::<MD, f64>(cs, MD::var("x", x))), rw, rm, eps);
        if m < 1e30 && dm < 1e30 && rm < 1e30 {
            let c32: Vec<f32> = cs.iter().map(|q| *q as f32).collect();
            let e32 = 4.0 * (n + 2.0) * f64::from(f32::EPSILON);
            let x32 = x as f32;
            near(k, &|| key("horner-f32"), quiet(|| f64::from(polynomial::horner::<MD, f32>(&c32, x32))), w, m, e32);
            near(k, &|| key("horner-expr-f32"), quiet(|| f64::from(polynomial::horner_expr::<MD, f32>(&c32, x32))), w, m, e32);
            near(k, &|| key("derivative-f32"), quiet(|| f64::from(polynomial::horner_derivative::<MD, f32>(&c32, x32))), dw, dm, e32);
            near(k, &|| key("roots-f32"), quiet(|| f64::from(polynomial::from_roots::<MD, f32>(&c32, x32))), rw, rm, e32);
        }
        if x.fract() == 0.0 && m < 1e17 && dm < 1e17 && rm < 1e17 && cs.iter().all(|q| q.fract() == 0.0) {
            let ci: Vec<i64> = cs.iter().map(|q| *q as i64).collect();
            let xi = x as i64;
            let exact = |a: &[i64]| a.iter().rev().fold(0i128, |s, q| s * i128::from(xi) + i128::from(*q));
            let di: Vec<i64> = ci.iter().enumerate().skip(1).map(|(i, q)| q * i as i64).collect();
            let ri = ci.iter().fold(1i128, |s, r| s * i128::from(xi - r));
            for (what, got, want) in [
                ("horner-i64", quiet(|| polynomial::horner::<MD, i64>(&ci, xi)), exact(&ci)),
                ("horner-expr-i64", quiet(|| polynomial::horner_expr::<MD, i64>(&ci, xi)), exact(&ci)),
                ("derivative-i64", quiet(|| polynomial::horner_derivative::<MD, i64>(&ci, xi)), exact(&di)),
                ("roots-i64", quiet(|| polynomial::from_roots::<MD, i64>(&ci, xi)), ri),
            ] {
                k.require(&key(what), got.as_ref().is_ok_and(|g| i128::from(*g) == want), || format!("{got:?}, the polynomial has the value {want}"));
            }
        }
    }
    if print {
        let e: Vec<Env> = PX.iter().map(|x| env1(*x)).collect();
        let x = || MP::var("x");
        let strs: Vec<String> = cs.iter().map(|q| <MP as MMathExpr>::constant(*q)).collect();
        for (what, text, t) in [
            ("horner-print", quiet(|| polynomial::horner::<MP, f64>(cs, x())), poly_term(cs)),
            ("horner-expr-print", quiet(|| polynomial::horner_expr::<MP, f64>(&strs, x())), poly_term(cs)),
            ("derivative-print", quiet(|| polynomial::horner_derivative::<MP, f64>(cs, x())), poly_term(&ds)),
            ("roots-print", quiet(|| polynomial::from_roots::<MP, f64>(cs, x())), roots_term(cs)),
        ] {
            match text {
                Ok(s) => reads_back(k, &format!("{what}|{cs:?}"), &t, &s, Lang::Plain, &e),
                Err(p) => k.fail(&format!("{what}|{cs:?}"), &format!("panic: {p}")),
            }
        }
    }
}

/// Coefficients that are expressions themselves.
fn symbolic_coefficients(k: &mut Check) {
    let pool = [v(0), v(1), c(2.0), bi(B::Sub, &v(1), &c(1.0)), un(U::Neg, &v(0)), bi(B::Mul, &v(0), &v(1))];
    let all = envs();
    for n in 0..=4usize {
        for s in mc::sequences(pool.len(), n) {
            for at in [v(0), bi(B::Add, &v(1), &c(0.5))] {
                let mut t: Option<Rc<T>> = None;
                for (i, j) in s.iter().enumerate() {
                    let m = bi(B::Mul, &pool[*j], &bi(B::Pow, &at, &c(i as f64)));
                    t = Some(t.map_or(m.clone(), |t| bi(B::Add, &t, &m)));
                }
                let t = t.unwrap_or(c(0.0));
                let key = format!("horner-expr|{s:?} of {}|at {}", pool.iter().map(|t| show(t)).collect::<Vec<_>>().join(","), show(&at));
                k.state();
                k.trace();
                for env in &all {
                    let got = quiet(|| {
                        let cs: Vec<f64> = s.iter().map(|j| mj::run(&pool[*j], env)).collect();
                        polynomial::horner_expr::<MD, f64>(&cs, mj::run(&at, env))
                    });
                    let cs: Vec<R> = s.iter().map(|j| ev(&pool[*j], env)).collect();
                    let R::Val(x, ex) = ev(&at, env) else {
                        k.outside += 1;
                        continue;
                    };
                    // magnitudes of all terms, one more unit for the rounding of x and the coefficients
                    let (mut w, mut m, mut p) = (0.0, 0.0, 1.0);
                    for q in &cs {
                        let R::Val(q, _) = q else { unreachable!("the coefficients are defined everywhere") };
                        w += q * p;
                        m += (q.abs() + 1.0) * (p as f64).abs().max(1.0);
                        p *= x;
                    }
                    let _ = ex;
                    near(k, &|| format!("{key}|{}", show_env(env)), got, w, m, 64.0 * f64::EPSILON);
                }
                let text = quiet(|| {
                    let cs: Vec<String> = s.iter().map(|j| mj::text(&pool[*j])).collect();
                    polynomial::horner_expr::<MP, f64>(&cs, mj::text(&at))
                });
                match text {
                    Ok(x) => reads_back(k, &format!("{key}|print"), &t, &x, Lang::Plain, &all),
                    Err(p) => k.fail(&key, &format!("panic: {p}")),
                }
            }
        }
    }
}

fn wrapper(k: &mut Check) {
    for x in POOL {
        k.state();
        k.require(&format!("wrapper|constant {x:?}"), MExpr::<MD, f64>::constant(x).into_repr() == x && *MExpr::<MD, f64>::constant(x).as_repr() == x, || "the wrapped constant differs".into());
        let s = MExpr::<MP, f64>::constant(x).into_repr();
        k.require(&format!("wrapper|printed {x:?}"), s.parse::<f64>() == Ok(x), || format!("printed as {s:?}"));
        k.require(&format!("wrapper|new {x:?}"), *MExpr::<MD, f64>::new(x).as_repr() == x && MExpr::<MD, f64>::new(x).into_repr() == x, || "the wrapped value differs".into());
    }
    for n in var_names() {
        k.state();
        let e = MExpr::<MP, f64>::var(n);
        k.require(&format!("wrapper|var {n}"), e.as_repr() == n && e.into_repr() == *n, || "the variable has another name".into());
    }
}

pub fn c19() {
    let mut k = Check::new("C19");
    let th = k.thorough();
    direct_and_print(&mut k, MJ, true);
    if th {
        let all = envs();
        k.parallel(chain_parts(4), |k, part| {
            let l = vec![v(0), v(1), c(-1.5), c(4.0)];
            chains_part(&l, 4, part, &mut |t| one(k, MJ, t, &all));
        });
    }
    let vals = [-2.0, -1.0, 0.0, 1.0, 3.0, 0.5];
    k.parallel(vals.len() * vals.len(), |k, part| {
        if part == 0 {
            polynomials(k, &[], true);
            for a in vals {
                polynomials(k, &[a], true);
            }
            symbolic_coefficients(k);
            wrapper(k);
            // long lists
            for n in (2..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]) {
                for s in 1..=6usize {
                    let cs: Vec<f64> = (0..n).map(|i| ((i * s) % 7) as f64 - 3.0).collect();
                    polynomials(k, &cs, n < 20);
                }
            }
        }
        for n in 0..=if th { 6 } else { 5 } {
            for s in mc::sequences(vals.len(), n) {
                let mut cs = vec![vals[part / vals.len()], vals[part % vals.len()]];
                cs.extend(s.iter().map(|i| vals[*i]));
                polynomials(k, &cs, cs.len() <= 4);
            }
        }
    });
    k.extra_s("oracle", "the reference meaning of the term; sums of powers for polynomials; exact integers; the checker's own reader");
    k.finish("every term of height 2 over {x,y,1/2,1,2,-1,-5/2} with the statistical operators at height 1 and on top, every chain of 3 frames over {x,y,1,-1,2}: direct evaluation in f64 and f32, printing; every operation with 63 constants at 700 values and at pairs of 63 values; every chain of 4 frames over {x,-2,3} and {x,-1,1/2} (thorough also {x,y,-3/2,4}); every coefficient and root list of length 0..7 over six values (thorough: 0..8) and patterned lists up to 40 and around powers of two up to 257, at 9 points in f64, f32 and i64, printed to length 4; every list of up to 4 symbolic coefficients over 6 terms; the expression wrapper");
}
