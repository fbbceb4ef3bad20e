//! Terms <-> the library's `Expr`, and C11 (simplify), C12 (e-graph).

use crate::ast::*;
use mc::{Check, quiet};
use std::collections::HashMap;
use std::rc::Rc;
use symbolic_math::Expr;

pub fn to_expr(t: &T) -> Expr {
    match t {
        T::C(x) => Expr::Const(*x),
        T::V(i) => Expr::Var(var_names()[*i as usize].to_string()),
        T::U(o, a) => {
            let a = Box::new(to_expr(a));
            match o {
                U::Ln => Expr::Ln(a),
                U::Exp => Expr::Exp(a),
                U::Sqrt => Expr::Sqrt(a),
                U::Sin => Expr::Sin(a),
                U::Cos => Expr::Cos(a),
                U::Neg => Expr::Neg(a),
                U::Logistic => Expr::Div(Box::new(Expr::Const(1.0)), Box::new(Expr::Add(Box::new(Expr::Const(1.0)), Box::new(Expr::Exp(Box::new(Expr::Neg(a))))))),
                U::Softplus => Expr::Ln(Box::new(Expr::Add(Box::new(Expr::Const(1.0)), Box::new(Expr::Exp(a))))),
            }
        }
        T::B(o, a, b) => {
            let (a, b) = (Box::new(to_expr(a)), Box::new(to_expr(b)));
            match o {
                B::Add => Expr::Add(a, b),
                B::Sub => Expr::Sub(a, b),
                B::Mul => Expr::Mul(a, b),
                B::Div => Expr::Div(a, b),
                B::Pow => Expr::Pow(a, b),
            }
        }
    }
}

fn var_index(n: &str) -> Option<usize> {
    var_names().iter().position(|m| *m == n)
}

/// The meaning of an expression of the library, by the reference semantics.
pub fn ev_expr(e: &Expr, env: &Env) -> R {
    ev_expr_with(e, env, &leaf_c)
}

/// The error bound when a constant of the result is itself the rounded outcome of folding constants
/// of the term: every constant with a full mantissa may be off by a rounding.
pub fn folded_error(e: &Expr, env: &Env) -> f64 {
    let leaf = |x: f64| match leaf_c(x) {
        R::Val(x, _) if x.to_bits() & 0xf_ffff != 0 => R::Val(x, EPS * x.abs()),
        r => r,
    };
    match ev_expr_with(e, env, &leaf) {
        R::Val(_, e) => e,
        _ => 0.0,
    }
}

fn ev_expr_with(e: &Expr, env: &Env, leaf: &impl Fn(f64) -> R) -> R {
    match e {
        Expr::Const(x) => leaf(*x),
        Expr::Var(n) => match var_index(n).and_then(|i| env[i]) {
            Some(x) => R::Val(x, 0.0),
            None => R::Undef(UNBOUND),
        },
        Expr::Ln(a) => unary(U::Ln, ev_expr_with(a, env, leaf)),
        Expr::Exp(a) => unary(U::Exp, ev_expr_with(a, env, leaf)),
        Expr::Sqrt(a) => unary(U::Sqrt, ev_expr_with(a, env, leaf)),
        Expr::Sin(a) => unary(U::Sin, ev_expr_with(a, env, leaf)),
        Expr::Cos(a) => unary(U::Cos, ev_expr_with(a, env, leaf)),
        Expr::Neg(a) => unary(U::Neg, ev_expr_with(a, env, leaf)),
        Expr::Add(a, b) => binary(B::Add, ev_expr_with(a, env, leaf), ev_expr_with(b, env, leaf)),
        Expr::Sub(a, b) => binary(B::Sub, ev_expr_with(a, env, leaf), ev_expr_with(b, env, leaf)),
        Expr::Mul(a, b) => binary(B::Mul, ev_expr_with(a, env, leaf), ev_expr_with(b, env, leaf)),
        Expr::Div(a, b) => binary(B::Div, ev_expr_with(a, env, leaf), ev_expr_with(b, env, leaf)),
        Expr::Pow(a, b) => binary(B::Pow, ev_expr_with(a, env, leaf), ev_expr_with(b, env, leaf)),
    }
}

pub fn expr_vars(e: &Expr, f: &mut impl FnMut(&str)) {
    match e {
        Expr::Const(_) => {}
        Expr::Var(n) => f(n),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => expr_vars(a, f),
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => {
            expr_vars(a, f);
            expr_vars(b, f);
        }
    }
}

pub fn hmap(env: &Env) -> HashMap<String, f64> {
    (0..4).filter_map(|i| env[i].map(|x| (var_names()[i].to_string(), x))).collect()
}

pub fn show_env(env: &Env) -> String {
    let p: Vec<String> = (0..4).filter_map(|i| env[i].map(|x| format!("{}={x:?}", var_names()[i]))).collect();
    p.join(",")
}

pub fn env1(x: f64) -> Env {
    [Some(x), None, None, None]
}
pub fn env2(x: f64, y: f64) -> Env {
    [Some(x), Some(y), None, None]
}

pub const XS: [f64; 9] = [-3.0, -1.0, -0.5, 0.0, 0.3, 1.0, 2.0, 5.5, 40.0];

/// Assignments that matter to a term: one per value of x for a term in x alone, and pairs otherwise.
pub fn envs() -> Vec<Env> {
    let ys = [2.0, -0.7, 3.0, 0.0, -2.0, 0.3, 1.5, -1.0, 0.25];
    let mut v: Vec<Env> = XS.iter().zip(ys).map(|(x, y)| env2(*x, y)).collect();
    v.push(env2(0.0, 0.0));
    v.push(env2(2.0, 2.0));
    v.push(env2(-3.0, 2.5));
    v.push(env2(0.3, -4.0));
    v
}

/// Assignments near the ends of the number type, where an intermediate that the term does not have may leave it.
pub fn far_envs() -> Vec<Env> {
    let xs = [1e-300, -1e-200, 1e-150, 1e-100, 0.5, 1e100, 1e150, -1e200, 1e300];
    let ys = [1e300, 1e150, -1e-100, 1e-250, 1e200, -2.0, 1e-150, 1e-10, 1e-290];
    let mut v: Vec<Env> = xs.iter().zip(ys).map(|(x, y)| env2(*x, y)).collect();
    v.push(env2(1e-200, 1e-200));
    v.push(env2(1e200, 1e200));
    v
}

/// Constants for them.
pub const FAR: [f64; 9] = [1e-300, -1e-200, 1e-150, 1e150, -1e200, 1e300, 3.0, 3e-310, 1.5e308];

/// A grid of values over many magnitudes, all exact in single precision: whole numbers, powers of two, neighbours
/// of one, eighths, and multiples of (single-precision) quarter turns.
pub fn values() -> Vec<f64> {
    let mut v: Vec<f64> = (-64..=64).map(f64::from).collect();
    for x in [87.0, 88.0, 89.0, 100.0, 103.0, 104.0, 127.0, 128.0, 255.0, 256.0, 500.0, 700.0, 708.0, 709.0, 710.0, 744.0, 745.0, 746.0, 1000.0, 1023.0, 1024.0, 4097.0, 65536.0, 1e6, 1e9] {
        v.extend([x, -x]);
    }
    for k in -62..=62 {
        for m in [1.0, 1.5, 1.8125] {
            let x = m * 2f64.powi(k);
            v.extend([x, -x]);
        }
    }
    for k in 1..=23 {
        let d = 2f64.powi(-k);
        v.extend([1.0 + d, 1.0 - d / 2.0, -1.0 - d, d / 2.0 - 1.0]);
    }
    for k in -80..=80 {
        v.push(f64::from(k) * 0.125);
        v.push(f64::from(f64::from(k) as f32 * std::f32::consts::FRAC_PI_4));
    }
    for x in &v {
        assert!(f64::from(*x as f32) == *x);
    }
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}

/// A part of `values()` for pairs.
pub fn few_values() -> Vec<f64> {
    let mut v: Vec<f64> = (-9..=9).map(f64::from).collect();
    for x in [0.5, 0.25, 1.5, 2.5, 0.75, 0.0625, 1.0 + 2f64.powi(-20), 1.0 - 2f64.powi(-20), 12.0, 16.0, 17.0, 20.0, 31.0, 33.0, 40.0, 100.0, 1000.0, 65536.0, 2f64.powi(-20), 2f64.powi(24), 2f64.powi(40), 2f64.powi(-60)] {
        v.extend([x, -x]);
    }
    v
}

/// Every operation once on variables, and with every constant of the list on either side.
pub fn single_operations(constants: &[f64]) -> Vec<Rc<T>> {
    let (x, y) = (v(0), v(1));
    let mut w: Vec<Rc<T>> = US.iter().map(|o| un(*o, &x)).collect();
    for o in BS {
        w.push(bi(o, &x, &x));
        w.push(bi(o, &x, &y));
        for q in constants {
            w.push(bi(o, &x, &c(*q)));
            w.push(bi(o, &c(*q), &x));
        }
    }
    w
}

/// The assignments to judge a single operation at.
pub fn value_envs(t: &T) -> Vec<Env> {
    let mut mine = [false; 4];
    vars(t, &mut mine);
    if mine[1] {
        let f = few_values();
        f.iter().flat_map(|x| f.iter().map(move |y| env2(*x, *y))).collect()
    } else {
        values().into_iter().map(env1).collect()
    }
}

/// Does `s` mean what `t` means? The shared oracle of C11 and C12.
pub fn same_value(k: &mut Check, what: &str, t: &T, s: &Expr, envs: &[Env], run: bool) {
    let mut mine = [false; 4];
    vars(t, &mut mine);
    let mut foreign = None;
    expr_vars(s, &mut |n| {
        if !var_index(n).is_some_and(|i| mine[i]) {
            foreign = Some(n.to_string());
        }
    });
    if let Some(n) = foreign {
        k.fail(&format!("{what}|{}|variables", show(t)), &format!("the result {s} mentions {n}"));
    }
    let n = if mine[1] { envs.len() } else if mine[0] { XS.len() } else { 1 };
    for env in &envs[..n.min(envs.len())] {
        let R::Val(v0, e0) = ev(t, env) else {
            k.outside += 1;
            continue;
        };
        match ev_expr(s, env) {
            R::Val(v1, e1) => match agree(v0, e0, v1, e1) {
                Agree::Yes => {
                    k.pass(v0);
                    k.sample(|| format!("{what}: {} at {} = {v0:?}; result {s} = {v1:?}", show(t), show_env(env)));
                }
                Agree::Skip => k.outside += 1,
                Agree::No if !matches!(agree(v0, e0, v1, e1.max(folded_error(s, env))), Agree::No) => k.outside += 1,
                Agree::No => {
                    k.transitions += 1;
                    k.fail(&format!("{what}|{}|{}", show(t), show_env(env)), &format!("value {v0:?}, but the result {s} has value {v1:?}"));
                }
            },
            // an infinite intermediate need not reach the value: x^inf for x of 0 or 1
            R::Undef(m) if m & HARD == 0 && quiet(|| s.evaluate(&hmap(env))).is_ok_and(|g| g.is_ok_and(|g| matches!(agree(v0, e0, g, e0), Agree::Yes))) => k.pass(v0),
            R::Undef(_) => {
                k.transitions += 1;
                k.fail(&format!("{what}|{}|{}", show(t), show_env(env)), &format!("value {v0:?}, but the result {s} has no value"));
            }
            R::Unsure => k.outside += 1,
        }
        if run {
            // and the library's own evaluation of the result agrees
            match quiet(|| s.evaluate(&hmap(env))) {
                Ok(Ok(g)) => match agree(v0, e0, g, e0) {
                    Agree::Yes => k.pass(g),
                    Agree::Skip => k.outside += 1,
                    Agree::No if !matches!(agree(v0, e0, g, e0.max(folded_error(s, env))), Agree::No) => k.outside += 1,
                    Agree::No => k.fail(&format!("{what}|{}|{}|evaluate", show(t), show_env(env)), &format!("value {v0:?}, but the result {s} evaluates to {g:?}")),
                },
                Ok(Err(_)) if !matches!(ev_expr(s, env), R::Val(..)) => k.outside += 1,
                Ok(Err(err)) => k.fail(&format!("{what}|{}|{}|evaluate", show(t), show_env(env)), &format!("value {v0:?}, but the result {s} fails: {err}")),
                Err(p) => k.fail(&format!("{what}|{}|{}|evaluate", show(t), show_env(env)), &format!("panic: {p}")),
            }
        }
    }
}

/// The long terms of a tier.
pub fn long_list(th: bool) -> Vec<Rc<T>> {
    let mut leaves = vec![v(0), v(1), c(2.0), c(-0.5)];
    let lengths: &[usize] = if th { &[7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100] } else { &[9, 16, 33, 64] };
    if th {
        leaves.extend([c(-1.0), c(1.0)]);
    }
    long_terms(&leaves, lengths, 5)
}

/// Run `f` on the long terms that have a value somewhere.
pub fn long(k: &mut Check, all: &[Env], f: impl Fn(&mut Check, &Rc<T>) + Sync) {
    let th = k.thorough();
    k.parallel(64, |k, part| {
        for t in long_list(th).iter().skip(part).step_by(64) {
            if somewhere(t, all) {
                k.bump("long_terms", 1);
                f(k, t);
            }
        }
    });
}

fn simplify_one(k: &mut Check, t: &Rc<T>, envs: &[Env], run: bool) {
    k.tick(|| format!("simplify|{}", show(t)));
    k.state();
    let e = to_expr(t);
    let s = match quiet(|| e.clone().simplify()) {
        Ok(s) => s,
        Err(p) => {
            k.fail(&format!("simplify|{}", show(t)), &format!("panic: {p}"));
            return;
        }
    };
    k.trace();
    if s == e {
        // unchanged: nothing to compare but the second run
        k.transitions += 1;
        k.bump_unchanged();
        return;
    }
    same_value(k, "simplify", t, &s, envs, run);
    let Ok(s2) = quiet(|| s.clone().simplify()) else {
        k.fail(&format!("simplify^2|{}", show(t)), "panic");
        return;
    };
    if s2 != s {
        same_value(k, "simplify^2", t, &s2, envs, false);
    }
}

trait Bump {
    fn bump_unchanged(&mut self);
}
impl Bump for Check {
    fn bump_unchanged(&mut self) {
        self.pass(0.0);
    }
}

pub const POOL: [f64; 34] = [
    0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 4.0, -4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 16.0, 100.0, 1000.0, 0.5, -0.5, 0.25, 0.75, 1.5,
    2.5, 0.1, 0.3, 1.0 / 3.0, std::f64::consts::E, std::f64::consts::PI, std::f64::consts::FRAC_PI_2, 1e-3, 1e-10, 1e-17, 1e16,
];

pub fn c11() {
    let mut k = Check::new("C11");
    let th = k.thorough();
    let all = envs();
    // every term of height 2 over seven leaves, split by the operator and left operand
    let l7 = || vec![v(0), v(1), c(0.0), c(1.0), c(2.0), c(-1.0), c(0.5)];
    let n1 = height1(&l7()).len();
    k.parallel(n1 + 1, |k, part| {
        let leaves = l7();
        let h1 = height1(&leaves);
        if part == n1 {
            for t in &leaves {
                simplify_one(k, t, &all, true);
            }
            return;
        }
        let a = &h1[part];
        for o in US {
            simplify_one(k, &un(o, a), &all, true);
        }
        for o in BS {
            for b in &h1 {
                simplify_one(k, &bi(o, a, b), &all, false);
            }
        }
    });
    // chains of three frames over the same leaves
    let d = 3;
    k.parallel(chain_parts(7), |k, part| {
        chains_part(&l7(), d, part, &mut |t| simplify_one(k, t, &all, false));
    });
    // chains of four frames over {x, 2, -1} and {x, y}
    for set in [vec![2.0, -1.0], vec![0.5]] {
        let l3 = || {
            let mut l = vec![v(0)];
            if set.len() == 1 {
                l.push(v(1));
            }
            l.extend(set.iter().map(|x| c(*x)));
            l
        };
        let depth = 4;
        k.parallel(chain_parts(3), |k, part| {
            chains_part(&l3(), depth, part, &mut |t| simplify_one(k, t, &all, false));
        });
    }
    // every constant of a wide pool, and every pair of them
    k.parallel(POOL.len(), |k, i| {
        let l = vec![v(0), c(POOL[i])];
        chains(&l, 3, &mut |t| simplify_one(k, t, &all, true));
        for b in &POOL[i + 1..] {
            let l = vec![v(0), c(POOL[i]), c(*b)];
            chains(&l, if th { 3 } else { 2 }, &mut |t| simplify_one(k, t, &all, false));
        }
    });
    // near the ends of the number type
    let far = far_envs();
    k.parallel(FAR.len(), |k, i| {
        chains(&[v(0), c(FAR[i])], 3, &mut |t| simplify_one(k, t, &far, false));
        chains(&[v(0), v(1), c(FAR[i])], 2, &mut |t| simplify_one(k, t, &far, true));
        for b in &FAR[i + 1..] {
            chains(&[v(0), c(FAR[i]), c(*b)], if th { 3 } else { 2 }, &mut |t| simplify_one(k, t, &far, true));
        }
    });
    // height 3: (height 2) op (height 1) and the reverse over {x, c}
    let two = [2.0, -1.0, 0.5, 3.0];
    k.parallel(two.len() * 34, |k, part| {
        let leaves = vec![v(0), c(two[part / 34])];
        let h1 = height1(&leaves);
        let h2 = grow(&leaves, &h1);
        let Some(b) = h1.get(part % 34) else { return };
        for a in &h2 {
            for o in BS {
                simplify_one(k, &bi(o, a, b), &all, false);
                simplify_one(k, &bi(o, b, a), &all, false);
            }
        }
    });
    // folding of every operation on constants over many magnitudes, and every constant next to a variable
    let vals = values();
    k.parallel(vals.len(), |k, i| {
        let q = c(vals[i]);
        let x = v(0);
        for o in US {
            simplify_one(k, &un(o, &q), &all, true);
            for p in US {
                simplify_one(k, &un(p, &un(o, &q)), &all, true);
            }
        }
        for o in BS {
            for t in [bi(o, &x, &q), bi(o, &q, &x)] {
                simplify_one(k, &t, &all, true);
                for u in US {
                    simplify_one(k, &un(u, &t), &all, true);
                }
                for p in BS {
                    simplify_one(k, &bi(p, &t, &q), &all, true);
                    simplify_one(k, &bi(p, &q, &t), &all, true);
                    simplify_one(k, &bi(p, &t, &x), &all, true);
                    simplify_one(k, &bi(p, &x, &t), &all, true);
                }
            }
            for r in few_values() {
                simplify_one(k, &bi(o, &q, &c(r)), &all, true);
                simplify_one(k, &bi(o, &c(r), &q), &all, true);
            }
        }
    });
    long(&mut k, &all, |k, t| simplify_one(k, t, &all, true));
    // the names of the variables do not matter
    renamed(1..SETS, || {
        let l = || vec![v(0), v(1), c(2.0)];
        k.parallel(chain_parts(3), |k, part| {
            chains_part(&l(), 2, part, &mut |t| simplify_one(k, t, &all, true));
        });
    });
    if th {
        // every term of height 3 over {x} and over {x, y}
        for n in [1u8, 2] {
            let ls = move || (0..n).map(v).collect::<Vec<_>>();
            let m = grow(&ls(), &height1(&ls())).len();
            k.parallel(m, |k, part| {
                let h2 = grow(&ls(), &height1(&ls()));
                let a = &h2[part];
                for o in US {
                    simplify_one(k, &un(o, a), &all, false);
                }
                for o in BS {
                    for b in &h2 {
                        simplify_one(k, &bi(o, a, b), &all, false);
                    }
                }
            });
        }
    } else {
        let ls = || vec![v(0)];
        let m = grow(&ls(), &height1(&ls())).len();
        k.parallel(m, |k, part| {
            let h2 = grow(&ls(), &height1(&ls()));
            let a = &h2[part];
            for o in US {
                simplify_one(k, &un(o, a), &all, false);
            }
            for o in BS {
                for b in &h2 {
                    simplify_one(k, &bi(o, a, b), &all, false);
                }
            }
        });
    }
    k.extra_s("oracle", "arithmetic meaning of the term with a forward error bound, computed by the checker's own evaluator");
    k.finish("every term of height 2 over {x,y,0,1,2,-1,1/2}; every chain of 3 frames over those leaves, of 4 frames over {x,2,-1} and {x,y,1/2}, of 3 frames over {x,c} for 34 constants c and of 2 over all pairs of them; (height 2, height 1) terms over {x,c}; chains of 3 frames over {x,c} and of 2 over {x,y,c} and {x,c,d} for 9 constants from 3e-310 to 1.5e308 at assignments of such sizes; constants over 700 values of many magnitudes in every operation, alone and next to x, and pairs of them; repeated patterns of one and two frames of up to 64 frames and balanced terms of 32 leaves; chains of 2 frames under each of 16 sets of variable names; every term of height 3 over {x}; up to 13 assignments each");
}
