//! C14: every route of evaluating an expression.

use crate::ast::*;
use crate::sym::*;
use mc::{Check, quiet};
use std::collections::HashMap;
use std::rc::Rc;
use symbolic_math::{EvalError, Expr};

/// Is the answer of a route the right one for the meaning `want`?
fn judge(k: &mut Check, key: impl Fn() -> String, t: &T, env: &Env, want: R, got: Result<Result<f64, EvalError>, String>) {
    match (want, got) {
        (_, Err(p)) => k.fail(&key(), &format!("panic: {p}")),
        (R::Val(v, e), Ok(Ok(g))) => match agree(v, e, g, e) {
            Agree::Yes => {
                k.pass(g);
                k.sample(|| format!("{} = {g:?}", key()));
            }
            Agree::Skip => k.outside += 1,
            Agree::No => {
                k.transitions += 1;
                k.fail(&key(), &format!("got {g:?}, the value is {v:?}"));
            }
        },
        (R::Val(v, _), Ok(Err(e))) => {
            k.transitions += 1;
            k.fail(&key(), &format!("got the error {e}, the value is {v:?}"));
        }
        (R::Undef(m), Ok(g)) if m & HARD != 0 && !zero_factor(t) => {
            k.transitions += 1;
            let ok = match &g {
                Ok(_) => false,
                Err(EvalError::DivisionByZero) => uses(t, &|t| matches!(t, T::B(B::Div, ..))),
                Err(EvalError::InvalidLogarithm(_)) => uses(t, &|t| matches!(t, T::U(U::Ln, _))),
                Err(EvalError::InvalidSquareRoot(_)) => uses(t, &|t| matches!(t, T::U(U::Sqrt, _))),
                Err(EvalError::UndefinedVariable(n)) => {
                    let mut found = false;
                    let vs = var_set(t);
                    for i in 0..4 {
                        found |= var_names()[i] == n && vs[i] && env[i].is_none();
                    }
                    found
                }
            };
            if ok {
                k.pass(f64::from(m));
            } else {
                k.fail(&key(), &format!("got {g:?}, but evaluation is an error (kinds {m:#b})"));
            }
        }
        _ => k.outside += 1,
    }
}

fn judge_vec(k: &mut Check, what: &str, t: &T, envs: &[Env], got: Result<Result<Vec<f64>, EvalError>, String>) {
    let key = |i: usize| format!("{what}|{}|{i} of {}|{}", show(t), envs.len(), envs.get(i).map(show_env).unwrap_or_default());
    let want: Vec<R> = envs.iter().map(|e| ev(t, e)).collect();
    match got {
        Err(p) => k.fail(&key(0), &format!("panic: {p}")),
        Ok(Ok(g)) => {
            if g.len() != envs.len() {
                k.fail(&key(0), &format!("{} results for {} arguments", g.len(), envs.len()));
                return;
            }
            for (i, x) in g.into_iter().enumerate() {
                judge(k, || key(i), t, &envs[i], want[i], Ok(Ok(x)));
            }
        }
        Ok(Err(e)) => {
            // right when some element is an error (which one is reported is not specified)
            k.transitions += 1;
            if want.iter().all(|w| matches!(w, R::Val(..))) {
                k.fail(&key(0), &format!("error {e}, but every element has a value"));
            }
        }
    }
}

fn single(k: &mut Check, t: &Rc<T>, e: &Expr, xs: &[f64]) {
    for x in xs {
        let env = env1(*x);
        let want = ev(t, &env);
        let key = |r: &str| format!("{r}|{}|x={x:?}", show(t));
        // routes that may reorder the arithmetic
        let loose = match want {
            R::Val(v, e) => R::Val(v, e + 4e-16 * scale(t, &env)),
            w => w,
        };
        judge(k, || key("single"), t, &env, want, quiet(|| e.evaluate_single_var(var_names()[0], *x)));
        judge(k, || key("smart"), t, &env, loose, quiet(|| e.evaluate_smart(var_names()[0], *x)));
        match quiet(|| (e.evaluate_polynomial(var_names()[0], *x), e.evaluate_linear(var_names()[0], *x), e.extract_linear_coefficients(var_names()[0]))) {
            Err(p) => k.fail(&key("polynomial"), &format!("panic: {p}")),
            Ok((p, l, c)) => {
                if let Some(p) = p {
                    k.bump("polynomial_answers", 1);
                    judge(k, || key("polynomial"), t, &env, loose, Ok(Ok(p)));
                }
                if let Some(l) = l {
                    k.bump("linear_answers", 1);
                    judge(k, || key("linear"), t, &env, loose, Ok(Ok(l)));
                }
                // coefficients too large for the number type say nothing about the value
                if let Some((a, b)) = c.filter(|(a, b)| (a * x).is_finite() && b.is_finite()) {
                    judge(k, || key("coefficients"), t, &env, loose, Ok(Ok(a * x + b)));
                }
            }
        }
    }
}

/// Everything about one term.
fn routes(k: &mut Check, t: &Rc<T>, all: &[Env], full: bool) {
    k.tick(|| format!("routes|{}", show(t)));
    k.state();
    k.trace();
    let e = to_expr(t);
    let vs = var_set(t);
    let list = if vs[1] { all } else if vs[0] { &all[..XS.len().min(all.len())] } else { &all[..1] };
    for env in list {
        judge(k, || format!("evaluate|{}|{}", show(t), show_env(env)), t, env, ev(t, env), quiet(|| e.evaluate(&hmap(env))));
    }
    single(k, t, &e, if full { &XS } else { &[-3.0, 0.0, 0.3, 2.0] });
    if !full {
        return;
    }
    // a variable that is missing
    let only_y: Env = [None, Some(2.0), None, None];
    let none: Env = [None; 4];
    for env in [only_y, none] {
        judge(k, || format!("evaluate|{}|{}", show(t), show_env(&env)), t, &env, ev(t, &env), quiet(|| e.evaluate(&hmap(&env))));
    }
    // batches: all of the points, the points where it is defined, each prefix of those, in both orders
    let defined: Vec<f64> = XS.iter().copied().filter(|x| matches!(ev(t, &env1(*x)), R::Val(..))).collect();
    let mut lists: Vec<Vec<f64>> = vec![XS.to_vec(), defined.clone(), defined.iter().rev().copied().collect(), vec![]];
    for n in 1..4.min(defined.len()) {
        lists.push(defined[..n].to_vec());
    }
    if let Some(d) = defined.first() {
        lists.push(vec![*d; 5]);
    }
    for xs in &lists {
        let envs: Vec<Env> = xs.iter().map(|x| env1(*x)).collect();
        judge_vec(k, "batch", t, &envs, quiet(|| e.evaluate_batch(var_names()[0], xs)));
        judge_vec(k, "batch_optimized", t, &envs, quiet(|| e.evaluate_batch_optimized(var_names()[0], xs)));
    }
    // by the name of the other variable
    let ys = [2.0, -0.7, 0.0, 3.0];
    let envs: Vec<Env> = ys.iter().map(|y| [None, Some(*y), None, None]).collect();
    judge_vec(k, "batch_y", t, &envs, quiet(|| e.evaluate_batch(var_names()[1], &ys)));
    judge_vec(k, "batch_optimized_y", t, &envs, quiet(|| e.evaluate_batch_optimized(var_names()[1], &ys)));
    // lists of assignments
    let good: Vec<Env> = list.iter().copied().filter(|v| matches!(ev(t, v), R::Val(..))).collect();
    for envs in [list.to_vec(), good.clone(), good.iter().rev().copied().collect()] {
        let maps: Vec<HashMap<String, f64>> = envs.iter().map(hmap).collect();
        judge_vec(k, "batch_vars", t, &envs, quiet(|| e.evaluate_batch_vars(&maps)));
    }
    // grids, both ways round, the empty ones included
    let gx = [-3.0, 0.3, 2.0];
    let gy = [2.0, -0.7];
    for (xs, ys) in [(&gx[..], &gy[..]), (&gx[1..], &gy[..1]), (&gx[..0], &gy[..]), (&gx[..], &gy[..0])] {
        for swap in [false, true] {
            let got = quiet(|| if swap { e.evaluate_grid(var_names()[1], ys, var_names()[0], xs) } else { e.evaluate_grid(var_names()[0], xs, var_names()[1], ys) });
            let what = if swap { "grid_yx" } else { "grid" };
            let (cols, rows) = if swap { (ys, xs) } else { (xs, ys) };
            let at = |i: usize, j: usize| if swap { env2(rows[i], cols[j]) } else { env2(cols[j], rows[i]) };
            match got {
                Err(p) => k.fail(&format!("{what}|{}", show(t)), &format!("panic: {p}")),
                Ok(Err(err)) => {
                    k.transitions += 1;
                    let fine = (0..rows.len()).any(|i| (0..cols.len()).any(|j| !matches!(ev(t, &at(i, j)), R::Val(..))));
                    if !fine {
                        k.fail(&format!("{what}|{}", show(t)), &format!("error {err}, but every point has a value"));
                    }
                }
                Ok(Ok(g)) => {
                    if g.len() != rows.len() || g.iter().any(|r| r.len() != cols.len()) {
                        k.fail(&format!("{what}|{}", show(t)), &format!("shape of {g:?} for {} rows and {} columns", rows.len(), cols.len()));
                        continue;
                    }
                    for i in 0..rows.len() {
                        for j in 0..cols.len() {
                            let env = at(i, j);
                            judge(k, || format!("{what}|{}|{}", show(t), show_env(&env)), t, &env, ev(t, &env), Ok(Ok(g[i][j])));
                        }
                    }
                }
            }
        }
    }
}

/// Every way to combine the listed terms (in order) with + and -, over every bracketing.
fn sums(terms: &[Rc<T>], f: &mut impl FnMut(&Rc<T>)) {
    fn build(terms: &[Rc<T>]) -> Vec<Rc<T>> {
        if terms.len() == 1 {
            return vec![terms[0].clone()];
        }
        let mut out = vec![];
        for m in 1..terms.len() {
            for a in build(&terms[..m]) {
                for b in build(&terms[m..]) {
                    out.push(bi(B::Add, &a, &b));
                    out.push(bi(B::Sub, &a, &b));
                }
            }
        }
        out
    }
    for t in build(terms) {
        f(&t);
    }
}

pub fn c14() {
    let mut k = Check::new("C14");
    let th = k.thorough();
    let all = envs();
    let l7 = || vec![v(0), v(1), c(0.0), c(1.0), c(2.0), c(-1.0), c(0.5)];
    let n1 = height1(&l7()).len();
    k.parallel(n1, |k, part| {
        let h1 = height1(&l7());
        let a = &h1[part];
        routes(k, a, &all, true);
        for u in US {
            routes(k, &un(u, a), &all, true);
        }
        for b in BS {
            for r in &h1 {
                routes(k, &bi(b, a, r), &all, true);
            }
        }
    });
    // full routes for every term of height 2 over {x, y, 2}
    let l3 = || vec![v(0), v(1), c(2.0)];
    let m1 = height1(&l3()).len();
    k.parallel(m1, |k, part| {
        let h1 = height1(&l3());
        for b in BS {
            for r in &h1 {
                routes(k, &bi(b, &h1[part], r), &all, true);
            }
        }
    });
    let some = all.iter().copied().step_by(if th { 1 } else { 2 }).collect::<Vec<_>>();
    k.parallel(chain_parts(7), |k, part| {
        chains_part(&l7(), 3, part, &mut |t| routes(k, t, &some, false));
    });
    k.parallel(POOL.len(), |k, i| {
        let l = vec![v(0), c(POOL[i])];
        chains(&l, 2, &mut |t| routes(k, t, &all, true));
        chains(&l, 3, &mut |t| routes(k, t, &some, false));
    });
    long(&mut k, &all, |k, t| routes(k, t, &all, false));
    // every single operation over many magnitudes
    let ops = || single_operations(&few_values());
    k.parallel(64, |k, part| {
        for t in ops().iter().skip(part).step_by(64) {
            k.tick(|| format!("values|{}", show(t)));
            k.state();
            k.trace();
            let e = to_expr(t);
            let envs = value_envs(t);
            for env in &envs {
                judge(k, || format!("evaluate|{}|{}", show(t), show_env(env)), t, env, ev(t, env), quiet(|| e.evaluate(&hmap(env))));
            }
            let good: Vec<Env> = envs.iter().copied().filter(|env| matches!(ev(t, env), R::Val(..))).collect();
            let maps: Vec<HashMap<String, f64>> = good.iter().map(hmap).collect();
            judge_vec(k, "batch_vars", t, &good, quiet(|| e.evaluate_batch_vars(&maps)));
            if !var_set(t)[1] {
                let xs: Vec<f64> = good.iter().map(|e| e[0].unwrap()).collect();
                single(k, t, &e, &values());
                judge_vec(k, "batch", t, &good, quiet(|| e.evaluate_batch(var_names()[0], &xs)));
                judge_vec(k, "batch_optimized", t, &good, quiet(|| e.evaluate_batch_optimized(var_names()[0], &xs)));
            }
        }
    });
    // the names of the variables do not matter
    renamed(1..SETS, || {
        k.parallel(chain_parts(3), |k, part| {
            chains_part(&[v(0), v(1), c(2.0)], 2, part, &mut |t| routes(k, t, &all, true));
        });
    });
    // sums and differences of up to four polynomial terms in every bracketing
    let terms = || {
        let x = v(0);
        let mut w = vec![x.clone(), c(3.0), bi(B::Mul, &c(2.0), &x), bi(B::Mul, &x, &c(-1.5)), bi(B::Pow, &x, &c(2.0)), bi(B::Pow, &x, &c(3.0))];
        w.push(bi(B::Pow, &x, &c(-1.0)));
        w.push(bi(B::Mul, &c(0.5), &bi(B::Pow, &x, &c(2.0))));
        w.push(v(1));
        w
    };
    let nt = terms().len();
    k.parallel(nt * nt, |k, part| {
        let w = terms();
        let (a, b) = (&w[part / nt], &w[part % nt]);
        sums(&[a.clone(), b.clone()], &mut |t| routes(k, t, &all, true));
        for d in &w {
            sums(&[a.clone(), b.clone(), d.clone()], &mut |t| routes(k, t, &some, true));
            for e in &w {
                sums(&[a.clone(), b.clone(), d.clone(), e.clone()], &mut |t| routes(k, t, &some, true));
            }
        }
    });
    // polynomials whose collected coefficients leave the range while the terms stay inside it
    k.parallel(10, |k, part| {
        let x = v(0);
        let mut w: Vec<Rc<T>> = [1e308, -1.5e308, 1e307].iter().flat_map(|a| [bi(B::Mul, &c(*a), &x), bi(B::Mul, &x, &c(*a))]).collect();
        w.extend([c(1e308), c(-1.7e308), x.clone(), bi(B::Pow, &x, &c(2.0))]);
        let mut one = |t: &Rc<T>| {
            k.tick(|| format!("large coefficients|{}", show(t)));
            k.state();
            k.trace();
            single(k, t, &to_expr(t), &[0.1, -0.1, 0.5, 1.0, -3.0, 10.0, 1e-300, 0.0]);
        };
        for b in &w {
            sums(&[w[part].clone(), b.clone()], &mut one);
            for d in &w {
                sums(&[w[part].clone(), b.clone(), d.clone()], &mut one);
            }
        }
    });
    // near the ends of the number type
    let far = far_envs();
    let far_xs: Vec<f64> = far.iter().take(XS.len()).map(|e| e[0].unwrap()).collect();
    k.parallel(FAR.len(), |k, i| {
        let mut one = |t: &Rc<T>| {
            k.tick(|| format!("far|{}", show(t)));
            k.state();
            k.trace();
            let e = to_expr(t);
            let vs = var_set(t);
            let list = if vs[1] { &far[..] } else { &far[..XS.len()] };
            for env in list {
                judge(k, || format!("evaluate|{}|{}", show(t), show_env(env)), t, env, ev(t, env), quiet(|| e.evaluate(&hmap(env))));
            }
            let good: Vec<Env> = list.iter().copied().filter(|env| matches!(ev(t, env), R::Val(..))).collect();
            let maps: Vec<HashMap<String, f64>> = good.iter().map(hmap).collect();
            judge_vec(k, "batch_vars", t, &good, quiet(|| e.evaluate_batch_vars(&maps)));
            if !vs[1] {
                let xs: Vec<f64> = good.iter().map(|e| e[0].unwrap()).collect();
                single(k, t, &e, &far_xs);
                judge_vec(k, "batch", t, &good, quiet(|| e.evaluate_batch(var_names()[0], &xs)));
                judge_vec(k, "batch_optimized", t, &good, quiet(|| e.evaluate_batch_optimized(var_names()[0], &xs)));
            }
        };
        chains(&[v(0), c(FAR[i])], 3, &mut one);
        chains(&[v(0), v(1), c(FAR[i])], 2, &mut one);
        for b in &FAR[i + 1..] {
            chains(&[v(0), c(FAR[i]), c(*b)], 2, &mut one);
        }
    });
    // every sequence of up to three batch arguments, repetitions included
    let h1 = height1(&l3());
    for t in &h1 {
        let e = to_expr(t);
        for n in 1..=3 {
            for s in mc::sequences(4, n) {
                let xs: Vec<f64> = s.iter().map(|i| [0.3, 2.0, 5.5, 1.0][*i]).collect();
                let envs: Vec<Env> = xs.iter().map(|x| env1(*x)).collect();
                k.trace();
                judge_vec(&mut k, "batch_seq", t, &envs, quiet(|| e.evaluate_batch(var_names()[0], &xs)));
                judge_vec(&mut k, "batch_optimized_seq", t, &envs, quiet(|| e.evaluate_batch_optimized(var_names()[0], &xs)));
            }
        }
    }
    // batches of every length up to 70 and around the usual block sizes, grids of every shape up to 9 by 9
    let mut lens: Vec<usize> = (0..=70).collect();
    for n in [96usize, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16_384, 65_536] {
        lens.extend([n - 1, n, n + 1]);
    }
    let longs = || -> Vec<Rc<T>> {
        let (x, y) = (v(0), v(1));
        let mut w = vec![x.clone(), c(3.0), bi(B::Mul, &c(2.0), &x), bi(B::Add, &bi(B::Pow, &x, &c(2.0)), &x), un(U::Ln, &x), bi(B::Div, &c(1.0), &x), bi(B::Sub, &x, &c(0.5))];
        w.push(bi(B::Mul, &x, &y));
        w.push(bi(B::Pow, &x, &y));
        w
    };
    k.parallel(lens.len(), |k, part| {
        let n = lens[part];
        for t in longs() {
            k.tick(|| format!("long|{n}|{}", show(&t)));
            k.trace();
            let e = to_expr(&t);
            let xs: Vec<f64> = (0..n).map(|i| ((i * 37) % 101) as f64 * 0.25 + 0.125 + i as f64 * 1e-3).collect();
            let envs: Vec<Env> = xs.iter().map(|x| env1(*x)).collect();
            judge_vec(k, "batch", &t, &envs, quiet(|| e.evaluate_batch(var_names()[0], &xs)));
            judge_vec(k, "batch_optimized", &t, &envs, quiet(|| e.evaluate_batch_optimized(var_names()[0], &xs)));
            let both: Vec<Env> = xs.iter().enumerate().map(|(i, x)| env2(*x, (i % 5) as f64 - 2.0)).collect();
            let maps: Vec<HashMap<String, f64>> = both.iter().map(hmap).collect();
            judge_vec(k, "batch_vars", &t, &both, quiet(|| e.evaluate_batch_vars(&maps)));
            // one bad point among good ones is an error of the whole batch
            if n > 0 && n < 12 {
                for bad in 0..n {
                    let mut ys = xs.clone();
                    ys[bad] = 0.0;
                    let envs: Vec<Env> = ys.iter().map(|x| env1(*x)).collect();
                    judge_vec(k, "batch", &t, &envs, quiet(|| e.evaluate_batch(var_names()[0], &ys)));
                    judge_vec(k, "batch_optimized", &t, &envs, quiet(|| e.evaluate_batch_optimized(var_names()[0], &ys)));
                }
            }
        }
    });
    let mut shapes: Vec<(usize, usize)> = (0..100).map(|p| (p / 10, p % 10)).collect();
    for n in [31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025] {
        shapes.extend([(n, 1), (1, n), (n, 3), (3, n), (n, 33), (33, n)]);
        if n <= 257 {
            shapes.push((n, n));
        }
    }
    k.parallel(shapes.len(), |k, part| {
        let (n, m) = shapes[part];
        let xs: Vec<f64> = (0..n).map(|i| i as f64 * 0.5 + 0.25).collect();
        let ys: Vec<f64> = (0..m).map(|i| 3.0 - (i % 64) as f64 * 0.75 + (i / 64) as f64 * 0.01).collect();
        for t in longs() {
            let e = to_expr(&t);
            k.trace();
            match quiet(|| e.evaluate_grid(var_names()[0], &xs, var_names()[1], &ys)) {
                Ok(Ok(g)) => {
                    if g.len() != m || g.iter().any(|r| r.len() != n) {
                        k.fail(&format!("grid|{}|{n}x{m}", show(&t)), &format!("shape of {g:?}"));
                        continue;
                    }
                    for i in 0..m {
                        for j in 0..n {
                            let env = env2(xs[j], ys[i]);
                            judge(k, || format!("grid|{}|{n}x{m}|{}", show(&t), show_env(&env)), &t, &env, ev(&t, &env), Ok(Ok(g[i][j])));
                        }
                    }
                }
                Ok(Err(e)) => k.fail(&format!("grid|{}|{n}x{m}", show(&t)), &format!("error {e}")),
                Err(p) => k.fail(&format!("grid|{}|{n}x{m}", show(&t)), &format!("panic {p}")),
            }
        }
    });
    k.parallel(chain_parts(2), |k, part| {
        chains_part(&[v(0), c(2.0)], 4, part, &mut |t| routes(k, t, &some, false));
    });
    if th {
        k.parallel(chain_parts(3), |k, part| {
            chains_part(&[v(0), v(1), c(-1.5)], 4, part, &mut |t| routes(k, t, &all, false));
        });
    }
    k.assume("A literal zero factor may be taken as zero without evaluating the other factor; a power of a negative base with a fractional exponent, or of zero with a negative one, follows floating-point arithmetic.");
    k.finish("every term of height 2 over {x,y,0,1,2,-1,1/2}; every chain of 3 frames over those leaves and over {x,c} for 34 constants; every bracketing of sums and differences of up to 4 of 9 polynomial terms; chains of 2 frames under each of 16 sets of variable names; every operation with 63 constants at 700 values and at pairs of 63 values; 13 assignments, missing variables, batches (all, defined, prefixes, reversed, repeated, empty), grids of 4 shapes both ways, all batch sequences up to length 3, batches of every length up to 70 and around block sizes up to 65537, grids of every shape up to 9 by 9 and around block sizes up to 1025 by 33 and 257 by 257, chains over {x,c}, {x,y,c} and {x,c,d} for 9 constants from 3e-310 to 1.5e308 at assignments of such sizes, chains of 4 frames over {x,2} (thorough also {x,y,-3/2})");
}
