//! C18: Bayesian expressions and their compiled form.

use crate::ast::*;
use crate::build::{log_norm, quad};
use crate::jit::{judge, names};
use crate::sym::*;
use mc::{Check, quiet};
use measures_bayesian::bayesian::expressions as ex;
use measures_bayesian::bayesian::{self as top, BayesianJITOptimizer};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;
use symbolic_math::Expr;

fn normal(x: &Rc<T>, mu: &Rc<T>, sigma: &Rc<T>) -> Rc<T> {
    bi(B::Add, &log_norm(sigma), &quad(x, mu, sigma))
}

fn add(a: &Rc<T>, b: &Rc<T>) -> Rc<T> {
    bi(B::Add, a, b)
}

/// All assignments of four variables over an alphabet.
fn grid() -> Vec<Env> {
    let xs = [-3.0, 0.0, 1.0, 2.5, 40.0];
    let ms = [-1.5, 0.0, 2.0, 30.0];
    let ss = [0.1, 1.0, 2.5, 20.0];
    let ts = [-2.0, 0.5, 3.0];
    let mut out = vec![];
    for x in xs {
        for m in ms {
            for s in ss {
                for t in ts {
                    out.push([Some(x), Some(m), Some(s), Some(t)]);
                }
            }
        }
    }
    out
}

fn same(k: &mut Check, what: &str, want: impl Fn(&Env) -> R, made: Result<Expr, String>, envs: &[Env]) {
    k.state();
    k.trace();
    let e = match made {
        Ok(e) => e,
        Err(p) => return k.fail(what, &format!("panic: {p}")),
    };
    for env in envs {
        let (v0, e0) = match want(env) {
            R::Val(v0, e0) => (v0, e0),
            _ => {
                k.outside += 1;
                continue;
            }
        };
        let own = ev_expr(&e, env);
        let run = quiet(|| e.evaluate(&hmap(env)));
        k.transitions += 1;
        let good = match &run {
            Ok(Ok(g)) => !matches!(agree(v0, e0, *g, e0.max(if let R::Val(_, e1) = own { e1 } else { 0.0 })), Agree::No),
            _ => false,
        };
        if good {
            k.pass(v0);
        } else {
            k.fail(&format!("{what}|{}", show_env(env)), &format!("{e} evaluates to {run:?}, expected {v0:?}"));
            return;
        }
    }
}

/// Every ready-made expression over distinct variables, whatever they are called.
fn named(k: &mut Check) {
    let all = grid();
    let n = var_names();
    let t = normal(&v(2), &v(0), &v(3));
    let key = n.join("|");
    same(k, &format!("normal_likelihood|{key}"), |e| ev(&t, e), quiet(|| ex::normal_likelihood(n[2], n[0], n[3])), &all);
    same(k, &format!("likelihood|{key}"), |e| ev(&t, e), quiet(|| top::likelihood(n[2], n[0], n[3])), &all);
    let h = add(&add(&t, &normal(&v(0), &c(1.5), &c(0.5))), &normal(&v(1), &c(0.0), &c(0.5)));
    same(k, &format!("hierarchical_normal|{key}"), |e| ev(&h, e), quiet(|| ex::hierarchical_normal(n[2], n[0], n[3], n[1], 1.5, 0.5)), &all);
    for i in 0..4u8 {
        let t = normal(&v(i), &c(-1.0), &c(3.0));
        let name = n[i as usize];
        same(k, &format!("normal_prior|{name}"), |e| ev(&t, e), quiet(|| ex::normal_prior(name, -1.0, 3.0)), &all);
        same(k, &format!("prior|{name}"), |e| ev(&t, e), quiet(|| top::prior(name, -1.0, 3.0)), &all);
        same(k, &format!("variable|{name}"), |e| ev(&v(i), e), quiet(|| top::variable(name)), &all);
        let (w, m, s) = ([0.25, 0.75], [0.0, 2.0], [1.0, 0.5]);
        let ts = [normal(&v(i), &c(0.0), &c(1.0)), normal(&v(i), &c(2.0), &c(0.5))];
        same(k, &format!("mixture_likelihood|{name}"), |e| log_mix(&w, &ts.iter().map(|t| ev(t, e)).collect::<Vec<_>>()), quiet(|| ex::mixture_likelihood(name, &w, &m, &s)), &all);
    }
    let post = add(&t, &normal(&v(0), &c(0.5), &c(2.0)));
    same(k, &format!("posterior|{key}"), |e| ev(&post, e), quiet(|| top::posterior(to_expr(&t), to_expr(&normal(&v(0), &c(0.5), &c(2.0))))), &all);
}

fn expressions(k: &mut Check) {
    let all = grid();
    let n = var_names();
    // every choice of names, coinciding ones included
    for a in 0..4u8 {
        for b in 0..4u8 {
            for s in 0..4u8 {
                let t = normal(&v(a), &v(b), &v(s));
                let nm = |i: u8| n[i as usize];
                let key = format!("{}|{}|{}", nm(a), nm(b), nm(s));
                same(k, &format!("normal_likelihood|{key}"), |e| ev(&t, e), quiet(|| ex::normal_likelihood(nm(a), nm(b), nm(s))), &all);
                same(k, &format!("likelihood|{key}"), |e| ev(&t, e), quiet(|| top::likelihood(nm(a), nm(b), nm(s))), &all);
                for (mean, scale) in [(0.0, 1.0), (1.5, 0.5), (-40.0, 7.0), (3.0, 100.0)] {
                    for d in 0..4u8 {
                        let h = add(&add(&t, &normal(&v(b), &c(mean), &c(scale))), &normal(&v(d), &c(0.0), &c(scale)));
                        same(k, &format!("hierarchical_normal|{key}|{}|{mean}|{scale}", nm(d)), |e| ev(&h, e), quiet(|| ex::hierarchical_normal(nm(a), nm(b), nm(s), nm(d), mean, scale)), &all);
                    }
                }
            }
        }
        for mean in [-40.0, -1.0, 0.0, 0.5, 7.0] {
            for scale in [0.01, 0.5, 1.0, 3.0, 100.0] {
                let t = normal(&v(a), &c(mean), &c(scale));
                same(k, &format!("normal_prior|{}|{mean}|{scale}", n[a as usize]), |e| ev(&t, e), quiet(|| ex::normal_prior(n[a as usize], mean, scale)), &all);
                same(k, &format!("prior|{}|{mean}|{scale}", n[a as usize]), |e| ev(&t, e), quiet(|| top::prior(n[a as usize], mean, scale)), &all);
            }
        }
        same(k, &format!("variable|{}", n[a as usize]), |e| ev(&v(a), e), quiet(|| top::variable(n[a as usize])), &all);
    }
    // the posterior is the sum, whatever the two parts are
    let l = [v(0), v(1), c(2.0), c(-1.0), c(0.0)];
    let mut parts = height1(&l);
    parts.push(normal(&v(0), &v(1), &v(2)));
    parts.push(normal(&v(1), &c(0.5), &c(2.0)));
    for a in &parts {
        for b in &parts {
            let t = add(a, b);
            let key = format!("{}|{}", show(a), show(b));
            let few = [all[0], all[77], all[130], all[201], all[239]];
            same(k, &format!("posterior_log_density|{key}"), |e| ev(&t, e), quiet(|| ex::posterior_log_density(to_expr(a), to_expr(b))), &few);
            same(k, &format!("posterior|{key}"), |e| ev(&t, e), quiet(|| top::posterior(to_expr(a), to_expr(b))), &few);
        }
    }
}

/// log sum_i w_i e^(l_i), with the error of computing it the plain way.
fn log_mix(ws: &[f64], ls: &[R]) -> R {
    let mut logs = vec![];
    for (w, l) in ws.iter().zip(ls) {
        match l {
            R::Val(v, e) if *w > 0.0 => logs.push((w.ln() + v, e + 1e-16 * v.abs())),
            R::Val(..) => {}
            _ => return R::Unsure,
        }
    }
    let m = logs.iter().map(|l| l.0).fold(f64::NEG_INFINITY, f64::max);
    // the plain sum under- or overflows: not judged
    if !(-600.0..=600.0).contains(&m) {
        return R::Unsure;
    }
    let s: f64 = logs.iter().map(|l| (l.0 - m).exp()).sum();
    let err: f64 = logs.iter().map(|l| (l.0 - m).exp() * (l.1 + 4e-16 * (1.0 + l.0.abs()))).sum::<f64>() / s;
    let v = m + s.ln();
    R::Val(v, err + 4e-16 * (1.0 + v.abs()) + 1.2e-16 * logs.len() as f64)
}

fn mixtures(k: &mut Check, part: usize) {
    let xs = [-3.0, -0.4, 0.0, 1.0, 2.5, 9.0, 40.0];
    let envs: Vec<Env> = xs.iter().map(|x| env2(*x, 0.7)).collect();
    let ws = [0.0, 0.2, 0.5, 1.0, 3.0];
    // two components share a mean, two a scale
    let cs = [(0.0, 1.0), (2.0, 0.5), (-3.0, 4.0), (0.0, 4.0)];
    let alphabet: Vec<(f64, f64, f64)> = ws.iter().flat_map(|w| cs.iter().map(move |(m, s)| (*w, *m, *s))).collect();
    let depth = 3;
    let mut go = |mix: &[(f64, f64, f64)]| {
        k.tick(|| format!("mixture|{mix:?}"));
        let w: Vec<f64> = mix.iter().map(|m| m.0).collect();
        let m: Vec<f64> = mix.iter().map(|m| m.1).collect();
        let s: Vec<f64> = mix.iter().map(|m| m.2).collect();
        for (name, i) in [("x", 0u8), ("y", 1)] {
            if i == 1 && mix.len() > 2 {
                continue;
            }
            let ts: Vec<Rc<T>> = mix.iter().map(|q| normal(&v(i), &c(q.1), &c(q.2))).collect();
            same(k, &format!("mixture_likelihood|{name}|{mix:?}"), |e| log_mix(&w, &ts.iter().map(|t| ev(t, e)).collect::<Vec<_>>()), quiet(|| ex::mixture_likelihood(name, &w, &m, &s)), &envs);
            let parts: Vec<(f64, Expr)> = mix.iter().zip(&ts).map(|(q, t)| (q.0, to_expr(t))).collect();
            same(k, &format!("mixture_likelihood_old|{name}|{mix:?}"), |e| log_mix(&w, &ts.iter().map(|t| ev(t, e)).collect::<Vec<_>>()), quiet(|| ex::mixture_likelihood_old(&parts)), &envs);
        }
        // components need not be normal
        let other = [v(0), un(U::Neg, &bi(B::Mul, &v(0), &v(0))), c(-1.0), bi(B::Sub, &v(1), &v(0))];
        let ts: Vec<&Rc<T>> = mix.iter().map(|q| &other[if q.2 == 1.0 { 0 } else if q.2 == 0.5 { 1 } else { 2 + usize::from(q.0 > 0.5) }]).collect();
        let parts: Vec<(f64, Expr)> = mix.iter().zip(&ts).map(|(q, t)| (q.0, to_expr(t))).collect();
        same(k, &format!("mixture_likelihood_old|other|{mix:?}"), |e| log_mix(&w, &ts.iter().map(|t| ev(t, e)).collect::<Vec<_>>()), quiet(|| ex::mixture_likelihood_old(&parts)), &envs);
    };
    if part == 0 {
        go(&[]);
    }
    // many components
    for n in (4..=40usize).chain([63, 64, 65, 100]).filter(|n| n % alphabet.len() == part) {
        for step in [1, 2, 4, 7] {
            go(&(0..n).map(|i| alphabet[(i * step + 1 + i / 15) % alphabet.len()]).collect::<Vec<_>>());
        }
    }
    for n in 0..depth {
        for s in mc::sequences(alphabet.len(), n) {
            let mut mix = vec![alphabet[part]];
            mix.extend(s.iter().map(|i| alphabet[*i]));
            go(&mix);
        }
    }
}

fn empty_mixture(k: &mut Check) {
    for (key, e) in [("mixture_likelihood|empty", quiet(|| ex::mixture_likelihood("x", &[], &[], &[]))), ("mixture_likelihood_old|empty", quiet(|| ex::mixture_likelihood_old(&[])))] {
        k.state();
        let got = e.and_then(|e| quiet(|| e.evaluate(&hmap(&env1(1.0)))));
        k.require(key, got == Ok(Ok(f64::NEG_INFINITY)), || format!("evaluates to {got:?}"));
    }
}

// ---- compiled models ---------------------------------------------------------------------------------

#[derive(Clone)]
struct Model {
    t: Rc<T>,
    data: Vec<usize>,
    params: Vec<usize>,
    constants: HashMap<String, f64>,
}

impl Model {
    fn show(&self) -> String {
        format!("{}|data {:?}|params {:?}|constants {:?}", show(&self.t), names(&self.data), names(&self.params), {
            let mut c: Vec<_> = self.constants.iter().collect();
            c.sort_by(|a, b| a.0.cmp(b.0));
            c
        })
    }
    fn env(&self, pt: &Env) -> Env {
        let mut env = *pt;
        for (n, q) in &self.constants {
            env[var_names().iter().position(|m| m == n).unwrap()] = Some(*q);
        }
        env
    }
}

const POINTS: [Env; 3] = [
    [Some(1.25), Some(2.5), Some(0.75), Some(3.0)],
    [Some(7.0), Some(-3.0), Some(2.0), Some(-2.0)],
    [Some(0.5), Some(4.0), Some(1.5), Some(0.25)],
];

fn eval_slot(o: &BayesianJITOptimizer, slot: usize, m: &Model, pt: &Env) -> Result<Option<f64>, String> {
    let env = m.env(pt);
    let d: Vec<f64> = m.data.iter().map(|i| env[*i].unwrap()).collect();
    let p: Vec<f64> = m.params.iter().map(|i| env[*i].unwrap()).collect();
    quiet(|| match slot {
        0 => o.evaluate_posterior(&d, &p),
        1 => o.evaluate_likelihood(&d, &p),
        _ => o.evaluate_prior(&p),
    })
}

fn compile_slot(o: &mut BayesianJITOptimizer, slot: usize, m: &Model) -> Result<Result<(), String>, String> {
    let e = to_expr(&m.t);
    let (d, p) = (names(&m.data), names(&m.params));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match slot {
        0 => o.compile_posterior_jit(&e, &d, &p, &m.constants),
        1 => o.compile_likelihood_jit(&e, &d, &p, &m.constants),
        _ => o.compile_prior_jit(&e, &p, &m.constants),
    }));
    r.map(|r| r.map_err(|e| e.to_string())).map_err(|_| "panic".to_string())
}

/// Every binding of a model's variables, in every order, in every slot.
fn bindings(k: &mut Check, t: &Rc<T>) {
    let vs = var_set(t);
    let used: Vec<usize> = (0..4).filter(|i| vs[*i]).collect();
    for roles in mc::sequences(4, used.len()) {
        let pick = |r: usize| -> Vec<usize> { used.iter().zip(&roles).filter(|(_, q)| **q == r).map(|(s, _)| *s).collect() };
        let (d, p, q, missing) = (pick(0), pick(1), pick(2), pick(3));
        for dp in mc::permutations(d.len()) {
            for pp in mc::permutations(p.len()) {
                let m = Model {
                    t: t.clone(),
                    data: dp.iter().map(|i| d[*i]).collect(),
                    params: pp.iter().map(|i| p[*i]).collect(),
                    constants: q.iter().map(|i| (var_names()[*i].to_string(), POINTS[0][*i].unwrap())).collect(),
                };
                for slot in 0..3 {
                    if slot == 2 && !d.is_empty() {
                        continue;
                    }
                    let key = format!("model|{}|{}", ["posterior", "likelihood", "prior"][slot], m.show());
                    k.at(&key, true);
                    k.state();
                    let mut o = BayesianJITOptimizer::new();
                    match compile_slot(&mut o, slot, &m) {
                        Err(p) => {
                            k.fail(&key, &p);
                            continue;
                        }
                        Ok(Err(e)) => {
                            k.transitions += 1;
                            if missing.is_empty() {
                                k.fail(&key, &format!("does not compile: {e}"));
                            }
                            continue;
                        }
                        Ok(Ok(())) => {
                            k.transitions += 1;
                            if !missing.is_empty() {
                                k.fail(&key, "compiles although a variable is not bound");
                                continue;
                            }
                        }
                    }
                    k.trace();
                    for pt in &POINTS {
                        for s in 0..3 {
                            let got = eval_slot(&o, s, &m, pt);
                            if s == slot {
                                judge(k, || format!("{key}|{}", show_env(pt)), ev(t, &m.env(pt)), got.and_then(|g| g.ok_or("nothing although compiled".into())));
                            } else {
                                k.require(&key, got == Ok(None), || format!("slot {s} was not compiled, but gives {got:?}"));
                            }
                        }
                    }
                }
            }
        }
    }
}

fn models() -> Vec<Model> {
    let (x, y, z, w) = (v(0), v(1), v(2), v(3));
    let like = normal(&x, &y, &z);
    let prior = normal(&y, &c(0.5), &c(2.0));
    let none = HashMap::new;
    vec![
        Model { t: add(&like, &prior), data: vec![0], params: vec![1, 2], constants: none() },
        Model { t: like.clone(), data: vec![0], params: vec![1], constants: [("z".to_string(), 1.5)].into() },
        Model { t: prior.clone(), data: vec![], params: vec![1], constants: none() },
        Model { t: bi(B::Sub, &bi(B::Mul, &x, &w), &bi(B::Div, &y, &z)), data: vec![3, 0], params: vec![2, 1], constants: none() },
        // does not compile: z and w are bound to nothing
        Model { t: add(&like, &w), data: vec![0], params: vec![1], constants: none() },
        // other priors: the same parameter, and two parameters
        Model { t: normal(&y, &c(-1.0), &c(0.5)), data: vec![], params: vec![1], constants: none() },
        Model { t: add(&prior, &normal(&z, &c(1.0), &w)), data: vec![], params: vec![2, 1], constants: [("w".to_string(), 0.75)].into() },
    ]
}

/// Every history of compilations; every slot is looked at after each step.
fn histories(k: &mut Check, first: usize, depth: usize) {
    let ms = models();
    let ops: Vec<(usize, usize)> = (0..3).flat_map(|s| (0..ms.len()).map(move |m| (s, m))).filter(|(s, m)| *s != 2 || ms[*m].data.is_empty() || *m == 4).collect();
    if first >= ops.len() {
        return;
    }
    for n in 0..depth {
        for seq in mc::sequences(ops.len(), n) {
            let mut o = if n % 2 == 0 { BayesianJITOptimizer::new() } else { BayesianJITOptimizer::default() };
            let mut now: [Option<usize>; 3] = [None; 3];
            let mut touched: [bool; 3] = [false; 3];
            k.state();
            k.trace();
            let all: Vec<usize> = std::iter::once(first).chain(seq).collect();
            for (step, op) in all.iter().enumerate() {
                let (slot, m) = ops[*op];
                let key = format!("history|{:?}|{step}", all.iter().map(|o| ops[*o]).collect::<Vec<_>>());
                k.at(&key, true);
                match compile_slot(&mut o, slot, &ms[m]) {
                    Ok(Ok(())) if m == 4 => k.fail(&key, "compiles although a variable is not bound"),
                    Ok(Ok(())) => {
                        now[slot] = Some(m);
                        touched[slot] = false;
                    }
                    Ok(Err(_)) if m == 4 => touched[slot] = true,
                    Ok(Err(e)) => k.fail(&key, &format!("does not compile: {e}")),
                    Err(p) => k.fail(&key, &p),
                }
                for s in 0..3 {
                    let pt = &POINTS[step % 3];
                    match now[s] {
                        None => {
                            let got = eval_slot(&o, s, &ms[2], pt);
                            k.require(&format!("{key}|{s}"), got == Ok(None), || format!("not compiled, but gives {got:?}"));
                        }
                        Some(m) => {
                            let got = eval_slot(&o, s, &ms[m], pt);
                            // after a failed compilation the old model or none is left
                            if touched[s] && got == Ok(None) {
                                k.pass(0.0);
                            } else {
                                judge(k, || format!("{key}|{s}"), ev(&ms[m].t, &ms[m].env(pt)), got.and_then(|g| g.ok_or("nothing although compiled".into())));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Ready-made expressions, compiled.
fn compiled_ready_made(k: &mut Check, shard: usize, of: usize) {
    let all = grid();
    let made: Vec<(String, Expr, Rc<T>)> = vec![
        ("likelihood".into(), ex::normal_likelihood("x", "y", "z"), normal(&v(0), &v(1), &v(2))),
        ("posterior".into(), ex::posterior_log_density(ex::normal_likelihood("x", "y", "z"), ex::normal_prior("y", 1.0, 2.0)), add(&normal(&v(0), &v(1), &v(2)), &normal(&v(1), &c(1.0), &c(2.0)))),
        ("hierarchical".into(), ex::hierarchical_normal("x", "y", "z", "w", 0.5, 3.0), add(&add(&normal(&v(0), &v(1), &v(2)), &normal(&v(1), &c(0.5), &c(3.0))), &normal(&v(3), &c(0.0), &c(3.0)))),
    ];
    for (i, (what, e, t)) in made.iter().enumerate() {
        if i % of != shard {
            continue;
        }
        let key = format!("compiled|{what}");
        k.at(&key, true);
        let vs = var_set(t);
        let params: Vec<usize> = (1..4).filter(|i| vs[*i]).collect();
        let mut o = BayesianJITOptimizer::new();
        if o.compile_posterior_jit(e, &names(&[0]), &names(&params), &HashMap::new()).is_err() || o.compile_likelihood_jit(e, &names(&[0]), &names(&params), &HashMap::new()).is_err() {
            k.fail(&key, "does not compile");
            continue;
        }
        k.trace();
        for env in &all {
            let p: Vec<f64> = params.iter().map(|i| env[*i].unwrap()).collect();
            judge(k, || format!("{key}|{}", show_env(env)), ev(t, env), quiet(|| o.evaluate_posterior(&[env[0].unwrap()], &p).unwrap_or(f64::NAN)));
            judge(k, || format!("{key}|{}|again", show_env(env)), ev(t, env), quiet(|| o.evaluate_likelihood(&[env[0].unwrap()], &p).unwrap_or(f64::NAN)));
        }
    }
    // mixtures
    for n in (1..=20usize).chain([32, 33, 48]) {
        if n % of != shard {
            continue;
        }
        let w: Vec<f64> = (0..n).map(|i| 0.5 / (i + 1) as f64).collect();
        let m: Vec<f64> = (0..n).map(|i| i as f64 * 1.5 - 2.0).collect();
        let s: Vec<f64> = (0..n).map(|i| 0.75 + i as f64).collect();
        let key = format!("compiled|mixture of {n}");
        k.at(&key, true);
        let mut o = BayesianJITOptimizer::new();
        let e = ex::mixture_likelihood("x", &w, &m, &s);
        if o.compile_likelihood_jit(&e, &names(&[0]), &[], &HashMap::new()).is_err() {
            k.fail(&key, "does not compile");
            continue;
        }
        for x in [-6.0, -2.0, -0.3, 0.0, 1.0, 2.2, 8.0] {
            let ls: Vec<R> = (0..n).map(|i| ev(&normal(&v(0), &c(m[i]), &c(s[i])), &env1(x))).collect();
            judge(k, || format!("{key}|x={x}"), log_mix(&w, &ls), quiet(|| o.evaluate_likelihood(&[x], &[]).unwrap_or(f64::NAN)));
        }
    }
}

pub fn c18() {
    let mut k = Check::new("C18");
    k.parallel(21, |k, part| {
        if part == 20 {
            expressions(k);
            empty_mixture(k);
        } else {
            mixtures(k, part);
        }
    });
    // the names of the variables do not matter
    renamed(1..SETS, || named(&mut k));
    const S: usize = 24;
    k.shards(S, Duration::from_secs(60), |k, shard| {
        let (x, y, z, w) = (v(0), v(1), v(2), v(3));
        let like = normal(&x, &y, &z);
        let ts = [
            add(&like, &normal(&y, &c(0.5), &c(2.0))),
            add(&add(&like, &normal(&y, &c(0.5), &c(2.0))), &normal(&w, &c(0.0), &c(2.0))),
            bi(B::Sub, &bi(B::Mul, &x, &c(3.0)), &bi(B::Div, &y, &z)),
            normal(&y, &c(0.0), &c(1.0)),
            bi(B::Sub, &un(U::Exp, &z), &w),
            c(-1.5),
        ];
        if let Some(t) = ts.get(shard) {
            bindings(k, t);
        }
        let mut turn = 0usize;
        renamed(1..SETS, || {
            for t in &ts[2..4] {
                turn += 1;
                if turn % S == shard {
                    bindings(k, t);
                }
            }
        });
        histories(k, (shard + S - ts.len()) % S, 4);
        compiled_ready_made(k, (shard + 5) % S, S);
    });
    k.extra_s("oracle", "closed-form normal log-densities and weighted log-sums with error bounds; a model of the three compiled slots");
    k.finish("every ready-made expression with every choice of (also coinciding) names over four variables at 240 assignments; posteriors of all pairs of 157 terms; every mixture of up to 3 components over 20 (weight, mean, deviation) triples, patterned mixtures of every length to 40 and up to 100 components; every binding of the variables (data, parameter, constant, missing) in every order for 6 models in every slot (and of 2 models under each of 16 sets of variable names); every history of up to 4 compilations over 18 operations (three failing), every slot evaluated after each step");
}
