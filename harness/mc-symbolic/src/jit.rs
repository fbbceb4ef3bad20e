//! C13: natively compiled expressions.

use crate::ast::*;
use crate::sym::*;
use mc::{Check, quiet};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;
use symbolic_math::{CustomSymbolicLogDensity, GeneralJITCompiler, GeneralJITFunction, JITError, JITSignature};

pub fn names(ix: &[usize]) -> Vec<String> {
    ix.iter().map(|i| var_names()[*i].to_string()).collect()
}

/// Call a compiled function in the form its signature asks for.
pub fn call(f: &GeneralJITFunction, data: &[f64], params: &[f64]) -> Result<f64, String> {
    quiet(|| match &f.signature {
        JITSignature::SingleInput => f.call_single(data.first().copied().unwrap_or(f64::NAN)),
        JITSignature::DataAndParameter => f.call_data_param(data[0], params[0]),
        JITSignature::DataAndParameters(_) => f.call_data_params(data[0], params),
        _ => f.call_batch(data, params),
    })
}

/// The call form promised for that many data and parameter variables.
pub fn form_ok(s: &JITSignature, nd: usize, np: usize) -> bool {
    match s {
        JITSignature::SingleInput => nd == 1 && np == 0,
        JITSignature::DataAndParameter => nd == 1 && np == 1,
        JITSignature::DataAndParameters(n) => nd == 1 && *n == np,
        JITSignature::MultipleDataAndParameters { data_dims, param_dims } => *data_dims == nd && *param_dims == np,
        JITSignature::Custom { .. } => false,
    }
}

pub fn judge(k: &mut Check, key: impl Fn() -> String, want: R, got: Result<f64, String>) {
    match (want, got) {
        (R::Val(v, e), Ok(g)) => match agree(v, e, g, e) {
            Agree::Yes => {
                k.pass(g);
                k.sample(|| format!("{} = {g:?}", key()));
            }
            Agree::Skip => k.outside += 1,
            Agree::No => {
                k.transitions += 1;
                k.fail(&key(), &format!("compiled code returns {g:?}, the value is {v:?}"));
            }
        },
        (R::Val(..), Err(p)) => {
            k.transitions += 1;
            k.fail(&key(), &format!("panic: {p}"));
        }
        _ => k.outside += 1,
    }
}

pub type Compile<'a> = &'a dyn Fn(&T, &[usize], &[usize], &HashMap<String, f64>) -> Result<Result<GeneralJITFunction, JITError>, String>;

pub fn compile(t: &T, data: &[usize], params: &[usize], constants: &HashMap<String, f64>) -> Result<Result<GeneralJITFunction, JITError>, String> {
    let e = to_expr(t);
    quiet(|| GeneralJITCompiler::new().and_then(|j| j.compile_expression(&e, &names(data), &names(params), constants)))
}

/// Compile with x and y as data and compare at every assignment, twice, in both orders.
fn breadth(k: &mut Check, t: &Rc<T>, all: &[Env]) {
    k.at(&format!("jit|{}", show(t)), true);
    k.state();
    let vs = var_set(t);
    let data: Vec<usize> = if vs[1] { vec![0, 1] } else { vec![0] };
    let f = match compile(t, &data, &[], &HashMap::new()) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return k.fail(&format!("jit|{}", show(t)), &format!("does not compile: {e}")),
        Err(p) => return k.fail(&format!("jit|{}", show(t)), &format!("panic: {p}")),
    };
    k.trace();
    let list = if vs[1] || all.len() > XS.len() && all[0][1].is_none() { all } else { &all[..XS.len()] };
    let mut first = vec![];
    for env in list {
        let d: Vec<f64> = data.iter().map(|i| env[*i].unwrap()).collect();
        let got = call(&f, &d, &[]);
        first.push(got.clone().map(f64::to_bits));
        judge(k, || format!("jit|{}|{}", show(t), show_env(env)), ev(t, env), got);
    }
    for (env, one) in list.iter().zip(&first).rev() {
        let d: Vec<f64> = data.iter().map(|i| env[*i].unwrap()).collect();
        k.transitions += 1;
        if call(&f, &d, &[]).map(f64::to_bits) != *one && matches!(ev(t, env), R::Val(..)) {
            k.fail(&format!("jit-again|{}|{}", show(t), show_env(env)), "a second call answers differently");
        }
    }
}

pub fn asymmetric() -> Vec<Rc<T>> {
    let (x, y, z, w) = (v(0), v(1), v(2), v(3));
    let lin = bi(B::Sub, &bi(B::Add, &x, &bi(B::Mul, &c(2.0), &y)), &bi(B::Add, &bi(B::Mul, &c(5.0), &z), &bi(B::Mul, &c(11.0), &w)));
    vec![
        lin,
        bi(B::Sub, &bi(B::Div, &x, &y), &bi(B::Pow, &z, &w)),
        bi(B::Add, &un(U::Sin, &bi(B::Mul, &x, &y)), &un(U::Exp, &bi(B::Sub, &z, &w))),
        bi(B::Div, &bi(B::Sub, &x, &y), &z),
        bi(B::Sub, &un(U::Ln, &x), &un(U::Cos, &y)),
        bi(B::Pow, &x, &y),
        un(U::Neg, &un(U::Sqrt, &x)),
        bi(B::Sub, &w, &un(U::Exp, &z)),
        c(3.5),
        y.clone(),
    ]
}

/// Every way to bind the four variables (data, parameter, constant, not at all), in every order.
pub fn bindings(k: &mut Check, what: &str, t: &Rc<T>, compile: Compile) {
    let vs = var_set(t);
    let used: Vec<usize> = (0..4).filter(|i| vs[*i]).collect();
    // an unused variable may be bound, too
    let spare = (0..4).find(|i| !vs[*i]);
    let mut slots = used.clone();
    slots.extend(spare);
    let points: [Env; 3] = [
        [Some(1.25), Some(2.5), Some(0.75), Some(3.0)],
        [Some(7.0), Some(-3.0), Some(2.0), Some(-2.0)],
        [Some(0.5), Some(4.0), Some(1.5), Some(0.25)],
    ];
    for roles in mc::sequences(4, slots.len()) {
        let pick = |r: usize| -> Vec<usize> { slots.iter().zip(&roles).filter(|(_, q)| **q == r).map(|(s, _)| *s).collect() };
        let (d, p, q, n) = (pick(0), pick(1), pick(2), pick(3));
        if let Some(s) = spare
            && n.contains(&s)
            && roles.iter().any(|r| *r == 3)
            && n.len() > 1
        {
            continue; // the same as without the spare one
        }
        let bound = !n.iter().any(|i| vs[*i]);
        for dp in mc::permutations(d.len()) {
            for pp in mc::permutations(p.len()) {
                let data: Vec<usize> = dp.iter().map(|i| d[*i]).collect();
                let params: Vec<usize> = pp.iter().map(|i| p[*i]).collect();
                let key = format!("{what}|{}|data {:?}|params {:?}|constants {:?}", show(t), names(&data), names(&params), names(&q));
                k.at(&key, true);
                k.state();
                let constants: HashMap<String, f64> = q.iter().map(|i| (var_names()[*i].to_string(), points[0][*i].unwrap())).collect();
                let f = match compile(t, &data, &params, &constants) {
                    Err(m) => {
                        k.fail(&key, &format!("panic: {m}"));
                        continue;
                    }
                    Ok(Ok(f)) => {
                        k.transitions += 1;
                        if !bound {
                            k.fail(&key, "compiles although a variable is not bound");
                            continue;
                        }
                        f
                    }
                    Ok(Err(e)) => {
                        k.transitions += 1;
                        if bound {
                            k.fail(&key, &format!("does not compile: {e}"));
                        }
                        continue;
                    }
                };
                k.trace();
                k.require(&key, form_ok(&f.signature, data.len(), params.len()), || format!("call form {:?}", f.signature));
                for pt in &points {
                    let mut env = *pt;
                    for i in &q {
                        env[*i] = points[0][*i];
                    }
                    let dv: Vec<f64> = data.iter().map(|i| env[*i].unwrap()).collect();
                    let pv: Vec<f64> = params.iter().map(|i| env[*i].unwrap()).collect();
                    for _ in 0..2 {
                        judge(k, || format!("{key}|{}", show_env(&env)), ev(t, &env), call(&f, &dv, &pv));
                    }
                }
            }
        }
    }
}

/// Single-variable densities with parameters.
fn custom(k: &mut Check, t: &Rc<T>) {
    let vs = var_set(t);
    let used: Vec<usize> = (0..4).filter(|i| vs[*i]).collect();
    for mask in 0..1usize << used.len() {
        let params: Vec<usize> = used.iter().enumerate().filter(|(j, _)| mask >> j & 1 == 1).map(|(_, i)| *i).collect();
        let free: Vec<usize> = used.iter().copied().filter(|i| !params.contains(i)).collect();
        let key = format!("custom|{}|parameters {:?}", show(t), names(&params));
        k.at(&key, true);
        k.state();
        let mut env: Env = [Some(1.25), Some(2.5), Some(0.75), Some(3.0)];
        let map: HashMap<String, f64> = params.iter().map(|i| (var_names()[*i].to_string(), env[*i].unwrap())).collect();
        let s = CustomSymbolicLogDensity::new(to_expr(t), map.clone());
        for simplified in [false, true] {
            let s = if simplified { s.clone().simplify() } else { s.clone() };
            let key = format!("{key}|{}", if simplified { "simplified" } else { "plain" });
            let f = match quiet(|| GeneralJITCompiler::new().and_then(|j| j.compile_custom_expression(&s))) {
                Err(m) => {
                    k.fail(&key, &format!("panic: {m}"));
                    continue;
                }
                Ok(Err(e)) => {
                    k.transitions += 1;
                    if free.len() <= 1 {
                        k.fail(&key, &format!("does not compile: {e}"));
                    }
                    continue;
                }
                Ok(Ok(f)) => {
                    k.transitions += 1;
                    if free.len() > 1 && !simplified {
                        k.fail(&key, "compiles although two variables are free");
                        continue;
                    }
                    f
                }
            };
            k.trace();
            for x in [1.5, 4.0, -2.0, 0.25] {
                if let Some(i) = free.first() {
                    env[*i] = Some(x);
                }
                judge(k, || format!("{key}|{}", show_env(&env)), ev(t, &env), call(&f, &[x], &[]));
                // the interpreted routes of the same object
                if let Some(i) = free.first() {
                    judge(k, || format!("{key}|single|{}", show_env(&env)), ev(t, &env), quiet(|| s.evaluate_single(var_names()[*i], x).unwrap_or(f64::NAN)));
                    let m: HashMap<String, f64> = [(var_names()[*i].to_string(), x)].into();
                    judge(k, || format!("{key}|map|{}", show_env(&env)), ev(t, &env), quiet(|| s.evaluate(&m).unwrap_or(f64::NAN)));
                }
            }
        }
    }
}

/// Many inputs: sum over i of (i + 1) * input i, with a call in between, so that every input counts.
fn wide(k: &mut Check, nd: usize, np: usize) {
    use symbolic_math::Expr;
    let key = format!("wide|{nd} data|{np} params");
    k.at(&key, true);
    k.state();
    let dn: Vec<String> = (0..nd).map(|i| format!("d{i}")).collect();
    let pn: Vec<String> = (0..np).map(|i| format!("p{i}")).collect();
    let mut e = Expr::Const(0.5);
    for (i, n) in dn.iter().chain(&pn).enumerate() {
        e = e + Expr::Const((i + 1) as f64) * Expr::variable(n.clone());
    }
    let e = e + Expr::exp(Expr::Const(0.0));
    let f = match quiet(|| GeneralJITCompiler::new().and_then(|j| j.compile_expression(&e, &dn, &pn, &HashMap::new()))) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return k.fail(&key, &format!("does not compile: {e}")),
        Err(p) => return k.fail(&key, &format!("panic: {p}")),
    };
    k.trace();
    k.require(&key, form_ok(&f.signature, nd, np), || format!("call form {:?}", f.signature));
    for round in 0..3 {
        let val = |i: usize| ((i * 7 + round * 3) % 11) as f64 - 4.0;
        let d: Vec<f64> = (0..nd).map(val).collect();
        let p: Vec<f64> = (0..np).map(|i| val(i + nd)).collect();
        let want = 1.5 + d.iter().chain(&p).enumerate().map(|(i, x)| (i + 1) as f64 * x).sum::<f64>();
        judge(k, || format!("{key}|{round}"), R::Val(want, 0.0), call(&f, &d, &p));
    }
}

/// Expressions that keep many values alive across calls.
fn deep(k: &mut Check, kind: usize, n: u32) {
    let mut key = format!("deep|{kind}|{n}");
    k.at(&key, true);
    let x = v(0);
    let f = [U::Sin, U::Cos, U::Exp, U::Neg, U::Sqrt];
    let t: Rc<T> = match kind {
        // balanced tree of calls
        0 => {
            fn tree(d: u32, i: &mut u32) -> Rc<T> {
                if d == 0 {
                    *i += 1;
                    return un([U::Sin, U::Cos][(*i % 2) as usize], &bi(B::Mul, &c(f64::from(*i) * 0.125), &v(0)));
                }
                let (a, b) = (tree(d - 1, i), tree(d - 1, i));
                bi([B::Add, B::Sub, B::Mul][(d % 3) as usize], &a, &b)
            }
            tree(n, &mut 0)
        }
        // right-leaning chain: everything stays alive until the end
        1 => {
            let mut t = un(U::Sin, &x);
            for i in 0..n {
                t = bi(B::Add, &un(f[(i % 2) as usize], &bi(B::Add, &x, &c(f64::from(i) * 0.5))), &t);
            }
            t
        }
        // left-leaning chain
        2 => {
            let mut t = x.clone();
            for i in 0..n {
                t = bi(B::Add, &bi(B::Div, &t, &c(2.0)), &un(f[(i % 2) as usize], &x));
            }
            t
        }
        // nested calls
        _ => {
            let mut t = x.clone();
            for i in 0..n {
                t = un(f[(i % 4) as usize], &t);
                if i % 4 == 2 {
                    t = un(U::Ln, &t);
                }
            }
            t
        }
    };
    k.state();
    key.push('|');
    let j = match compile(&t, &[0], &[], &HashMap::new()) {
        Ok(Ok(f)) => f,
        Ok(Err(e)) => return k.fail(&key, &format!("does not compile: {e}")),
        Err(p) => return k.fail(&key, &format!("panic: {p}")),
    };
    k.trace();
    for x in XS {
        let env = env1(x);
        judge(k, || format!("{key}{}", show_env(&env)), ev(&t, &env), call(&j, &[x], &[]));
    }
}

/// Several functions alive at once, called in every interleaving of two rounds.
fn together(k: &mut Check) {
    let x = v(0);
    let ts = [bi(B::Pow, &x, &c(2.0)), un(U::Exp, &x), bi(B::Sub, &c(1.0), &x), bi(B::Pow, &x, &c(5.0))];
    let fs: Vec<_> = ts.iter().map(|t| compile(t, &[0], &[], &HashMap::new())).collect();
    for s in mc::sequences(4, 6) {
        k.trace();
        for (step, i) in s.iter().enumerate() {
            let x = [0.5, 2.0, -1.0][step % 3];
            let key = || format!("together|{s:?}|{step}");
            if let Ok(Ok(f)) = &fs[*i] {
                judge(k, key, ev(&ts[*i], &env1(x)), call(f, &[x], &[]));
            } else {
                k.fail(&key(), "does not compile");
            }
        }
    }
}

pub fn c13() {
    let mut k = Check::new("C13");
    let th = k.thorough();
    let all = envs();
    // each shard takes every S-th term of every family
    #[allow(non_snake_case)]
    let S: usize = if th { 480 } else { 120 };
    k.shards(S, Duration::from_secs(60), |k, shard| {
        let mut n = 0usize;
        let mut mine = || {
            n += 1;
            n % S == shard
        };
        let l3 = vec![v(0), v(1), c(2.0)];
        let h1 = height1(&l3);
        for t in grow(&l3, &h1) {
            if mine() {
                breadth(k, &t, &all);
            }
        }
        let l7 = vec![v(0), v(1), c(0.0), c(1.0), c(3.0), c(-1.0), c(0.5)];
        chains(&l7, 2, &mut |t| {
            if mine() {
                breadth(k, t, &all);
            }
        });
        chains(&[v(0), c(2.0)], 4, &mut |t| {
            if mine() {
                breadth(k, t, &all);
            }
        });
        if th {
            chains(&l7, 3, &mut |t| {
                if mine() {
                    breadth(k, t, &all);
                }
            });
        }
        for q in POOL {
            chains(&[v(0), c(q)], 2, &mut |t| {
                if mine() {
                    breadth(k, t, &all);
                }
            });
        }
        // powers with every exponent of a grid, on variables and on composed bases
        for i in -40..=40 {
            for base in [v(0), bi(B::Add, &v(0), &c(1.0)), un(U::Exp, &v(0)), v(1)] {
                if mine() {
                    let t = bi(B::Pow, &base, &c(f64::from(i) * 0.25));
                    breadth(k, &t, &all);
                    breadth(k, &t, &far_envs());
                }
            }
        }
        // every single operation over many magnitudes
        for t in single_operations(&values()) {
            if mine() {
                breadth(k, &t, &value_envs(&t));
            }
        }
        // near the ends of the number type
        let far = far_envs();
        for (i, q) in FAR.iter().enumerate() {
            chains(&[v(0), v(1), c(*q)], 2, &mut |t| {
                if mine() && somewhere(t, &far) {
                    breadth(k, t, &far);
                }
            });
            for r in &FAR[i + 1..] {
                chains(&[v(0), c(*q), c(*r)], 2, &mut |t| {
                    if mine() && somewhere(t, &far) {
                        breadth(k, t, &far);
                    }
                });
            }
        }
        for t in single_operations(&POOL) {
            if mine() {
                breadth(k, &t, &far);
            }
        }
        // long terms
        for t in long_list(th) {
            if mine() && somewhere(&t, &all) {
                breadth(k, &t, &all);
            }
        }
        // the names of the variables do not matter
        let mut turn = 0usize;
        renamed(1..SETS, || {
            for t in grow(&[v(0), v(1)], &height1(&[v(0), v(1)])) {
                turn += 1;
                if turn % S == shard {
                    breadth(k, &t, &all);
                }
            }
            for (i, t) in asymmetric().iter().enumerate().take(4) {
                turn += 1;
                if turn % S == shard {
                    if i != 1 || th {
                        bindings(k, "bind", t, &compile);
                    }
                    custom(k, t);
                }
            }
        });
        c13_rest(k, shard, S);
        c13_forms(k, shard, S);
        {
            let l5 = vec![v(0), v(1), c(2.0), c(-1.0), c(0.5)];
            let h1 = height1(&l5);
            for o in BS {
                for a in &h1 {
                    for b in &h1 {
                        if mine() {
                            breadth(k, &bi(o, a, b), &all);
                        }
                    }
                }
            }
        }
    });
    k.extra_s("jit", "x86-64 code produced by the real compiler, run in worker processes");
    k.finish("every term of height 2 over {x,y,2,-1,1/2}; every chain of 2 frames over {x,y,0,1,3,-1,1/2}, of 4 frames over {x,2} (thorough: 3 over all seven), of 2 frames over {x,c} for 34 constants; powers with 81 exponents; every operation with 700 constants at 700 values, chains of 2 frames over {x,y,c} and {x,c,d} for 9 constants from 3e-310 to 1.5e308 at assignments of such sizes, and at pairs of 63 values; bindings and single-variable functions under each of 16 sets of variable names; every call repeated in reverse order; every binding of four variables (data, parameter, constant, unbound) in every order for 10 terms; every parameter split of single-variable densities; up to 100 data and 100 parameters; deep and wide expressions; every call sequence of length 6 over four functions alive at once");
}

pub fn c13_rest(k: &mut Check, shard: usize, of: usize) {
    for (i, t) in asymmetric().iter().enumerate() {
        if i % of == shard {
            bindings(k, "bind", t, &compile);
        }
        if (i + 1) % of == shard {
            custom(k, t);
        }
    }
}

pub fn c13_forms(k: &mut Check, shard: usize, of: usize) {
    let mut n = 0usize;
    let mut mine = || {
        n += 1;
        n % of == shard
    };
    for nd in (0..=12).chain([16, 17, 31, 64, 100]) {
        for np in (0..=12).chain([16, 17, 31, 64, 100]) {
            if mine() {
                wide(k, nd, np);
            }
        }
    }
    for (kind, max) in [(0, 7), (1, 60), (2, 60), (3, 40)] {
        for n in 0..=max {
            if mine() {
                deep(k, kind, n);
            }
        }
    }
    // custom densities of every small term in one or two variables
    let l = vec![v(0), v(1), c(2.0)];
    for t in height1(&l) {
        if mine() {
            custom(k, &t);
        }
    }
    if shard == 0 {
        together(k);
    }
}
