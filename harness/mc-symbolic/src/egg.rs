//! C12: the e-graph optimiser.

use crate::ast::*;
use crate::sym::*;
use mc::{Check, quiet};
use std::rc::Rc;
use symbolic_math::optimization::EgglogOptimizer;
use symbolic_math::{EgglogOptimize, Expr};

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// The optimiser prints what it extracts: keep that out of the check's output.
pub struct Mute(i32);
impl Mute {
    pub fn new() -> Self {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        unsafe {
            let old = dup(1);
            dup2(null.as_raw_fd(), 1);
            Mute(old)
        }
    }
}
impl Drop for Mute {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.0, 1);
            close(self.0);
        }
    }
}

fn one(k: &mut Check, o: &mut EgglogOptimizer, t: &Rc<T>, envs: &[Env]) {
    k.tick(|| format!("egraph|{}", show(t)));
    k.state();
    k.trace();
    let e = to_expr(t);
    match quiet(|| o.optimize(&e)) {
        Ok(Ok(s)) => {
            if s == e {
                k.pass(0.0);
            } else {
                k.bump("rewritten", 1);
                same_value(k, "egraph", t, &s, envs, false);
                far(k, t, &s);
            }
        }
        Ok(Err(err)) => k.fail(&format!("egraph|{}", show(t)), &format!("error: {err}")),
        Err(p) => {
            k.fail(&format!("egraph|{}", show(t)), &format!("panic: {p}"));
            *o = EgglogOptimizer::new().expect("optimizer");
        }
    }
}

/// The result near the ends of the number type. The rules gather products and quotients (of fractions, of the arguments of
/// logarithms) whatever their size: a finding of its own, told apart here from every other disagreement.
fn far(k: &mut Check, t: &Rc<T>, s: &Expr) {
    fn beyond(e: &Expr, env: &Env) -> bool {
        let known = |e: &Expr| matches!(ev_expr(e, env), R::Val(..));
        match e {
            Expr::Mul(a, b) | Expr::Div(a, b) if known(a) && known(b) => ev_expr(e, env) == R::Undef(OVER),
            Expr::Const(_) | Expr::Var(_) => false,
            Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => beyond(a, env),
            Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => beyond(a, env) || beyond(b, env),
        }
    }
    for env in far_envs() {
        if matches!(ev(t, &env), R::Val(..)) && beyond(s, &env) {
            k.transitions += 1;
            k.fail("egraph|a gathered product or quotient leaves the range", &format!("{} becomes {s}, which overflows at {}", show(t), show_env(&env)));
        } else {
            same_value(k, "egraph", t, s, &[env], false);
        }
    }
}

pub fn c12() {
    let mut k = Check::new("C12");
    let th = k.thorough();
    let all = envs();
    let four: Vec<Env> = all.iter().map(|e| [e[0], e[1], e[0].map(|x| 2.0 - x), e[1].map(|y| y * 0.5 + 7.0)]).collect();
    let mute = Mute::new();
    let t0 = std::time::Instant::now();
    let lap = |what: &str| {
        if std::env::var_os("MC_GROUPS").is_some() {
            eprintln!("{what}: {:.1}", t0.elapsed().as_secs_f64());
        }
    };
    // every term of height 2 over {x, y, 2}
    let l3 = || vec![v(0), v(1), c(2.0)];
    let n1 = height1(&l3()).len();
    k.parallel(n1, |k, part| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        let h1 = height1(&l3());
        let a = &h1[part];
        one(k, &mut o, a, &all);
        for u in US {
            one(k, &mut o, &un(u, a), &all);
        }
        for b in BS {
            for r in &h1 {
                one(k, &mut o, &bi(b, a, r), &all);
            }
        }
    });
    lap("h2");
    // chains of two frames over six leaves
    let l6 = || vec![v(0), v(1), c(0.0), c(1.0), c(-1.0), c(0.5)];
    k.parallel(chain_parts(6), |k, part| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        chains_part(&l6(), 2, part, &mut |t| one(k, &mut o, t, &all));
    });
    lap("chains2");
    // chains of three frames over {x, 2}
    k.parallel(chain_parts(2) * 26, |k, part| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        let l = vec![v(0), c(2.0)];
        let mut n = 0usize;
        chains_part(&l, 3, part / 26, &mut |t| {
            if n % 26 == part % 26 {
                one(k, &mut o, t, &all);
            }
            n += 1;
        });
    });
    lap("chains3");
    // two frames with every constant of the pool
    let pool: &[f64] = if th { &POOL } else { &[0.0, -0.0, -2.0, 3.0, 4.0, 0.1, 1.0 / 3.0, 1.5, 1e-17, 1e16] };
    k.extra_n("constants", pool.len() as u64);
    k.parallel(pool.len() * 2, |k, i| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        let l = vec![v(0), c(pool[i / 2])];
        let mut n = 0usize;
        chains(&l, 2, &mut |t| {
            if n % 2 == i % 2 {
                one(k, &mut o, t, &all);
            }
            n += 1;
        });
    });
    lap("pool");
    // (c o1 x) o (d o2 x), all operators, all orders, constants that laws depend on
    let cs = [0.5, 2.0, 3.0, -1.0, -2.0, 4.0];
    k.parallel(36, |k, part| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        let side = |q: f64| -> Vec<Rc<T>> {
            let mut w = vec![];
            for b in BS {
                w.push(bi(b, &c(q), &v(0)));
                w.push(bi(b, &v(0), &c(q)));
            }
            w
        };
        for a in side(cs[part / 6]) {
            for d in side(cs[part % 6]) {
                for b in BS {
                    one(k, &mut o, &bi(b, &a, &d), &all);
                }
            }
        }
    });
    lap("laws");
    // f(g(x)) o h(i(y)) and f(g(x)) o h(i(x))
    let nest = |x: u8| -> Vec<Rc<T>> {
        let mut w = vec![v(x)];
        for a in US {
            w.push(un(a, &v(x)));
            for b in US {
                w.push(un(b, &un(a, &v(x))));
            }
        }
        w
    };
    k.parallel(43, |k, part| {
        let mut o = EgglogOptimizer::new().expect("optimizer");
        let a = &nest(0)[part];
        for b in BS {
            for x in [0, 1] {
                if x == 1 && !th && part % 2 == 1 {
                    continue;
                }
                for d in nest(x) {
                    one(k, &mut o, &bi(b, a, &d), &all);
                }
            }
        }
    });
    lap("nest");
    // histories: every ordered pair of a list of terms on one instance, then the first one again
    let list = || -> Vec<Rc<T>> {
        let (x, y) = (v(0), v(1));
        let mut w = vec![];
        for o in [U::Ln, U::Exp, U::Sqrt, U::Neg] {
            w.push(un(o, &x));
            for p in [U::Ln, U::Exp, U::Sqrt] {
                w.push(un(o, &un(p, &x)));
            }
            for b in [B::Mul, B::Div, B::Sub] {
                w.push(un(o, &bi(b, &x, &y)));
                w.push(bi(b, &un(o, &x), &un(o, &y)));
            }
            w.push(un(o, &bi(B::Pow, &x, &c(2.0))));
            w.push(un(o, &bi(B::Pow, &x, &c(3.0))));
        }
        for b in BS {
            w.push(bi(b, &x, &x));
            w.push(bi(b, &c(0.0), &x));
            w.push(bi(b, &x, &c(0.5)));
            w.push(bi(b, &bi(B::Div, &x, &x), &y));
            w.push(bi(b, &bi(B::Pow, &x, &y), &bi(B::Pow, &x, &x)));
        }
        w
    };
    let m = list().len();
    k.extra_n("history_terms", m as u64);
    k.parallel(m, |k, i| {
        let w = list();
        let mut base = vec![];
        for t in &w {
            base.push(quiet(|| to_expr(t).optimize_with_egglog()));
        }
        for j in 0..w.len() {
            let mut o = EgglogOptimizer::new().expect("optimizer");
            k.trace();
            for step in [i, j, i] {
                let t = &w[step];
                k.tick(|| format!("history|{}|{}", show(&w[i]), show(&w[j])));
                k.state();
                let key = format!("history|{}|{}|{}", show(&w[i]), show(&w[j]), show(t));
                let got = quiet(|| o.optimize(&to_expr(t)));
                match (&got, &base[step]) {
                    (Ok(Ok(g)), Ok(Ok(b))) => {
                        if g == b {
                            k.pass(0.0);
                        } else {
                            history_same(k, &key, t, g, b, &all);
                        }
                    }
                    (Ok(Err(_)), Ok(Err(_))) => k.pass(1.0),
                    _ => k.fail(&key, "one instance answers, a fresh one does not"),
                }
            }
        }
    });
    lap("histories");
    // the names of the variables do not matter
    renamed(1..SETS, || {
        k.parallel(chain_parts(2), |k, part| {
            let mut o = EgglogOptimizer::new().expect("optimizer");
            chains_part(&[v(0), v(1)], 2, part, &mut |t| one(k, &mut o, t, &all));
            if part == 0 {
                let (x, y, z, w) = (v(0), v(1), v(2), v(3));
                for t in [bi(B::Sub, &bi(B::Mul, &x, &y), &bi(B::Mul, &z, &w)), bi(B::Add, &bi(B::Div, &y, &x), &bi(B::Sub, &w, &z))] {
                    one(k, &mut o, &t, &four);
                }
            }
        });
    });
    lap("names");
    if th {
        k.parallel(chain_parts(3) * 36, |k, part| {
            let mut o = EgglogOptimizer::new().expect("optimizer");
            let l = vec![v(0), v(1), c(2.0)];
            let mut n = 0usize;
            chains_part(&l, 3, part / 36, &mut |t| {
                if n % 36 == part % 36 {
                    one(k, &mut o, t, &all);
                }
                n += 1;
            });
        });
        lap("chains3 three leaves");
        let l4 = || vec![v(0), v(1), c(2.0), c(-1.0)];
        let n1 = height1(&l4()).len();
        k.parallel(n1 * 4, |k, part| {
            let mut o = EgglogOptimizer::new().expect("optimizer");
            let h1 = height1(&l4());
            let a = &h1[part / 4];
            for b in BS {
                for r in h1.iter().skip(part % 4).step_by(4) {
                    one(k, &mut o, &bi(b, a, r), &all);
                }
            }
        });
        lap("h2 four leaves");
    }
    drop(mute);
    k.extra_s("oracle", "arithmetic meaning of the term with a forward error bound, computed by the checker's own evaluator");
    k.finish("every term of height 2 over {x,y,2}; every chain of 2 frames over {x,y,0,1,-1,1/2} and over {x,c} for a pool of constants c (10 quick, 34 thorough), of 3 frames over {x,2}; (c o x) o (d o x) for 36 pairs of constants; f(g(x)) o h(i(x or y)); every ordered pair of history terms on one instance, then the first again; chains of 2 frames over {x,y} and four-variable terms under each of 16 sets of variable names; up to 13 assignments each, and 11 from 1e-300 to 1e300");
}

/// Two results for the same term: each must mean what the term means (the caller has seen they differ
/// in form), so that a result never depends on the history.
fn history_same(k: &mut Check, key: &str, t: &T, g: &Expr, b: &Expr, envs: &[Env]) {
    k.bump("history_form_differs", 1);
    for env in envs {
        match (ev_expr(g, env), ev_expr(b, env)) {
            (R::Val(v0, e0), R::Val(v1, e1)) => match agree(v0, e0, v1, e1) {
                Agree::No if !matches!(agree(v0, e0 + folded_error(g, env), v1, e1 + folded_error(b, env)), Agree::No) => k.outside += 1,
                Agree::No => k.fail(&format!("{key}|{}", show_env(env)), &format!("{g} has value {v0:?}, a fresh instance gives {b} with value {v1:?}")),
                _ => k.pass(v0),
            },
            (R::Undef(_), R::Val(..)) => k.fail(&format!("{key}|{}", show_env(env)), &format!("{g} has no value, a fresh instance gives {b}")),
            (R::Val(..), R::Undef(_)) if matches!(ev(t, env), R::Val(..)) => k.outside += 1,
            _ => k.outside += 1,
        }
    }
}
