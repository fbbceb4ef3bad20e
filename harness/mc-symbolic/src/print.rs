//! C21: printed forms denote the same expression.

use crate::ast::*;
use crate::parse::*;
use crate::sym::*;
use mc::{Check, quiet};
use std::rc::Rc;
use symbolic_math::display;

/// The text read back must mean what the term means, for every assignment.
pub fn reads_back(k: &mut Check, what: &str, t: &T, text: &str, lang: Lang, envs: &[Env]) {
    let p = match parse(text, lang) {
        Ok(p) => p,
        Err(e) => {
            k.transitions += 1;
            return k.fail(&format!("{what}|{}", show(t)), &format!("{text:?} cannot be read: {e}"));
        }
    };
    if same_tree(t, &p) {
        return k.pass(0.0);
    }
    for env in envs {
        let (a, b) = (ev(t, env), ev(&p, env));
        let ok = match (a, b) {
            (R::Val(v0, e0), R::Val(v1, e1)) => !matches!(agree(v0, e0, v1, e1), Agree::No),
            (R::Val(..), R::Undef(_)) | (R::Undef(_), R::Val(..)) => false,
            _ => {
                k.outside += 1;
                continue;
            }
        };
        k.transitions += 1;
        if !ok {
            k.fail(&format!("{what}|{}|{}", show(t), show_env(env)), &format!("{text:?} has value {b:?}, the expression {a:?}"));
            return;
        }
    }
}

/// The same tree up to signs of constants.
fn same_tree(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::C(x), T::C(y)) => x == y,
        (T::C(x), T::U(U::Neg, n)) => matches!(**n, T::C(y) if -y == *x),
        (T::V(i), T::V(j)) => i == j,
        (T::U(o, a), T::U(p, b)) => o == p && same_tree(a, b),
        (T::B(o, a, b), T::B(p, c, d)) => o == p && same_tree(a, c) && same_tree(b, d),
        _ => false,
    }
}

fn one(k: &mut Check, t: &Rc<T>, all: &[Env], wrappers: bool) {
    k.tick(|| format!("print|{}", show(t)));
    k.state();
    k.trace();
    let e = to_expr(t);
    let got = quiet(|| (format!("{e}"), e.to_python(), e.to_latex()));
    let Ok((plain, python, latex)) = got else {
        return k.fail(&format!("print|{}", show(t)), "panic");
    };
    // a name like \nu is one for LaTeX only, one like _a for the others
    let mine = var_set(t);
    let begins = |c: char| (0..4).any(|i| mine[i] && var_names()[i].starts_with(c));
    if !begins('_') {
        reads_back(k, "latex", t, &latex, Lang::Latex, all);
    }
    if begins('\\') {
        return;
    }
    reads_back(k, "plain", t, &plain, Lang::Plain, all);
    reads_back(k, "python", t, &python, Lang::Python, all);
    k.sample(|| format!("{}: {plain} ; {python} ; {latex}", show(t)));
    if wrappers {
        let got = quiet(|| (format!("{}", display::PrettyExpr(&e)), display::python(&e), display::latex(&e), display::equation("lhs", &e)));
        let Ok((pretty, py, tex, eq)) = got else {
            return k.fail(&format!("display|{}", show(t)), "panic");
        };
        reads_back(k, "pretty", t, &pretty, Lang::Plain, all);
        let mut inner = |what: &str, s: Option<&str>, whole: &str, lang: Lang| match s {
            Some(s) => reads_back(k, what, t, s, lang, all),
            None => k.fail(&format!("{what}|{}", show(t)), &format!("unexpected form {whole:?}")),
        };
        inner("display-python", py.strip_prefix("lambda vars:"), &py, Lang::Python);
        inner("equation", eq.strip_prefix("lhs ").and_then(|s| s.trim_start().strip_prefix('=')), &eq, Lang::Plain);
        if begins('_') {
            return;
        }
        inner("display-latex", tex.strip_prefix('$').and_then(|s| s.strip_suffix('$')), &tex, Lang::Latex);
    }
}

/// Constants over all magnitudes and shapes of mantissa.
pub fn number_grid(step: usize) -> Vec<f64> {
    let mut out = vec![];
    for e in (1u64..2047).step_by(step) {
        for m in [0u64, 1, 0x8_0000_0000_0000, 0xF_FFFF_FFFF_FFFF, 0x5_5555_5555_5555, 0x9_9999_9999_999A, 0x2_1FB5_4442_D18] {
            out.push(f64::from_bits(e << 52 | m));
        }
    }
    for i in 0..=200 {
        for d in [1.0, 2.0, 3.0, 7.0, 10.0, 100.0, 1e4] {
            out.push(f64::from(i) / d);
        }
    }
    for p in 0..=22 {
        let t = 10f64.powi(p);
        out.extend([t, t + 1.0, t - 1.0, t + 0.5, 1.0 / t, t * 1.5, t * 9.999]);
    }
    out.push(5e-324);
    out.push(f64::MAX);
    out
}

pub fn c21() {
    let mut k = Check::new("C21");
    let th = k.thorough();
    let all = envs();
    let l7 = || vec![v(0), v(1), c(0.5), c(1.0), c(2.0), c(-1.0), c(-2.5)];
    let n1 = height1(&l7()).len();
    k.parallel(n1 + 1, |k, part| {
        let leaves = l7();
        let h1 = height1(&leaves);
        let Some(a) = h1.get(part) else {
            for t in &leaves {
                one(k, t, &all, true);
            }
            return;
        };
        for o in US {
            one(k, &un(o, a), &all, true);
        }
        for o in BS {
            for b in &h1 {
                one(k, &bi(o, a, b), &all, true);
            }
        }
    });
    // chains: every operator inside every operator inside every operator, on both sides
    k.parallel(chain_parts(5), |k, part| {
        let l = vec![v(0), v(1), c(1.0), c(-1.0), c(2.0)];
        chains_part(&l, 3, part, &mut |t| one(k, t, &all, false));
    });
    for set in [[-2.0, 3.0], [-1.0, 0.5]] {
        k.parallel(chain_parts(3), |k, part| {
            let l = vec![v(0), c(set[0]), c(set[1])];
            chains_part(&l, if th { 5 } else { 4 }, part, &mut |t| one(k, t, &all, false));
        });
    }
    long(&mut k, &all, |k, t| one(k, t, &all, false));
    // names of other shapes
    renamed(1..IDENTIFIERS + 1, || {
        k.parallel(chain_parts(5), |k, part| {
            chains_part(&[v(0), v(1), c(2.0), c(-1.0), c(0.5)], 2, part, &mut |t| one(k, t, &all, true));
        });
    });
    // every constant alone and in every operator position
    let grid = number_grid(if th { 1 } else { 4 });
    k.extra_n("constants", 2 * grid.len() as u64);
    k.parallel(64, |k, part| {
        for x in grid.iter().skip(part).step_by(64) {
            for q in [*x, -*x] {
                let cq = c(q);
                k.state();
                let e = to_expr(&cq);
                for (what, text, lang) in [("plain", format!("{e}"), Lang::Plain), ("python", e.to_python(), Lang::Python), ("latex", e.to_latex(), Lang::Latex)] {
                    let back = parse(&text, lang).map(|t| ev(&t, &[None; 4]));
                    k.require(&format!("constant|{what}|{q:?}"), matches!(&back, Ok(R::Val(b, _)) if *b == q) || matches!(&back, Ok(R::Unsure)) && text.trim_start_matches('-').parse::<f64>() == Ok(q.abs()) || q.abs() > 1e290 && text.parse::<f64>() == Ok(q), || format!("printed as {text:?}"));
                }
                for t in [bi(B::Mul, &cq, &v(0)), bi(B::Mul, &v(0), &cq), bi(B::Add, &v(0), &cq), bi(B::Sub, &v(0), &cq), bi(B::Pow, &cq, &v(0)), bi(B::Pow, &v(0), &cq), un(U::Neg, &cq), bi(B::Mul, &cq, &bi(B::Mul, &cq, &v(0))), bi(B::Mul, &cq, &cq), bi(B::Pow, &bi(B::Mul, &cq, &v(0)), &c(2.0))] {
                    one(k, &t, &all[..9], false);
                }
            }
        }
    });
    k.extra_s("oracle", "the checker's own readers for the three notations (powers right-associative and tighter than signs), then the reference meaning");
    k.finish("every term of height 2 over {x,y,1/2,1,2,-1,-5/2} in seven printed forms; every chain of 3 frames over {x,y,1,-1,2}, of 4 frames over {x,-2,3} and {x,-1,1/2}, in three notations; repeated patterns of up to 64 frames and balanced terms of 32 leaves; constants over the exponent range with seven mantissas and decimal grids, alone and in ten contexts; chains of 2 frames under the sets of variable names the notation can carry; 13 assignments");
}
