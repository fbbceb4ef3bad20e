//! All sequences of calls on the caches over expressions and bindings that are easily mistaken for each other.

use crate::{Op, World, bx, counts};
use mc::{Check, quiet};
use mc_shim::ctl;
use std::collections::HashMap;
use symbolic_math::expr::Expr;

pub fn depth(th: bool) -> usize {
    if th { 4 } else { 3 }
}

/// A sum of `n` terms over twelve variables, one of them with another constant.
fn chain(n: usize, other: usize, right: bool) -> Expr {
    let term = |i: usize| Expr::Mul(bx(Expr::Const(if i == other { 3.0 } else { 2.0 })), bx(Expr::Var(format!("v{}", i % 12))));
    (1..n).fold(term(0), |t, i| if right { Expr::Add(bx(term(i)), bx(t)) } else { Expr::Add(bx(t), bx(term(i))) })
}

/// A binding of twelve variables, one of them with another value.
fn twelve(other: usize) -> HashMap<String, f64> {
    (0..12).map(|i| (format!("v{i}"), if i == other { 0.5 } else { i as f64 })).collect()
}

fn worlds() -> Vec<(&'static str, World)> {
    use Expr::*;
    let v = |s: &str| Var(s.into());
    let c = Const;
    let map = |l: &[(&str, f64)]| -> HashMap<String, f64> { l.iter().map(|(n, x)| (n.to_string(), *x)).collect() };
    // a map with the same entries, built in another order and with another capacity
    let turned = |l: &[(&str, f64)]| -> HashMap<String, f64> {
        let mut m = HashMap::with_capacity(400);
        for i in 0..150 {
            m.insert(format!("t{i}"), 0.0);
        }
        for (n, x) in l.iter().rev() {
            m.insert(n.to_string(), *x);
        }
        m.retain(|n, _| !n.starts_with('t'));
        m
    };
    vec![
        // print alike
        (
            "names",
            World::new(
                vec![Add(bx(v("x")), bx(v("y"))), v("(x + y)"), v("x + y"), c(1.0), v("1"), v("Const(1.0)"), Neg(bx(c(1.0))), c(-1.0)],
                vec![map(&[("x", 2.0), ("y", 3.0), ("(x + y)", 11.0), ("x + y", 13.0), ("1", 17.0), ("Const(1.0)", 19.0)]), map(&[("x", 3.0), ("y", 2.0)])],
            ),
        ),
        // equal bindings in another order; permuted values; a name that hides a binding
        (
            "bindings",
            World::new(
                vec![Sub(bx(v("a")), bx(v("b"))), Div(bx(v("b")), bx(v("a")))],
                vec![
                    map(&[("a", 1.0), ("b", 2.0)]),
                    turned(&[("a", 1.0), ("b", 2.0)]),
                    map(&[("a", 2.0), ("b", 1.0)]),
                    map(&[("a", 1.0)]),
                    map(&[]),
                    map(&[("a", 1.0), ("b", 2.0), ("c", 3.0)]),
                    map(&[("a\": 1.0, \"b", 2.0)]),
                    map(&[("a", 1.0), ("b", 2.0000000000000004)]),
                ],
            ),
        ),
        // signs of zero, values that print alike at low precision, infinities, NaN
        (
            "values",
            World::new(
                vec![Div(bx(c(1.0)), bx(v("x"))), Div(bx(c(1.0)), bx(Mul(bx(v("x")), bx(c(-0.0))))), Sqrt(bx(v("x"))), Add(bx(v("x")), bx(c(0.0))), Sub(bx(c(0.0)), bx(v("x")))],
                vec![
                    map(&[("x", 0.0)]),
                    map(&[("x", -0.0)]),
                    map(&[("x", 1e-300)]),
                    map(&[("x", 0.1)]),
                    map(&[("x", 0.1 + f64::EPSILON / 8.0)]),
                    map(&[("x", f64::NAN)]),
                    map(&[("x", f64::INFINITY)]),
                    map(&[("x", -4.0)]),
                ],
            ),
        ),
        // the same sub-expressions in other places; constants that differ in the last place
        (
            "shapes",
            World::new(
                vec![
                    Sub(bx(v("x")), bx(Sub(bx(v("y")), bx(c(0.0))))),
                    Sub(bx(Sub(bx(v("x")), bx(v("y")))), bx(c(0.0))),
                    Sub(bx(v("y")), bx(Sub(bx(v("x")), bx(c(0.0))))),
                    Pow(bx(v("x")), bx(c(1.0))),
                    Pow(bx(c(1.0)), bx(v("x"))),
                    Mul(bx(v("x")), bx(c(0.1))),
                    Mul(bx(v("x")), bx(c(0.1 + f64::EPSILON / 8.0))),
                    Ln(bx(Exp(bx(v("x"))))),
                    Exp(bx(Ln(bx(v("x"))))),
                    Sin(bx(Add(bx(v("x")), bx(c(0.0))))),
                    Cos(bx(Add(bx(v("x")), bx(c(0.0))))),
                ],
                vec![map(&[("x", 3.0), ("y", 5.0)]), map(&[("x", -3.0), ("y", 5.0)])],
            ),
        ),
        // long expressions that differ at the start, in the middle or at the end only; bindings of many variables
        (
            "long",
            World::new(
                vec![
                    chain(60, usize::MAX, false),
                    chain(60, 0, false),
                    chain(60, 30, false),
                    chain(60, 59, false),
                    chain(60, 0, true),
                    chain(60, 59, true),
                    chain(59, usize::MAX, false),
                ],
                vec![twelve(usize::MAX), twelve(0), twelve(6), twelve(11)],
            ),
        ),
    ]
}

/// Calls whose arguments are equal (not merely alike) share an entry.
fn same(w: &World, a: Op, b: Op) -> bool {
    let eq = |i: usize, j: usize| format!("{:?}", w.exprs[i]) == format!("{:?}", w.exprs[j]);
    let bq = |i: usize, j: usize| {
        let (p, q) = (&w.binds[i], &w.binds[j]);
        p.len() == q.len() && p.iter().all(|(n, x)| q.get(n).is_some_and(|y| x.to_bits() == y.to_bits()))
    };
    match (a, b) {
        (Op::S(i), Op::S(j)) => eq(i, j),
        (Op::E(i, p), Op::E(j, q)) => eq(i, j) && bq(p, q),
        _ => false,
    }
}

/// Calls that may share an entry: their results are the same.
fn may(w: &World, a: Op, b: Op) -> bool {
    match (a, b) {
        (Op::S(i), Op::S(j)) => w.simple[i] == w.simple[j],
        (Op::E(i, p), Op::E(j, q)) => w.values[i][p] == w.values[j][q],
        _ => false,
    }
}

fn sequence(k: &mut Check, name: &str, w: &World, ops: &[Op], fresh: bool) {
    let key = || format!("sequence|{name}|{}{}", ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "), if fresh { "|first use" } else { "" });
    k.tick(key);
    k.state();
    k.trace();
    if fresh {
        ctl::new_epoch();
    } else if let Err(p) = quiet(clear) {
        return k.fail(&key(), &format!("clear_caches panicked: {p}"));
    }
    let mut before = match quiet(counts) {
        Ok(c) => c,
        Err(p) => return k.fail(&key(), &format!("get_cache_stats panicked: {p}")),
    };
    if before != [0; 4] {
        return k.fail(&key(), &format!("the counters start at {before:?}"));
    }
    let mut past: Vec<Op> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let r = quiet(|| w.call(*op));
        let now = quiet(counts);
        k.transitions += 1;
        let fail = |k: &mut Check, d: String| k.fail(&key(), &format!("call {i}: {d}"));
        let now = match (&r, &now) {
            (Err(p), _) | (_, Err(p)) => return fail(k, format!("panic: {p}")),
            (Ok(Err(e)), _) => return fail(k, e.clone()),
            (_, Ok(n)) => *n,
        };
        let d: Vec<i64> = (0..4).map(|i| i64::from(now[i]) - i64::from(before[i])).collect();
        match op {
            Op::Clear => {
                if now != [0; 4] {
                    return fail(k, format!("the counters are {now:?} after clearing"));
                }
                past.clear();
            }
            Op::Stats => {
                if now != before {
                    return fail(k, format!("reading the counters changed them from {before:?} to {now:?}"));
                }
            }
            _ => {
                let base = if matches!(op, Op::E(..)) { 2 } else { 0 };
                let fails = matches!(op, Op::E(i, j) if w.values[*i][*j].is_err());
                let hit = d[base] == 1;
                let mut want = vec![0; 4];
                want[base + usize::from(!hit)] = 1;
                if d != want {
                    return fail(k, format!("{op:?} moved the counters from {before:?} to {now:?}"));
                }
                if !hit && !fails && past.iter().any(|p| same(w, *p, *op)) {
                    return fail(k, format!("{op:?} is counted as a miss on a warm cache"));
                }
                if hit && !past.iter().any(|p| may(w, *p, *op)) {
                    return fail(k, format!("{op:?} is counted as a hit on a cold cache"));
                }
                past.push(*op);
                k.outcome(&format!("{op:?}{hit}{i}"));
            }
        }
        before = now;
    }
    // the rates are what the counters say
    let s = symbolic_math::expr::get_cache_stats();
    let rate = |h: u32, m: u32| if h + m == 0 { 0.0 } else { f64::from(h) / f64::from(h + m) };
    let ok = (s.simplification_hit_rate() - rate(before[0], before[1])).abs() < 1e-12 && (s.evaluation_hit_rate() - rate(before[2], before[3])).abs() < 1e-12;
    k.transitions += 1;
    if !ok {
        k.fail(&key(), &format!("hit rates {} and {} for counters {before:?}", s.simplification_hit_rate(), s.evaluation_hit_rate()));
    }
}

fn clear() {
    symbolic_math::expr::clear_caches();
}

pub fn run(k: &mut Check) {
    // the shards only explore interleavings
    if std::env::var_os("MC_SHARD").is_some() {
        return;
    }
    let th = k.thorough();
    for (name, w) in worlds() {
        let mut ops: Vec<Op> = (0..w.exprs.len()).map(Op::S).collect();
        for i in 0..w.exprs.len() {
            ops.extend((0..w.binds.len()).map(|j| Op::E(i, j)));
        }
        ops.extend([Op::Clear, Op::Stats]);
        for n in 1..=depth(th) {
            for s in mc::sequences(ops.len(), n) {
                let seq: Vec<Op> = s.iter().map(|i| ops[*i]).collect();
                sequence(k, name, &w, &seq, false);
                if n <= 2 {
                    sequence(k, name, &w, &seq, true);
                }
            }
        }
        // many entries: every one is still there, and clearing forgets them all
        let all: Vec<Op> = ops.iter().copied().filter(|o| matches!(o, Op::S(_) | Op::E(..))).collect();
        let twice: Vec<Op> = all.iter().chain(&all).copied().chain([Op::Clear]).chain(all.iter().copied()).collect();
        sequence(k, name, &w, &twice, true);
    }
    many(k);
}

/// Thousands of different expressions in one cache.
fn many(k: &mut Check) {
    let n = if k.thorough() { 200_000 } else { 20_000 };
    ctl::new_epoch();
    let e = |i: usize| Expr::Add(bx(Expr::Mul(bx(Expr::Var("x".into())), bx(Expr::Const(i as f64)))), bx(Expr::Const(0.0)));
    let m = HashMap::from([("x".to_string(), 2.0)]);
    for round in 0..2u32 {
        for i in 0..n {
            let got = quiet(|| (e(i).evaluate_cached(&m).ok(), format!("{:?}", e(i).simplify_cached())));
            let want = (Some(2.0 * i as f64), format!("{:?}", e(i).simplify()));
            k.transitions += 1;
            if got.as_ref() != Ok(&want) {
                return k.fail(&format!("many|{round}|{i}"), &format!("{got:?}, expected {want:?}"));
            }
        }
        let c = counts();
        let w = n as u32;
        let want = [round * w, w, round * w, w];
        k.require(&format!("many|{round}|counters"), c == want, || format!("{c:?}, expected {want:?}"));
    }
}
