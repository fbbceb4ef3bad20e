#![allow(clippy::pedantic)]
//! C17: the global caches under every interleaving, and under every sequence of calls.
mod histories;
mod spec;

use mc::Check;
use mc_shim::ctl::{self, Ev, Execution, Outcome};
use spec::{Kind, Step, explain};
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use symbolic_math::expr::{EvalError, Expr, clear_caches, get_cache_stats};

pub type Counts = [u32; 4];

pub fn counts() -> Counts {
    let s = get_cache_stats();
    [s.simplification_hits as u32, s.simplification_misses as u32, s.evaluation_hits as u32, s.evaluation_misses as u32]
}

fn pack(c: Counts) -> u64 {
    c.iter().fold(0, |a, x| (a << 16) | u64::from(*x))
}
fn unpack(v: u64) -> Counts {
    [(v >> 48) as u32, (v >> 32 & 0xffff) as u32, (v >> 16 & 0xffff) as u32, (v & 0xffff) as u32]
}

pub fn bx(e: Expr) -> Box<Expr> {
    Box::new(e)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Op {
    /// simplify expression i with the cache
    S(usize),
    /// evaluate expression i under bindings j with the cache
    E(usize, usize),
    Clear,
    Stats,
}

/// The expressions and bindings the threads share.
pub struct World {
    pub exprs: Vec<Expr>,
    pub binds: Vec<HashMap<String, f64>>,
    pub simple: Vec<String>,
    pub values: Vec<Vec<Result<u64, String>>>,
}

pub fn bits(r: Result<f64, EvalError>) -> Result<u64, String> {
    match r {
        Ok(v) if v.is_nan() => Ok(u64::MAX),
        Ok(v) => Ok(v.to_bits()),
        Err(e) => Err(format!("{e:?}")),
    }
}

impl World {
    pub fn new(exprs: Vec<Expr>, binds: Vec<HashMap<String, f64>>) -> World {
        let simple = exprs.iter().map(|e| format!("{:?}", e.clone().simplify())).collect();
        let values = exprs.iter().map(|e| binds.iter().map(|b| bits(e.evaluate(b))).collect()).collect();
        World { exprs, binds, simple, values }
    }
    /// Make the call; what it returned, if that is not what the uncached operation returns.
    pub fn call(&self, op: Op) -> Result<u64, String> {
        match op {
            Op::S(i) => {
                let got = format!("{:?}", self.exprs[i].clone().simplify_cached());
                if got == self.simple[i] { Ok(0) } else { Err(format!("simplify_cached({:?}) = {got}, uncached {}", self.exprs[i], self.simple[i])) }
            }
            Op::E(i, j) => {
                let got = bits(self.exprs[i].evaluate_cached(&self.binds[j]));
                if got == self.values[i][j] {
                    Ok(0)
                } else {
                    Err(format!("evaluate_cached({:?}, {:?}) = {got:?}, uncached {:?}", self.exprs[i], self.binds[j], self.values[i][j]))
                }
            }
            Op::Clear => {
                clear_caches();
                Ok(0)
            }
            Op::Stats => Ok(pack(counts())),
        }
    }
    fn kind(&self, op: Op) -> Kind {
        match op {
            Op::S(i) => Kind::Call { eval: false, key: i, sure: true },
            Op::E(i, j) => Kind::Call { eval: true, key: i * self.binds.len() + j, sure: self.values[i][j].is_ok() },
            Op::Clear => Kind::Clear,
            Op::Stats => Kind::Read,
        }
    }
}

fn world() -> World {
    let x = || Expr::Var("x".into());
    // the first two print alike and differ in meaning; the third fails under either binding
    let a = Expr::Mul(bx(Expr::Add(bx(x()), bx(Expr::Const(2.0)))), bx(Expr::Const(1.0)));
    let b = Expr::Var("((x + 2) * 1)".into());
    let c = Expr::Ln(bx(Expr::Sub(bx(x()), bx(x()))));
    let m = |v: f64| HashMap::from([("x".to_string(), v), ("((x + 2) * 1)".to_string(), 7.0)]);
    World::new(vec![a, b, c], vec![m(1.0), m(-3.0)])
}

const OPS: [Op; 8] = [Op::S(0), Op::E(0, 0), Op::Clear, Op::Stats, Op::S(1), Op::E(0, 1), Op::E(1, 0), Op::E(2, 0)];

fn show(p: &[Vec<Op>]) -> String {
    p.iter().map(|t| t.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" || ")
}

fn run_once(w: &Arc<World>, p: &[Vec<Op>], warm: bool, prefix: &[usize]) -> (Execution, Vec<String>) {
    ctl::new_epoch();
    if warm {
        // initialises the statics, so that their initialisation is not part of the interleavings
        let _ = w.exprs[0].clone().simplify_cached();
        let _ = w.exprs[0].evaluate_cached(&w.binds[0]);
    }
    if warm {
        clear_caches();
    }
    let wrong: Arc<Mutex<Vec<String>>> = Arc::default();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = p
        .iter()
        .cloned()
        .map(|ops| {
            let (w, wrong) = (w.clone(), wrong.clone());
            Box::new(move || {
                for (i, op) in ops.into_iter().enumerate() {
                    ctl::begin(i);
                    let r = w.call(op);
                    match r {
                        Ok(v) => ctl::end(i, v),
                        Err(e) => {
                            wrong.lock().unwrap().push(e);
                            ctl::end(i, 0);
                        }
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let x = ctl::execute(bodies, prefix);
    let wrong = wrong.lock().unwrap().clone();
    (x, wrong)
}

/// All interleavings of one program with at most `bound` preemptions.
fn program(k: &mut Check, w: &Arc<World>, p: &[Vec<Op>], warm: bool, bound: usize) -> bool {
    let name = format!("{}{}", show(p), if warm { "" } else { " (first use)" });
    k.at(&name, false);
    k.trace();
    let mut keys: Vec<Op> = p.iter().flatten().copied().filter(|o| matches!(o, Op::S(_) | Op::E(..))).collect();
    keys.sort();
    keys.dedup();
    let mut prefix: Vec<usize> = vec![];
    loop {
        let tries = ctl::TRIES.load(SeqCst);
        let (x, wrong) = run_once(w, p, warm, &prefix);
        if ctl::TRIES.load(SeqCst) != tries {
            // there are more scheduling points from now on
            prefix.clear();
            continue;
        }
        k.states += 1;
        k.transitions += x.choices.len() as u64;
        if x.diverged {
            k.capped("an execution did not follow its schedule: the code under test is not deterministic under the controlled scheduler");
        }
        let key = |what: &str| format!("{name}|{what}|{}", x.schedule.trim_end());
        k.tick(|| name.clone());
        let bad = match &x.outcome {
            Outcome::Deadlock(d) => Some(("deadlock", d.clone())),
            Outcome::Panic(t, d) => Some(("panic", format!("thread {t}: {d}"))),
            Outcome::Done if !wrong.is_empty() => Some(("result", wrong[0].clone())),
            Outcome::Done => judge(w, p, &x, &keys),
        };
        if let Some((what, detail)) = bad {
            k.fail(&key(what), &detail);
            return false;
        }
        k.outcome(&format!("{:?}", x.events));
        k.sample(|| format!("{name}: {} events, schedule {}", x.events.len(), x.schedule.trim_end()));
        // the next schedule: the deepest choice that has an untried alternative within the bound
        let mut used: Vec<usize> = vec![0];
        for (_, pick, on) in &x.choices {
            used.push(used.last().unwrap() + usize::from(*on && *pick > 0));
        }
        let mut i = x.choices.len();
        let next = loop {
            if i == 0 {
                break None;
            }
            i -= 1;
            let (en, pick, on) = &x.choices[i];
            if pick + 1 < en.len() && used[i] + usize::from(*on) <= bound {
                let mut q: Vec<usize> = x.choices[..i].iter().map(|c| c.1).collect();
                q.push(pick + 1);
                break Some(q);
            }
        };
        match next {
            Some(q) => prefix = q,
            None => return true,
        }
    }
}

/// Is there an order of the abstract steps of the calls, each within its call, that explains everything seen?
fn judge(w: &World, p: &[Vec<Op>], x: &Execution, keys: &[Op]) -> Option<(&'static str, String)> {
    let mut steps: Vec<Step> = vec![];
    for e in &x.events {
        match e {
            Ev::Start(t, i) => {
                let seen = x.events.iter().find_map(|e| match e {
                    Ev::End(u, j, v) if u == t && j == i => Some(unpack(*v)),
                    _ => None,
                });
                steps.push(Step::Start(*t, w.kind(p[*t][*i]), seen.unwrap_or_default()));
            }
            Ev::End(t, _, _) => steps.push(Step::End(*t)),
        }
    }
    let mut seen = counts();
    steps.push(Step::Final(seen));
    // what the caches hold is observed by asking for each call once more
    for op in keys {
        if let Err(e) = w.call(*op) {
            return Some(("result", format!("afterwards: {e}")));
        }
        let now = counts();
        let Kind::Call { eval, key, sure } = w.kind(*op) else { unreachable!() };
        let base = if eval { 2 } else { 0 };
        let delta: Vec<i64> = (0..4).map(|i| i64::from(now[i]) - i64::from(seen[i])).collect();
        let hit = delta[base] == 1;
        let mut want = vec![0; 4];
        want[base + usize::from(!hit)] = 1;
        if delta != want {
            return Some(("count", format!("one more {op:?} moved the counters from {seen:?} to {now:?}")));
        }
        seen = now;
        if sure {
            steps.push(Step::Probe { eval, key, hit });
        }
    }
    explain(p.len(), &steps).err().map(|e| ("count", format!("{e}; events {:?}, final counters (hits, misses, hits, misses) {:?}", x.events, steps.iter().find_map(|s| if let Step::Final(c) = s { Some(*c) } else { None }).unwrap_or_default())))
}

/// One thread runs at a time: keep them all on one processor, so that handing on the turn is cheap.
fn pin() {
    unsafe extern "C" {
        fn sched_getcpu() -> i32;
        fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    }
    unsafe {
        let cpu = sched_getcpu().max(0) as usize;
        let mut mask = [0u64; 16];
        mask[cpu / 64 % 16] = 1 << (cpu % 64);
        sched_setaffinity(0, 128, mask.as_ptr());
    }
}

/// All programs of `threads` threads with the given lengths over the first `n` operations, threads in
/// lexicographic order (the threads are alike).
fn programs(lens: &[usize], n: usize) -> Vec<Vec<Vec<Op>>> {
    let mut out: Vec<Vec<Vec<Op>>> = vec![vec![]];
    for (t, len) in lens.iter().enumerate() {
        let mut next = vec![];
        for p in &out {
            for s in mc::sequences(n, *len) {
                let ops: Vec<Op> = s.iter().map(|i| OPS[*i]).collect();
                if t > 0 && lens[t - 1] == *len && ops < p[t - 1] {
                    continue;
                }
                let mut q = p.clone();
                q.push(ops);
                next.push(q);
            }
        }
        out = next;
    }
    // one thread only reading or clearing alone says nothing new: keep programs with at least one cached call
    out.retain(|p| p.iter().flatten().any(|o| matches!(o, Op::S(_) | Op::E(..))));
    out
}

fn c17() {
    let mut k = Check::new("C17");
    let th = k.thorough();
    histories::run(&mut k);
    // lengths of the threads, size of the alphabet, preemption bound, statics initialised before
    let families: Vec<(Vec<usize>, usize, usize, bool)> = if th {
        vec![
            (vec![1, 1], 8, 99, false),
            (vec![1, 1, 1], 8, 4, false),
            (vec![2, 1], 8, 99, true),
            (vec![1, 1, 1], 8, 99, true),
            (vec![2, 2], 8, 6, true),
            (vec![2, 1, 1], 8, 3, true),
            (vec![3, 3], 8, 1, true),
            (vec![3, 3], 4, 3, true),
            (vec![2, 2, 2], 6, 1, true),
            (vec![2, 2, 2], 4, 2, true),
            (vec![3, 3, 3], 4, 0, true),
        ]
    } else {
        vec![
            (vec![1, 1], 8, 99, false),
            (vec![2, 1], 8, 99, true),
            (vec![1, 1, 1], 8, 3, true),
            (vec![1, 1, 1], 4, 2, false),
            (vec![2, 2], 8, 2, true),
            (vec![3, 2], 4, 2, true),
            (vec![2, 1, 1], 4, 2, true),
            (vec![3, 3], 4, 1, true),
            (vec![2, 2, 2], 4, 1, true),
        ]
    };
    let shards = 64;
    k.shards(shards, Duration::from_secs(60), |k, s| {
        std::panic::set_hook(Box::new(|_| {}));
        pin();
        let w = Arc::new(world());
        let (mut n, mut wrong) = (0, 0);
        for (lens, ops, bound, warm) in &families {
            for p in programs(lens, *ops) {
                n += 1;
                if n % shards == s && !program(k, &w, &p, *warm, *bound) {
                    wrong += 1;
                    if wrong == 10 {
                        k.capped("stopped after ten violations");
                        return;
                    }
                }
            }
        }
    });
    k.assume("sequentially consistent memory: the shared state is reached through locks only");
    k.finish(&format!(
        "interleavings at every lock operation: families (calls per thread, operations, preemption bound) {}; all call sequences over colliding expressions up to depth {}",
        families.iter().map(|f| format!("{:?}x{}<={}", f.0, f.1, f.2)).collect::<Vec<_>>().join(", "),
        histories::depth(th)
    ))
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C17") => mc::supervise("C17", Duration::from_secs(120), c17),
        _ => {
            eprintln!("usage: mc-sched C17");
            std::process::exit(2)
        }
    }
}
