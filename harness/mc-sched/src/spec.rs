//! The abstract caches: each call looks up, counts itself once, and on a miss may store; clearing empties
//! the two caches and the counters, in any order; reading takes one snapshot. Every step happens somewhere
//! between the start and the end of its call. A history is right if some placing of the steps explains it.

use crate::Counts;

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    /// `sure`: the call succeeds, so it must be stored
    Call { eval: bool, key: usize, sure: bool },
    Clear,
    Read,
}

#[derive(Clone, Copy, Debug)]
pub enum Step {
    Start(usize, Kind, Counts),
    End(usize),
    /// the counters when all is over
    Final(Counts),
    /// a later call finds its entry or not
    Probe { eval: bool, key: usize, hit: bool },
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Pc {
    Idle,
    /// looked up, result, counted, stored
    Call(bool, bool, bool, bool),
    /// what has been cleared: simplifications, values, counters
    Clear(bool, bool, bool),
    Read(bool),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct S {
    cache: [u32; 2],
    n: [u8; 4],
    pc: [Pc; 3],
}

pub fn explain(threads: usize, steps: &[Step]) -> Result<(), String> {
    let mut set = vec![S { cache: [0, 0], n: [0; 4], pc: [Pc::Idle; 3] }];
    let mut kinds: [Option<(Kind, Counts)>; 3] = [None; 3];
    for (at, step) in steps.iter().enumerate() {
        match step {
            Step::Start(t, k, seen) => {
                kinds[*t] = Some((*k, *seen));
                for s in &mut set {
                    s.pc[*t] = match k {
                        Kind::Call { .. } => Pc::Call(false, false, false, false),
                        Kind::Clear => Pc::Clear(false, false, false),
                        Kind::Read => Pc::Read(false),
                    };
                }
                close(&mut set, threads, &kinds);
            }
            Step::End(t) => {
                let (k, _) = kinds[*t].take().expect("started");
                set.retain(|s| match (s.pc[*t], k) {
                    (Pc::Call(looked, hit, counted, stored), Kind::Call { sure, .. }) => looked && counted && (hit || stored || !sure),
                    (Pc::Clear(a, b, c), _) => a && b && c,
                    (Pc::Read(d), _) => d,
                    _ => false,
                });
                for s in &mut set {
                    s.pc[*t] = Pc::Idle;
                }
                dedup(&mut set);
            }
            Step::Final(c) => set.retain(|s| (0..4).all(|i| u32::from(s.n[i]) == c[i])),
            Step::Probe { eval, key, hit } => set.retain(|s| (s.cache[usize::from(*eval)] >> key & 1 == 1) == *hit),
        }
        if set.is_empty() {
            return Err(match step {
                Step::End(_) | Step::Start(..) => format!("no order of the calls explains the observations up to event {at}"),
                Step::Final(_) => "no order of the calls explains the final counters".to_string(),
                Step::Probe { eval, key, hit } => format!("afterwards the {} with key {key} is a {}, which no order of the calls explains", if *eval { "evaluation" } else { "simplification" }, if *hit { "hit" } else { "miss" }),
            });
        }
    }
    Ok(())
}

fn dedup(set: &mut Vec<S>) {
    let mut out: Vec<S> = Vec::with_capacity(set.len());
    for s in set.drain(..) {
        if !out.contains(&s) {
            out.push(s);
        }
    }
    *set = out;
}

fn close(set: &mut Vec<S>, threads: usize, kinds: &[Option<(Kind, Counts)>; 3]) {
    dedup(set);
    let mut i = 0;
    while i < set.len() {
        let s = set[i];
        i += 1;
        let mut add = |n: S| {
            if !set.contains(&n) {
                set.push(n);
            }
        };
        for t in 0..threads {
            let Some((k, seen)) = kinds[t] else { continue };
            match (s.pc[t], k) {
                (Pc::Call(looked, hit, counted, stored), Kind::Call { eval, key, sure }) => {
                    let c = usize::from(eval);
                    if !looked {
                        let hit = s.cache[c] >> key & 1 == 1;
                        let mut n = s;
                        n.pc[t] = Pc::Call(true, hit, counted, stored);
                        add(n);
                        continue;
                    }
                    if !counted {
                        let mut n = s;
                        n.n[2 * c + usize::from(!hit)] += 1;
                        n.pc[t] = Pc::Call(looked, hit, true, stored);
                        add(n);
                    }
                    if !hit && !stored {
                        let _ = sure;
                        let mut n = s;
                        n.cache[c] |= 1 << key;
                        n.pc[t] = Pc::Call(looked, hit, counted, true);
                        add(n);
                    }
                }
                (Pc::Clear(a, b, d), _) => {
                    if !a {
                        let mut n = s;
                        n.cache[0] = 0;
                        n.pc[t] = Pc::Clear(true, b, d);
                        add(n);
                    }
                    if !b {
                        let mut n = s;
                        n.cache[1] = 0;
                        n.pc[t] = Pc::Clear(a, true, d);
                        add(n);
                    }
                    if !d {
                        let mut n = s;
                        n.n = [0; 4];
                        n.pc[t] = Pc::Clear(a, b, true);
                        add(n);
                    }
                }
                (Pc::Read(false), _) if (0..4).all(|i| u32::from(s.n[i]) == seen[i]) => {
                    let mut n = s;
                    n.pc[t] = Pc::Read(true);
                    add(n);
                }
                _ => {}
            }
        }
    }
}
