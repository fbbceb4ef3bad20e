//! Small explicit-state exploration kernel shared by every check.
//!
//! * `supervise` runs a check in a child process, so that a crash (signal) or a hang of the code under
//!   test is attributed to the case that was being executed instead of killing the checker.
//! * `Check` counts what was explored, compares results with the reference model, collects
//!   counterexamples, applies the committed known-findings file and writes evidence and replay files.
//! * `num` holds the boring reference numerics (log-gamma, bounds) written independently of /repo.

pub mod num;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

struct Known {
    key: String,
    what: String,
}

/// One line of known-findings.txt: `finding: property=<id> key=<key> :: <what>`; a key ending in `*`
/// is not supported on purpose: a finding names one call site or input exactly.
fn load_known(id: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(verif_root().join("known-findings.txt")) else {
        return vec![];
    };
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else { continue };
        let Some((pid, rest)) = rest.split_once(" key=") else { continue };
        if pid != id {
            continue;
        }
        let Some((key, what)) = rest.split_once(" :: ") else { continue };
        out.push(Known { key: key.trim().to_string(), what: what.trim().to_string() });
    }
    out
}

pub struct Violation {
    pub key: String,
    pub detail: String,
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: i64,
    start: Instant,
    /// distinct model states (configurations, expressions, histories' end states) visited
    pub states: u64,
    /// individual comparisons of one step of the implementation with the model
    pub transitions: u64,
    /// complete operation sequences / programs replayed on the real code
    pub traces: u64,
    /// cases left out because they are outside the property's domain
    pub outside: u64,
    /// distinct observed outcomes, to show the exploration is not vacuous
    outcomes: BTreeSet<u64>,
    samples: Vec<String>,
    sample_stride: u64,
    violations: Vec<Violation>,
    violation_count: u64,
    violating_keys: BTreeSet<String>,
    known: Vec<Known>,
    known_hit: BTreeSet<usize>,
    extras: BTreeMap<String, String>,
    assumptions: Vec<String>,
    replay: Option<String>,
    progress: Option<std::fs::File>,
    last_progress: Instant,
    last_key: String,
    beats: u64,
    exhaustive: bool,
    level: &'static str,
    /// in a worker thread: where it says what it is doing
    worker: Option<std::sync::Arc<Worker>>,
}

const SLOT: u64 = 1024;

#[derive(Default)]
struct Worker {
    ticks: std::sync::atomic::AtomicU64,
    key: std::sync::Mutex<String>,
    done: std::sync::atomic::AtomicBool,
    /// where this worker's case is kept in the progress file
    slot: u64,
}

impl Check {
    pub fn new(id: &str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let replay = std::env::var("MC_REPLAY_KEY").ok();
        let progress = std::env::var_os("MC_PROGRESS")
            .and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
        if std::env::var_os("MC_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Check {
            id: id.to_string(),
            tier,
            seed,
            start: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            outside: 0,
            outcomes: BTreeSet::new(),
            samples: vec![],
            sample_stride: 1,
            violations: vec![],
            violation_count: 0,
            violating_keys: BTreeSet::new(),
            known: load_known(id),
            known_hit: BTreeSet::new(),
            extras: BTreeMap::new(),
            assumptions: vec![],
            replay,
            progress,
            last_progress: Instant::now() - Duration::from_secs(1),
            last_key: String::new(),
            beats: 0,
            exhaustive: true,
            level: "model_checking",
            worker: None,
        }
    }

    fn child(&self, worker: std::sync::Arc<Worker>) -> Self {
        Check {
            id: self.id.clone(),
            tier: self.tier,
            seed: self.seed,
            start: self.start,
            states: 0,
            transitions: 0,
            traces: 0,
            outside: 0,
            outcomes: BTreeSet::new(),
            samples: vec![],
            sample_stride: 1,
            violations: vec![],
            violation_count: 0,
            violating_keys: BTreeSet::new(),
            known: load_known(&self.id),
            known_hit: BTreeSet::new(),
            extras: BTreeMap::new(),
            assumptions: vec![],
            replay: self.replay.clone(),
            progress: self.progress.as_ref().and_then(|f| f.try_clone().ok()),
            last_progress: Instant::now() - Duration::from_secs(1),
            last_key: String::new(),
            beats: 0,
            exhaustive: true,
            level: self.level,
            worker: Some(worker),
        }
    }

    /// Explore the parts `0..parts` on all cores; each part is explored completely by one worker, and
    /// the results do not depend on how the parts were shared out.
    pub fn parallel(&mut self, parts: usize, f: impl Fn(&mut Check, usize) + Sync) {
        // a worker process only does its shard
        if std::env::var_os("MC_SHARD").is_some() {
            return;
        }
        use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(parts.max(1));
        let workers: Vec<_> = (0..n).map(|i| std::sync::Arc::new(Worker { slot: SLOT * (i as u64 + 1), ..Worker::default() })).collect();
        for w in &workers {
            self.put(w.slot, "");
        }
        let mut kids: Vec<Check> = workers.iter().map(|w| self.child(w.clone())).collect();
        let results = std::sync::Mutex::new(Vec::<(usize, Check)>::new());
        std::thread::scope(|s| {
            for (mut kid, w) in kids.drain(..).zip(&workers) {
                let (next, f, results) = (&next, &f, &results);
                let w = w.clone();
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= parts {
                            break;
                        }
                        if let Err(p) = quiet(|| f(&mut kid, i)) {
                            // the checker itself failed: no verdict
                            eprintln!("error: the checker panicked in part {i}: {p}");
                            std::process::exit(7);
                        }
                    }
                    w.done.store(true, SeqCst);
                    kid.put(w.slot, "");
                    results.lock().unwrap().push((0, kid));
                }).expect("thread");
            }
            let mut seen = vec![0u64; n];
            loop {
                if workers.iter().all(|w| w.done.load(SeqCst)) || results.lock().unwrap().len() == n {
                    break;
                }
                std::thread::sleep(Duration::from_millis(5));
                // progress is what the slowest worker makes: a worker that stopped is the one reported
                let mut stuck = String::new();
                let mut moved = true;
                for (i, w) in workers.iter().enumerate() {
                    if w.done.load(SeqCst) {
                        continue;
                    }
                    let t = w.ticks.load(SeqCst);
                    if t == seen[i] {
                        moved = false;
                        stuck = w.key.lock().unwrap().clone();
                    }
                }
                if moved || stuck.is_empty() {
                    for (i, w) in workers.iter().enumerate() {
                        seen[i] = w.ticks.load(SeqCst);
                        if !w.done.load(SeqCst) {
                            stuck = w.key.lock().unwrap().clone();
                        }
                    }
                    self.at(&stuck, false);
                }
            }
        });
        for (_, kid) in results.into_inner().unwrap() {
            self.states += kid.states;
            self.transitions += kid.transitions;
            self.traces += kid.traces;
            self.outside += kid.outside;
            self.outcomes.extend(kid.outcomes);
            self.violation_count += kid.violation_count;
            self.exhaustive &= kid.exhaustive;
            for v in kid.violations {
                self.violations.push(v);
            }
            self.violating_keys.extend(kid.violating_keys);
            self.known_hit.extend(kid.known_hit);
            for (k, v) in kid.extras {
                // counters add up
                let sum = match (self.extras.get(&k).and_then(|o| o.parse::<u64>().ok()), v.parse::<u64>()) {
                    (Some(a), Ok(b)) => (a + b).to_string(),
                    _ => v,
                };
                self.extras.insert(k, sum);
            }
            for s in kid.samples {
                if self.samples.len() < 12 {
                    self.samples.push(s);
                }
            }
        }
        // the shortest counterexamples first, whatever the threads did
        self.violations.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        self.violations.dedup_by(|a, b| a.key == b.key);
        self.violations.truncate(25);
    }

    /// Explore the parts `0..parts` in processes of their own (native code that crashes takes only its
    /// part along, and code memory is given back). Call at most once per check.
    pub fn shards(&mut self, parts: usize, stall: Duration, f: impl Fn(&mut Check, usize)) {
        if let Ok(spec) = std::env::var("MC_SHARD") {
            let (i, file) = spec.split_once(':').expect("MC_SHARD");
            f(self, i.parse().expect("MC_SHARD"));
            std::fs::write(file, self.dump()).expect("shard result");
            std::process::exit(0);
        }
        let dir = verif_root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let exe = std::env::current_exe().expect("exe");
        let jobs = std::thread::available_parallelism().map_or(4, |n| n.get());
        struct Job {
            child: std::process::Child,
            out: PathBuf,
            prog: PathBuf,
            mark: Vec<u8>,
            since: Instant,
        }
        let mut running: Vec<Job> = vec![];
        let mut next = 0;
        let first = |p: &Path| -> String {
            std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).lines().next().unwrap_or("").to_string()).unwrap_or_default()
        };
        loop {
            while running.len() < jobs && next < parts {
                let base = format!(".shard-{}-{}-{next}", self.id, std::process::id());
                let (out, prog) = (dir.join(format!("{base}.out")), dir.join(format!("{base}.at")));
                std::fs::write(&prog, "start\n").expect("progress file");
                let child = std::process::Command::new(&exe)
                    .args(std::env::args_os().skip(1))
                    .env("MC_SHARD", format!("{next}:{}", out.display()))
                    .env("MC_PROGRESS", &prog)
                    .spawn()
                    .expect("spawn");
                running.push(Job { child, out, prog, mark: vec![], since: Instant::now() });
                next += 1;
            }
            if running.is_empty() {
                break;
            }
            let mut still = vec![];
            for mut j in running {
                use std::os::unix::process::ExitStatusExt;
                match j.child.try_wait().expect("wait") {
                    Some(s) => {
                        match (s.code(), s.signal()) {
                            (Some(0), _) => {
                                let text = std::fs::read_to_string(&j.out).expect("shard result");
                                self.absorb(&text);
                            }
                            (None, Some(sig)) if ![1, 2, 9, 15].contains(&sig) => {
                                let key = first(&j.prog);
                                self.transitions += 1;
                                self.fail(&key, &format!("the code under test died with signal {sig}"));
                            }
                            _ => {
                                eprintln!("error: a part of the check failed ({s})");
                                std::process::exit(6);
                            }
                        }
                        let _ = std::fs::remove_file(&j.out);
                        let _ = std::fs::remove_file(&j.prog);
                    }
                    None => {
                        let m = std::fs::read(&j.prog).unwrap_or_default();
                        if m != j.mark {
                            j.mark = m;
                            j.since = Instant::now();
                        }
                        if j.since.elapsed() > stall {
                            let _ = j.child.kill();
                            let _ = j.child.wait();
                            let key = first(&j.prog);
                            self.transitions += 1;
                            self.fail(&key, &format!("the code under test made no progress for {} s", stall.as_secs()));
                            let _ = std::fs::remove_file(&j.out);
                            let _ = std::fs::remove_file(&j.prog);
                            continue;
                        }
                        still.push(j);
                    }
                }
            }
            running = still;
            self.at("waiting for the parts", true);
            // the supervisor watches the time of this file
            std::thread::sleep(Duration::from_millis(10));
        }
        self.violations.sort_by(|a, b| (a.key.len(), &a.key).cmp(&(b.key.len(), &b.key)));
        self.violations.dedup_by(|a, b| a.key == b.key);
        self.violations.truncate(25);
    }

    fn dump(&self) -> String {
        let mut o = String::new();
        let hex = |s: &str| s.bytes().map(|b| format!("{b:02x}")).collect::<String>();
        let _ = writeln!(o, "n {} {} {} {} {} {}", self.states, self.transitions, self.traces, self.outside, self.violation_count, self.exhaustive);
        for x in self.outcomes.iter().take(50_000) {
            let _ = writeln!(o, "o {x}");
        }
        for v in &self.violations {
            let _ = writeln!(o, "v {} {}", hex(&v.key), hex(&v.detail));
        }
        for k in self.violating_keys.iter().take(10_000) {
            let _ = writeln!(o, "k {}", hex(k));
        }
        for (k, v) in &self.extras {
            let _ = writeln!(o, "x {} {}", hex(k), hex(v));
        }
        for s in &self.samples {
            let _ = writeln!(o, "s {}", hex(s));
        }
        for i in &self.known_hit {
            let _ = writeln!(o, "h {i}");
        }
        o
    }

    fn absorb(&mut self, text: &str) {
        let unhex = |s: &str| -> String {
            let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
            String::from_utf8_lossy(&b).into_owned()
        };
        for line in text.lines() {
            let mut w = line.split(' ');
            match w.next() {
                Some("n") => {
                    let mut num = || w.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    self.states += num();
                    self.transitions += num();
                    self.traces += num();
                    self.outside += num();
                    self.violation_count += num();
                    self.exhaustive &= w.next() == Some("true");
                }
                Some("o") => {
                    self.outcomes.extend(w.next().and_then(|x| x.parse::<u64>().ok()));
                }
                Some("v") => {
                    let key = unhex(w.next().unwrap_or(""));
                    let detail = unhex(w.next().unwrap_or(""));
                    self.violations.push(Violation { key, detail });
                }
                Some("k") => {
                    self.violating_keys.insert(unhex(w.next().unwrap_or("")));
                }
                Some("x") => {
                    let k = unhex(w.next().unwrap_or(""));
                    let v = unhex(w.next().unwrap_or(""));
                    match v.parse::<u64>() {
                        Ok(n) => self.bump(&k, n),
                        Err(_) => {
                            self.extras.insert(k, v);
                        }
                    }
                }
                Some("s") => {
                    if self.samples.len() < 12 {
                        let s = unhex(w.next().unwrap_or(""));
                        self.samples.push(s);
                    }
                }
                Some("h") => {
                    self.known_hit.extend(w.next().and_then(|x| x.parse::<usize>().ok()));
                }
                _ => {}
            }
        }
    }

    /// `at` for hot loops: the key is only built when it is due.
    pub fn tick(&mut self, key: impl FnOnce() -> String) {
        if let Some(w) = &self.worker {
            w.ticks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        if self.last_progress.elapsed() > Duration::from_millis(200) {
            self.at(&key(), false);
        }
    }

    /// One comparison that came out right, for hot loops.
    pub fn pass(&mut self, got: f64) {
        self.transitions += 1;
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(got.to_bits() >> 24);
        }
    }

    /// Count something in the evidence.
    pub fn bump(&mut self, k: &str, by: u64) {
        let old = self.extras.get(k).and_then(|o| o.parse::<u64>().ok()).unwrap_or(0);
        self.extras.insert(k.to_string(), (old + by).to_string());
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Say which case is about to run. `force` writes it to the progress file at once: used before a call
    /// that may crash the process.
    pub fn at(&mut self, key: &str, force: bool) {
        if let Some(w) = &self.worker {
            w.ticks.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if force {
                self.put(w.slot, key);
            }
            if force || self.last_progress.elapsed() > Duration::from_millis(200) {
                *w.key.lock().unwrap() = key.to_string();
                self.last_progress = Instant::now();
            }
            return;
        }
        if self.progress.is_some() && (force || self.last_progress.elapsed() > Duration::from_millis(200)) {
            self.last_key = key.to_string();
            self.put(0, key);
            self.last_progress = Instant::now();
        }
    }

    /// Tell the watchdog that the case announced last is still advancing.
    fn beat(&mut self) {
        if let Some(w) = &self.worker {
            w.ticks.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        self.beats += 1;
        if self.beats % 16 == 0 && self.progress.is_some() && self.last_progress.elapsed() > Duration::from_millis(200) {
            self.put(0, &self.last_key);
            self.last_progress = Instant::now();
        }
    }

    fn put(&self, at: u64, key: &str) {
        use std::os::unix::fs::FileExt;
        let mut b = key.as_bytes().to_vec();
        b.truncate(SLOT as usize - 40);
        // the number makes the file differ from what it was
        b.extend_from_slice(format!("\n{}\n", self.beats).as_bytes());
        if let Some(f) = &self.progress {
            let _ = f.write_all_at(&b, at);
        }
    }

    /// Under a replay request, only the named case is judged.
    pub fn wants(&self, key: &str) -> bool {
        self.replay.as_deref().is_none_or(|k| k == key)
    }

    pub fn state(&mut self) {
        self.states += 1;
        self.beat();
    }

    pub fn trace(&mut self) {
        self.traces += 1;
        self.beat();
    }

    pub fn outcome(&mut self, o: &str) {
        if self.outcomes.len() < 400_000 {
            self.outcomes.insert(hash(o));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // samples at exponentially growing distances: spread over the whole exploration
        if self.transitions >= self.sample_stride && self.samples.len() < 12 {
            self.sample_stride = self.transitions * 4 + 7;
            let s = f();
            self.samples.push(s);
        }
    }

    /// The run left something out: the bound reported in `why` is what was covered.
    pub fn capped(&mut self, why: &str) {
        self.exhaustive = false;
        self.extra("cap_hit", &jstr(why));
    }

    /// JSON value, already encoded.
    pub fn extra(&mut self, k: &str, v: &str) {
        self.extras.insert(k.to_string(), v.to_string());
    }
    pub fn extra_n(&mut self, k: &str, v: u64) {
        self.extra(k, &v.to_string());
    }
    pub fn extra_s(&mut self, k: &str, v: &str) {
        self.extra(k, &jstr(v));
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Record a counterexample. `key` identifies the failing case exactly and is stable between runs.
    pub fn fail(&mut self, key: &str, detail: &str) {
        if !self.wants(key) {
            return;
        }
        if let Some(i) = self.known.iter().position(|k| k.key == key) {
            self.known_hit.insert(i);
            return;
        }
        self.violation_count += 1;
        if self.violating_keys.insert(key.to_string()) && self.violations.len() < 25 {
            self.violations.push(Violation { key: key.to_string(), detail: detail.to_string() });
        }
    }

    /// Compare one step with the model.
    pub fn close(&mut self, key: &str, got: f64, want: f64, rtol: f64, atol: f64) -> bool {
        self.transitions += 1;
        let ok = close(got, want, rtol, atol);
        if !ok {
            self.fail(key, &format!("got {got:?}, expected {want:?}"));
        }
        let g = got;
        self.outcome(&format!("{g:.6e}"));
        self.sample(|| format!("{key} -> {g:?} (model {want:?})"));
        ok
    }

    /// Like `close`, but a result that is exactly off by a known defect's formula is reported under the
    /// defect's own key (one key per defect, so that anything else still has the key of its case).
    pub fn close_alt(&mut self, key: &str, got: f64, want: f64, rtol: f64, atol: f64, alt: Option<(&str, f64)>) -> bool {
        if let Some((akey, off)) = alt {
            if !close(got, want, rtol, atol) && close(got, want + off, rtol, atol + rtol * off.abs()) {
                self.transitions += 1;
                self.fail(akey, &format!("{key}: got {got:?}, expected {want:?}"));
                return false;
            }
        }
        self.close(key, got, want, rtol, atol)
    }

    pub fn expect_alt(&mut self, key: &str, want: f64, rtol: f64, atol: f64, alt: Option<(&str, f64)>, f: impl FnOnce() -> f64) -> bool {
        match quiet(f) {
            Ok(got) => self.close_alt(key, got, want, rtol, atol, alt),
            Err(p) => {
                self.transitions += 1;
                self.fail(key, &format!("panicked: {p}; expected {want:?}"));
                false
            }
        }
    }

    /// Compare the (possibly panicking) computation with the model.
    pub fn expect(&mut self, key: &str, want: f64, rtol: f64, atol: f64, f: impl FnOnce() -> f64) -> bool {
        match quiet(f) {
            Ok(got) => self.close(key, got, want, rtol, atol),
            Err(p) => {
                self.transitions += 1;
                self.fail(key, &format!("panicked: {p}; expected {want:?}"));
                false
            }
        }
    }

    pub fn require(&mut self, key: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        self.transitions += 1;
        if !ok {
            let d = detail();
            self.fail(key, &d);
        }
        self.sample(|| format!("{key} -> {}", if ok { "holds" } else { "VIOLATED" }));
        ok
    }

    pub fn finish(mut self, bounds: &str) -> ! {
        let root = verif_root();
        let mut code = 0;
        if let Some(k) = &self.replay {
            if self.violations.is_empty() {
                println!("replay: the case {k:?} holds");
            }
            for v in &self.violations {
                println!("replay: {} :: {}", v.key, v.detail);
                code = 1;
            }
            std::process::exit(code);
        }
        for i in &self.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, self.known[*i].what);
        }
        for (i, k) in self.known.iter().enumerate() {
            if !self.known_hit.contains(&i) {
                println!("note: listed finding not reproduced in this run: {} ({})", k.key, k.what);
            }
        }
        if !self.violations.is_empty() {
            code = 1;
            for v in self.violations.iter().take(5) {
                let path = write_replay(&root, &self.id, v);
                println!("VIOLATION property={} replay={}", self.id, path.display());
                println!("  {} :: {}", v.key, v.detail);
            }
            if std::env::var_os("MC_GROUPS").is_some() {
                let mut g: BTreeMap<String, (u64, String)> = BTreeMap::new();
                for k in &self.violating_keys {
                    let parts: Vec<&str> = k.split('|').collect();
                    let short: Vec<&str> = parts.iter().filter(|p| !p.starts_with("x=")).map(|p| p.split('(').next().unwrap_or(p)).collect();
                    let e = g.entry(short.join("|")).or_insert_with(|| (0, k.clone()));
                    e.0 += 1;
                }
                for (k, (n, ex)) in g.iter().take(60) {
                    println!("  group {k}: {n}, e.g. {ex}");
                }
            }
            println!("  ({} failing comparisons in {} distinct cases)", self.violation_count, self.violating_keys.len());
        }
        if self.states == 0 || self.transitions == 0 {
            eprintln!("error: nothing explored");
            std::process::exit(3);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut j = String::new();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let _ = write!(j, "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n", jstr(&self.id), self.seed, self.level);
        let _ = writeln!(j, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},", self.states, self.transitions, self.traces);
        let _ = writeln!(j, "  \"distinct_outcomes\": {},\n  \"outside_domain\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},", self.outcomes.len(), self.outside, self.exhaustive, jstr(bounds));
        for (k, v) in &self.extras {
            let _ = writeln!(j, "  {}: {v},", jstr(k));
        }
        if self.samples.is_empty() {
            self.samples.push("(none)".into());
        }
        let s: Vec<String> = self.samples.iter().map(|s| format!("   {}", jstr(s))).collect();
        let _ = write!(j, "  \"samples\": [\n{}\n  ]\n }},\n", s.join(",\n"));
        let a: Vec<String> = self.assumptions.iter().map(|s| jstr(s)).collect();
        let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n", a.join(", "), self.violating_keys.len());
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), j) {
            eprintln!("error: cannot write evidence: {e}");
            std::process::exit(4);
        }
        println!(
            "{}: {} states, {} transitions, {} traces, {} distinct outcomes, {} outside the domain, {:.1} s{}",
            self.id, self.states, self.transitions, self.traces, self.outcomes.len(), self.outside, wall,
            if self.exhaustive { "" } else { " (capped)" }
        );
        let _ = std::io::stdout().flush();
        std::process::exit(code);
    }
}

fn write_replay(root: &Path, id: &str, v: &Violation) -> PathBuf {
    let dir = root.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", hash(&v.key)));
    let body = format!(
        "{{\n \"property\": {},\n \"key\": {},\n \"detail\": {},\n \"how\": \"./check.sh {id} --replay {}\"\n}}\n",
        jstr(id), jstr(&v.key), jstr(&v.detail), path.display()
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Run the code under test; a panic is an outcome, not the end of the check.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_else(|| "panic".into())
    })
}

pub fn close(got: f64, want: f64, rtol: f64, atol: f64) -> bool {
    if got == want {
        return true;
    }
    if got.is_nan() || want.is_nan() {
        return got.is_nan() && want.is_nan();
    }
    if got.is_infinite() || want.is_infinite() {
        return false;
    }
    (got - want).abs() <= atol + rtol * got.abs().max(want.abs())
}

/// Run `body` in a child process. The parent turns death by a signal, or no progress for `stall`, into
/// a violation at the case the child had announced.
pub fn supervise(id: &str, stall: Duration, body: impl FnOnce()) -> ! {
    if std::env::var_os("MC_CHILD").is_some() {
        body();
        eprintln!("error: check did not finish");
        std::process::exit(5);
    }
    let root = verif_root();
    let dir = root.join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let prog = dir.join(format!(".progress-{id}-{}", std::process::id()));
    std::fs::write(&prog, "start\n").expect("progress file");
    let exe = std::env::current_exe().expect("exe");
    let mut child = std::process::Command::new(exe)
        .args(std::env::args_os().skip(1))
        .env("MC_CHILD", "1")
        .env("MC_PROGRESS", &prog)
        .spawn()
        .expect("spawn");
    let mut last = (String::new(), Instant::now());
    let read = |p: &Path| -> String {
        std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).lines().next().unwrap_or("").to_string()).unwrap_or_default()
    };
    let mtime = |p: &Path| -> String { std::fs::metadata(p).and_then(|m| m.modified()).map(|t| format!("{t:?}")).unwrap_or_default() };
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None => {
                std::thread::sleep(Duration::from_millis(20));
                let m = mtime(&prog);
                if m != last.0 {
                    last = (m, Instant::now());
                }
                if last.1.elapsed() > stall {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
            }
        }
    };
    let mut at = read(&prog);
    // what the workers had announced, if any did
    let all = std::fs::read(&prog).unwrap_or_default();
    let slots: Vec<String> = all
        .chunks(SLOT as usize)
        .skip(1)
        .map(|b| String::from_utf8_lossy(b).lines().next().unwrap_or("").trim_end_matches('\0').to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let others = if slots.is_empty() { String::new() } else { format!("; cases in flight: {}", slots.join(" ; ")) };
    if let Some(s) = slots.first() {
        at = s.clone();
    }
    let _ = std::fs::remove_file(&prog);
    use std::os::unix::process::ExitStatusExt;
    let detail = match status {
        Some(s) => match (s.code(), s.signal()) {
            (Some(c), _) => std::process::exit(c),
            // killed from outside (memory, operator): no verdict
            (None, Some(9 | 15 | 2 | 1)) => {
                eprintln!("error: the check's process was killed");
                std::process::exit(6);
            }
            (None, Some(sig)) => format!("the code under test died with signal {sig}"),
            _ => {
                eprintln!("error: the check's process ended abnormally");
                std::process::exit(6);
            }
        },
        None => format!("the code under test made no progress for {} s", stall.as_secs()),
    };
    let v = Violation { key: at, detail: detail + &others };
    let path = write_replay(&root, id, &v);
    println!("VIOLATION property={id} replay={}", path.display());
    println!("  {} :: {}", v.key, v.detail);
    std::process::exit(1);
}

/// All sequences over `0..k` of length `n`, in lexicographic order.
pub fn sequences(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = if n == 0 { 1 } else { k.pow(n as u32) };
    (0..total).map(move |mut i| {
        let mut v = vec![0; n];
        for d in v.iter_mut().rev() {
            *d = i % k;
            i /= k;
        }
        v
    })
}

/// All permutations of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
