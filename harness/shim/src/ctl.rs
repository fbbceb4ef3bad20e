//! The controlled scheduler: one thread runs at a time; at every visible operation it hands the baton to the
//! explorer's choice.

use ::std::cell::Cell;
use ::std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use ::std::sync::{Arc, Condvar, Mutex};

/// Lazily initialised statics start afresh in each epoch.
static EPOCH: AtomicU64 = AtomicU64::new(1);
pub fn epoch() -> u64 {
    EPOCH.load(SeqCst)
}
pub fn new_epoch() {
    EPOCH.fetch_add(1, SeqCst);
}

/// Some code tries locks without waiting: then releasing one is a visible operation too.
pub static TRIES: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    /// may go on at any time
    Go,
    /// goes on when the lock at that address can be taken (exclusively or shared)
    Lock(usize, bool),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Waiting(Want),
    Done,
}

/// What happened in an execution, in order.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Start(usize, usize),
    End(usize, usize, u64),
}

struct Shared {
    st: Vec<St>,
    /// whose turn it is
    turn: usize,
    abort: bool,
    events: Vec<Ev>,
    /// the call that a thread has begun but not yet made a visible step in
    fresh: Vec<Option<usize>>,
    names: Vec<&'static str>,
    prefix: Vec<usize>,
    choices: Vec<(Vec<usize>, usize, bool)>,
    schedule: Vec<(usize, &'static str)>,
    last: usize,
    diverged: bool,
    deadlock: Option<String>,
}

impl Shared {
    /// Everyone stands still: pick who goes on.
    fn decide(&mut self) {
        let n = self.st.len();
        if self.abort || self.st.iter().all(|t| *t == St::Done) {
            return;
        }
        let mut enabled: Vec<usize> = {
            let t = TABLE.lock().unwrap();
            (0..n)
                .filter(|i| match self.st[*i] {
                    St::Waiting(Want::Go) => true,
                    St::Waiting(Want::Lock(a, x)) => free(&t, a, x),
                    _ => false,
                })
                .collect()
        };
        if enabled.is_empty() {
            let who: Vec<String> = (0..n).filter(|i| self.st[*i] != St::Done).map(|i| format!("thread {i} waits in {}", self.names[i])).collect();
            self.deadlock = Some(who.join(", "));
            self.abort = true;
            return;
        }
        // the running thread first: choosing another one while it could go on is a preemption
        let can_go_on = enabled.contains(&self.last);
        if can_go_on {
            let last = self.last;
            enabled.retain(|i| *i != last);
            enabled.insert(0, last);
        }
        let want = self.prefix.get(self.choices.len()).copied().unwrap_or(0);
        let pick = if want < enabled.len() {
            want
        } else {
            self.diverged = true;
            0
        };
        let t = enabled[pick];
        if t != self.last {
            self.schedule.push((t, self.names[t]));
        }
        self.choices.push((enabled, pick, can_go_on));
        self.last = t;
        self.st[t] = St::Running;
        self.turn = t;
    }
}

struct Run {
    m: Mutex<Shared>,
    cv: Vec<Condvar>,
}

impl Run {
    /// Hand on the turn if everyone stands still.
    fn hand_on(&self, s: &mut Shared) {
        if s.st.contains(&St::Running) {
            return;
        }
        s.turn = usize::MAX;
        s.decide();
        if s.abort {
            for c in &self.cv {
                c.notify_one();
            }
        } else if s.turn != usize::MAX {
            self.cv[s.turn].notify_one();
        }
    }
}

/// A lock's state: writer held, readers.
pub struct LockState {
    pub writer: AtomicBool,
    pub readers: AtomicU64,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static RUN: Cell<*const Run> = const { Cell::new(::std::ptr::null()) };
}

/// Thrown through a thread to end an abandoned execution.
pub struct Abandoned;

fn controlled() -> Option<(&'static Run, usize)> {
    let r = RUN.with(Cell::get);
    // the run outlives its threads: they are joined before it is dropped
    if r.is_null() { None } else { Some((unsafe { &*r }, ME.with(Cell::get))) }
}

fn stop(run: &Run, me: usize, want: Want, what: &'static str) {
    if ::std::thread::panicking() {
        return;
    }
    let mut s = run.m.lock().unwrap();
    s.st[me] = St::Waiting(want);
    s.names[me] = what;
    run.hand_on(&mut s);
    while s.turn != me && !s.abort {
        s = run.cv[me].wait(s).unwrap();
    }
    if s.abort {
        drop(s);
        ::std::panic::resume_unwind(Box::new(Abandoned));
    }
    s.st[me] = St::Running;
    if let Some(op) = s.fresh[me].take() {
        s.events.push(Ev::Start(me, op));
    }
}

/// A visible operation that never blocks.
pub fn point(what: &'static str) {
    if let Some((run, me)) = controlled() {
        stop(run, me, Want::Go, what);
    }
}

/// Wait until the lock can be taken; the explorer only lets the thread go on when it can.
pub fn acquire(addr: usize, exclusive: bool, what: &'static str) -> bool {
    match controlled() {
        Some((run, me)) => {
            stop(run, me, Want::Lock(addr, exclusive), what);
            true
        }
        None => false,
    }
}

/// A call of the program under test begins / ends.
pub fn begin(op: usize) {
    if let Some((run, me)) = controlled() {
        run.m.lock().unwrap().fresh[me] = Some(op);
    }
}
pub fn end(op: usize, value: u64) {
    if let Some((run, me)) = controlled() {
        let mut s = run.m.lock().unwrap();
        if s.fresh[me].take().is_some() {
            s.events.push(Ev::Start(me, op));
        }
        s.events.push(Ev::End(me, op, value));
    }
}

/// Whether a lock can be taken now: asked by the explorer while every thread stands still.
static TABLE: Mutex<Vec<(usize, bool, u64)>> = Mutex::new(Vec::new());
pub fn set_lock(addr: usize, writer: bool, readers: u64) {
    let mut t = TABLE.lock().unwrap();
    match t.iter_mut().find(|e| e.0 == addr) {
        Some(e) => (e.1, e.2) = (writer, readers),
        None => t.push((addr, writer, readers)),
    }
}
fn free(t: &[(usize, bool, u64)], addr: usize, exclusive: bool) -> bool {
    match t.iter().find(|e| e.0 == addr) {
        Some(e) => !e.1 && (!exclusive || e.2 == 0),
        None => true,
    }
}

pub enum Outcome {
    Done,
    Deadlock(String),
    Panic(usize, String),
}

pub struct Execution {
    pub outcome: Outcome,
    pub events: Vec<Ev>,
    /// for each decision the enabled threads (the one that ran before first) and the choice
    pub choices: Vec<(Vec<usize>, usize, bool)>,
    pub schedule: String,
    pub diverged: bool,
}

/// Run the threads once, following `prefix` (indices into the enabled lists), then always the first choice.
pub fn execute(bodies: Vec<Box<dyn FnOnce() + Send>>, prefix: &[usize]) -> Execution {
    let n = bodies.len();
    TABLE.lock().unwrap().clear();
    let run = Arc::new(Run {
        m: Mutex::new(Shared {
            st: vec![St::Running; n],
            turn: usize::MAX,
            abort: false,
            events: vec![],
            fresh: vec![None; n],
            names: vec![""; n],
            prefix: prefix.to_vec(),
            choices: Vec::with_capacity(32),
            schedule: Vec::with_capacity(16),
            last: usize::MAX,
            diverged: false,
            deadlock: None,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut panics: Vec<(usize, String)> = vec![];
    ::std::thread::scope(|scope| {
        let mut handles = vec![];
        for (i, body) in bodies.into_iter().enumerate() {
            let r = run.clone();
            handles.push(scope.spawn(move || {
                ME.with(|m| m.set(i));
                RUN.with(|c| c.set(&*r));
                let out = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| {
                    stop(&r, i, Want::Go, "start");
                    body();
                }));
                RUN.with(|c| c.set(::std::ptr::null()));
                let mut s = r.m.lock().unwrap();
                s.st[i] = St::Done;
                r.hand_on(&mut s);
                match out {
                    Err(p) if !p.is::<Abandoned>() => Some(
                        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()),
                    ),
                    _ => None,
                }
            }));
        }
        for (i, h) in handles.into_iter().enumerate() {
            if let Ok(Some(p)) = h.join() {
                panics.push((i, p));
            }
        }
    });
    let mut s = run.m.lock().unwrap();
    let outcome = match (s.deadlock.take(), panics.into_iter().next()) {
        (Some(d), _) => Outcome::Deadlock(d),
        (None, Some((i, p))) => Outcome::Panic(i, p),
        _ => Outcome::Done,
    };
    let schedule = s.schedule.iter().map(|(t, n)| format!("{t}:{n}")).collect::<Vec<_>>().join(" ");
    Execution { outcome, events: ::std::mem::take(&mut s.events), choices: ::std::mem::take(&mut s.choices), schedule, diverged: s.diverged }
}
