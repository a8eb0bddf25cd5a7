//! Stateless exploration: real threads, one at a time, every scheduling choice enumerated.

use std::cell::Cell;
use std::sync::{Condvar, Mutex};

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Ready,
    Blocked(usize),
    Done,
}

struct S {
    epoch: u64,
    avail: bool,
    th: Vec<Th>,
    turn: usize,
    /// choices taken: (index, number of alternatives)
    path: Vec<(usize, usize)>,
    at: usize,
    steps: usize,
    clock: usize,
    preempt: usize,
    bound: usize,
    trace: Vec<(usize, &'static str)>,
    failed: Option<String>,
    /// this run goes on without control; runs that had to
    free: bool,
    stuck: u64,
}
static G: Mutex<S> = Mutex::new(S { epoch: 1, avail: false, th: Vec::new(), turn: 0, path: Vec::new(), at: 0, steps: 0, clock: 0, preempt: 0, bound: 0, trace: Vec::new(), failed: None, free: false, stuck: 0 });
static CV: Condvar = Condvar::new();

pub struct Abort;

pub fn stuck() -> u64 {
    G.lock().unwrap().stuck
}
pub fn me() -> Option<usize> {
    ME.with(Cell::get)
}
pub fn epoch() -> u64 {
    G.lock().unwrap().epoch
}
pub fn available() -> bool {
    G.lock().unwrap().avail
}

/// Picks who runs next. `me` may go on if Ready.
fn choose(s: &mut S, me: usize) {
    let mut ready: Vec<usize> = (0..s.th.len()).filter(|&i| s.th[i] == Th::Ready).collect();
    if ready.is_empty() {
        if s.th.iter().any(|t| matches!(t, Th::Blocked(_))) {
            s.failed.get_or_insert("deadlock".into());
        }
        s.turn = usize::MAX;
        return;
    }
    // the current thread first, so that choice 0 never preempts
    if let Some(p) = ready.iter().position(|&i| i == me) {
        ready.swap(0, p);
        ready[1..].sort();
        if s.preempt >= s.bound {
            ready.truncate(1);
        }
    }
    let n = ready.len();
    let c = if n == 1 {
        0
    } else {
        if s.at == s.path.len() {
            s.path.push((0, n));
        }
        // a run may depend on process-wide state left by earlier runs; stay within what there is
        let c = s.path[s.at].0.min(n - 1);
        let at = s.at;
        s.path[at] = (c, n);
        s.at += 1;
        c
    };
    if ready[c] != me && ready.contains(&me) {
        s.preempt += 1;
    }
    s.turn = ready[c];
}

fn wait(mut s: std::sync::MutexGuard<S>, me: usize) {
    while s.turn != me && s.failed.is_none() && !s.free {
        let (epoch, seen) = (s.epoch, s.steps);
        let (g, t) = CV.wait_timeout(s, std::time::Duration::from_secs(3)).unwrap();
        s = g;
        if t.timed_out() && s.epoch == epoch && s.steps == seen && s.turn != me {
            // the thread whose turn it is waits for something a preempted thread holds: let go
            s.free = true;
            s.stuck += 1;
            CV.notify_all();
        }
    }
    if s.failed.is_some() && !std::thread::panicking() {
        drop(s);
        std::panic::resume_unwind(Box::new(Abort));
    }
}

pub fn point(what: &'static str) {
    let Some(me) = ME.with(Cell::get) else { return };
    if std::thread::panicking() {
        return;
    }
    let mut s = G.lock().unwrap();
    s.steps += 1;
    if s.free {
        return;
    }
    if s.steps > 4000 {
        s.failed.get_or_insert("no progress after 4000 steps".into());
        CV.notify_all();
    } else {
        choose(&mut s, me);
        if s.turn != me {
            CV.notify_all();
        }
    }
    wait(s, me);
    // logged when it happens, not when it is reached
    mark(what);
}
pub fn block(on: usize) {
    let me = ME.with(Cell::get).unwrap();
    let mut s = G.lock().unwrap();
    s.th[me] = Th::Blocked(on);
    choose(&mut s, me);
    CV.notify_all();
    wait(s, me);
}
pub fn wake(on: usize) {
    let mut s = G.lock().unwrap();
    for t in s.th.iter_mut() {
        if *t == Th::Blocked(on) {
            *t = Th::Ready;
        }
    }
}

/// A clock that advances with every reading, for real-time order (threads run one at a time).
pub fn now() -> usize {
    let mut s = G.lock().unwrap();
    s.clock += 1;
    s.clock
}
pub fn mark(what: &'static str) {
    let Some(me) = ME.with(Cell::get) else { return };
    G.lock().unwrap().trace.push((me, what));
}

pub struct Run {
    pub trace: Vec<(usize, &'static str)>,
    pub steps: usize,
    pub failed: Option<String>,
}

impl Run {
    /// Where the running thread changed: (thread, index of its step).
    pub fn switches(&self) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        let mut n = std::collections::HashMap::new();
        let mut last = usize::MAX;
        for (t, _) in &self.trace {
            let k = n.entry(*t).or_insert(0usize);
            if *t != last {
                v.push((*t, *k));
                last = *t;
            }
            *k += 1;
        }
        v
    }
}

/// Runs all schedules of the threads' bodies; `check` after each. Returns the number of schedules.
pub fn explore(n: usize, avail: bool, bound: usize, body: impl Fn(usize) + Sync, mut check: impl FnMut(&Run) -> bool) -> u64 {
    let mut path: Vec<(usize, usize)> = Vec::new();
    let mut count = 0;
    loop {
        {
            let mut s = G.lock().unwrap();
            s.epoch += 1;
            s.avail = avail;
            s.th = vec![Th::Ready; n];
            s.path = path.clone();
            s.at = 0;
            s.steps = 0;
            s.preempt = 0;
            s.bound = bound;
            s.trace.clear();
            s.failed = None;
            s.free = false;
            s.turn = usize::MAX;
            // who starts is a choice, too
            choose(&mut s, usize::MAX);
        }
        std::thread::scope(|sc| {
            for i in 0..n {
                let body = &body;
                sc.spawn(move || {
                    ME.with(|m| m.set(Some(i)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        wait(G.lock().unwrap(), i);
                        body(i)
                    }));
                    let mut s = G.lock().unwrap();
                    if let Err(p) = r {
                        if !p.is::<Abort>() {
                            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            s.failed.get_or_insert(format!("thread {i} panicked: {m}"));
                        }
                    }
                    s.th[i] = Th::Done;
                    if s.failed.is_none() {
                        choose(&mut s, i);
                    }
                    CV.notify_all();
                });
            }
        });
        count += 1;
        let run = {
            let mut s = G.lock().unwrap();
            path = s.path[..s.at].to_vec();
            Run { trace: std::mem::take(&mut s.trace), steps: s.steps, failed: s.failed.take() }
        };
        if !check(&run) {
            return count;
        }
        // next path
        loop {
            match path.pop() {
                None => return count,
                Some((c, m)) if c + 1 < m => {
                    path.push((c + 1, m));
                    break;
                }
                _ => {}
            }
        }
    }
}
