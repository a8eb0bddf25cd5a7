//! C18: programs of parses, queries, prints and invalidations on several threads, all interleavings
//! of their operations, and interleavings inside operations with the allocator as scheduling point.
//! Every thread must see exactly what it sees when it runs alone in a process of its own.
#![allow(dead_code, unused)]

mod cmp;
mod ctx;
mod reflex;
#[path = "../../det/src/sched.rs"]
mod sched;
mod thread_ops;

use ctx::{hash, js};
use proc_macro2::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;

// ---- the allocator as scheduling point ----

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}
struct Alloc;
fn hook() {
    if ACTIVE.try_with(Cell::get) == Ok(true) {
        ACTIVE.with(|a| a.set(false));
        sched::point("alloc");
        ACTIVE.with(|a| a.set(true));
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hook();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

/// Library calls with scheduling points inside.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ACTIVE.with(|a| a.set(false));
        }
    }
    let _off = Off;
    ACTIVE.with(|a| a.set(sched::me().is_some()));
    f()
}

use thread_ops::*;

// ---- alone ----

/// A program alone, on fresh threads; outcomes joined.
fn alone(prog: &str) -> Vec<String> {
    let mut out = Vec::new();
    for part in split(prog) {
        let p = part.clone();
        let r = std::thread::spawn(move || {
            let mut st = State::default();
            p.chars().map(|op| guarded(&mut st, op)).collect::<Vec<_>>()
        })
        .join()
        .unwrap();
        out.extend(r);
        out.push(String::new()); // the exit
    }
    out.pop();
    out
}
fn split(prog: &str) -> Vec<String> {
    prog.split('x').map(str::to_owned).collect()
}

// ---- operation-level interleaving ----

enum Msg {
    Op(char),
}
struct Worker {
    tx: Option<mpsc::SyncSender<Msg>>,
    rx: mpsc::Receiver<String>,
    h: Option<std::thread::JoinHandle<()>>,
}
fn worker() -> Worker {
    let (tx, rx_in) = mpsc::sync_channel::<Msg>(1);
    let (tx_out, rx) = mpsc::sync_channel::<String>(1);
    let h = std::thread::spawn(move || {
        let mut st = State::default();
        while let Ok(Msg::Op(c)) = rx_in.recv() {
            let o = guarded(&mut st, c);
            if tx_out.send(o).is_err() {
                return;
            }
        }
    });
    Worker { tx: Some(tx), rx, h: Some(h) }
}
impl Worker {
    fn exit(&mut self) {
        self.tx = None;
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

/// One interleaving: `order[k]` is the thread that does step k.
fn interleaved(progs: &[&str], order: &[usize]) -> Vec<Vec<String>> {
    let mut out = vec![Vec::new(); progs.len()];
    let mut at: Vec<std::str::Chars> = progs.iter().map(|p| p.chars()).collect();
    let mut w: Vec<Option<Worker>> = progs.iter().map(|_| None).collect();
    for &t in order {
        match at[t].next().unwrap() {
            'x' => {
                if let Some(mut k) = w[t].take() {
                    k.exit();
                }
                out[t].push(String::new());
            }
            c => {
                let k = w[t].get_or_insert_with(worker);
                k.tx.as_ref().unwrap().send(Msg::Op(c)).unwrap();
                out[t].push(k.rx.recv().unwrap_or_else(|_| "thread died".into()));
            }
        }
    }
    for k in w.iter_mut().flatten() {
        k.exit();
    }
    out
}

fn orders(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|&n| n == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut lens.to_vec(), &mut Vec::new(), &mut out);
    out
}

fn words(len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len {
        v = v.iter().flat_map(|p| OPS.iter().map(move |(c, _)| format!("{p}{c}"))).collect();
    }
    v
}

struct Res {
    states: HashSet<u64>,
    transitions: u64,
    validated: u64,
    diverged: u64,
    violations: Vec<(String, String)>,
    samples: Vec<String>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    ctx::quiet_panics();
    if args[2] == "alone" {
        // one program per line on stdin is read by the parent's single process per program
        for o in alone(&args[3]) {
            println!("{}", js(&o));
        }
        return;
    }
    let thorough = args[2] == "thorough";
    let arg = |n: usize, d: usize| args.get(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (shard, shards) = (arg(3, 0), arg(4, 1));
    let t0 = std::time::Instant::now();
    let exe = std::env::current_exe().unwrap();
    let cache: std::cell::RefCell<HashMap<String, Vec<String>>> = Default::default();
    let baseline = |p: &str| -> Vec<String> {
        if let Some(v) = cache.borrow().get(p) {
            return v.clone();
        }
        let out = Command::new(&exe).args(["C18", "alone", p]).output().unwrap();
        let mut v: Vec<String> = String::from_utf8_lossy(&out.stdout).split('\n').map(str::to_owned).collect();
        v.pop();
        if !out.status.success() {
            v.push(format!("process died: {}", out.status));
        }
        cache.borrow_mut().insert(p.to_owned(), v.clone());
        v
    };
    let mut r = Res { states: HashSet::new(), transitions: 0, validated: 0, diverged: 0, violations: vec![], samples: vec![] };
    let check = |r: &mut Res, progs: &[&str], how: &str, got: &[Vec<String>]| {
        for (t, g) in got.iter().enumerate() {
            let want = baseline(progs[t]);
            let g: Vec<String> = g.iter().map(|s| js(s)).collect();
            if g != want {
                let k = (0..g.len().max(want.len())).find(|&k| g.get(k) != want.get(k)).unwrap();
                r.violations.push((
                    format!("{progs:?} {how}"),
                    format!("threads running {progs:?} ({}) {how}: thread {t}'s operation {} gives {} but alone in a process of its own {}", legend(progs), k + 1,
                        g.get(k).cloned().unwrap_or_default(), want.get(k).cloned().unwrap_or_default()),
                ));
                return;
            }
            r.states.insert(hash((progs[t], &g)));
        }
    };

    // operation level
    let mut jobs: Vec<Vec<String>> = Vec::new();
    let (one, two, three) = (words(1), words(2), words(3));
    let pair = |a: &[String], b: &[String], jobs: &mut Vec<Vec<String>>, same: bool| {
        for (i, x) in a.iter().enumerate() {
            for y in if same { &b[i..] } else { b } {
                jobs.push(vec![x.clone(), y.clone()]);
            }
        }
    };
    pair(&two, &two, &mut jobs, true);
    pair(&three, &one, &mut jobs, false);
    pair(&three, &two, &mut jobs, false);
    let n2 = jobs.len();
    if thorough {
        pair(&three, &three, &mut jobs, true);
        pair(&words(4), &two, &mut jobs, false);
    }
    let n3 = jobs.len();
    for (i, x) in one.iter().enumerate() {
        for y in &one[i..] {
            for z in if thorough { &two } else { &two } {
                jobs.push(vec![x.clone(), y.clone(), z.clone()]);
            }
        }
    }
    let njobs = jobs.len();
    let mut schedules = 0u64;
    for (j, progs) in jobs.iter().enumerate() {
        if j % shards != shard {
            continue;
        }
        let p: Vec<&str> = progs.iter().map(String::as_str).collect();
        let lens: Vec<usize> = p.iter().map(|s| s.chars().count()).collect();
        for order in orders(&lens) {
            let got = interleaved(&p, &order);
            r.transitions += order.len() as u64;
            r.validated += 1;
            schedules += 1;
            if schedules % 20011 == 1 {
                r.samples.push(format!("{p:?} in order {order:?}"));
            }
            check(&mut r, &p, &format!("in order {order:?}"), &got);
            if r.violations.len() > 4 {
                finish(r, t0, njobs as u64, 0, 0);
            }
        }
    }

    // inside operations
    let inner: Vec<Vec<String>> = {
        let mut v = Vec::new();
        let progs: Vec<String> = one.iter().filter(|s| *s != "x" && *s != "m").cloned().chain(["aq", "bq", "ai", "ia", "ee", "ab", "qa", "lj", "aj"].map(str::to_owned)).collect();
        for (i, x) in progs.iter().enumerate() {
            for y in &progs[i..] {
                v.push(vec![x.clone(), y.clone()]);
            }
        }
        v
    };
    let ninner = inner.len() as u64;
    let mut fine = 0u64;
    for (j, progs) in inner.iter().enumerate() {
        if j % shards != shard {
            continue;
        }
        let p: Vec<&str> = progs.iter().map(String::as_str).collect();
        let short = progs.iter().all(|s| s.len() == 1);
        let bound = match (short, thorough) {
            (true, false) => 2,
            (false, false) => 1,
            (true, true) => 3,
            (false, true) => 2,
        };
        let outs: Vec<Mutex<Vec<String>>> = p.iter().map(|_| Mutex::default()).collect();
        let mut stop = false;
        let n = sched::explore(
            p.len(),
            false,
            bound,
            |i| {
                let mut st = State::default();
                for op in p[i].chars() {
                    let o = guarded(&mut st, op);
                    outs[i].lock().unwrap().push(o);
                }
            },
            |run| {
                r.transitions += run.steps as u64;
                r.validated += 1;
                let got: Vec<Vec<String>> = outs.iter().map(|o| std::mem::take(&mut *o.lock().unwrap())).collect();
                match &run.failed {
                    Some(f) => r.violations.push((format!("{p:?}"), format!("threads running {p:?} ({}): {f}", legend(&p)))),
                    None => check(&mut r, &p, &format!("preempted at allocations, thread and step {:?}", run.switches()), &got),
                }
                r.violations.len() <= 4 && sched::stuck() <= 2
            },
        );
        fine += n;
        if r.violations.len() > 4 || sched::stuck() > 2 {
            break;
        }
    }
    finish(r, t0, njobs as u64, ninner, fine);
}

fn legend(progs: &[&str]) -> String {
    OPS.iter().filter(|(c, _)| progs.iter().any(|p| p.contains(*c))).map(|(c, d)| format!("{c}: {d}")).collect::<Vec<_>>().join(", ")
}

fn finish(r: Res, t0: std::time::Instant, njobs: u64, ninner: u64, fine: u64) -> ! {
    println!(
        "MC-RESULT {{\"states\":{},\"transitions\":{},\"validated\":{},\"open\":0,\"spaces\":[[{},{}],[{},{}],[{},{}],[{},{}]],\"samples\":[{}],\"notes\":[{}],\"violations\":[{}],\"seconds\":{:.3}}}",
        r.states.len(), r.transitions, r.validated,
        js("sets of thread programs, all interleavings of whole operations"), njobs,
        js("schedules of whole operations in this shard"), r.validated - fine,
        js("pairs of thread programs, preempted inside operations at every allocation"), ninner,
        js("preemption-bounded schedules inside operations in this shard"), fine,
        r.samples.iter().take(4).map(|s| js(s)).collect::<Vec<_>>().join(","),
        if sched::stuck() > 2 { js("threads wait for each other inside operations: the exploration inside operations was cut short") } else { String::new() },
        r.violations.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
}
