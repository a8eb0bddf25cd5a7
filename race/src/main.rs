//! C18, inside operations: the library compiled with memory-access instrumentation, real threads run
//! one at a time, and preempted before every access to memory that more than one of them touches and
//! one of them writes. That memory is found by running: each newly found address becomes a place to
//! preempt at and the exploration starts over, until no run finds another. Each run is a forked
//! process of its own. Every thread must see what it sees alone in a fresh process.
#![allow(dead_code, unused)]

#[path = "../../mc/src/cmp.rs"]
mod cmp;
#[path = "../../mc/src/ctx.rs"]
mod ctx;
#[path = "../../mc/src/reflex.rs"]
mod reflex;
#[path = "../../mc/src/thread_ops.rs"]
mod thread_ops;

use ctx::{hash, js};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::{Condvar, Mutex};
use thread_ops::*;

pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    f()
}

extern "C" {
    fn race_setup();
    fn race_thread(i: i32);
    fn race_active(on: i32);
    fn race_share(g: u64) -> i32;
    fn race_unshare();
    fn race_conflicts(out: *mut u64, max: i32) -> i32;
    fn race_touched() -> u64;
    static race_overflow: i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

// ---- memory: one never-reused region per thread, so that addresses depend on the schedule alone ----

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
}
const BASE: usize = 0x6000_0000_0000;
const REGION: usize = 1 << 28;
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let me = ME.with(Cell::get);
        if me == usize::MAX {
            return System.alloc(l);
        }
        // no two blocks in one 8-byte granule
        let at = (NEXT.with(Cell::get) + l.align().max(8) - 1) & !(l.align().max(8) - 1);
        if at + l.size() > REGION {
            return std::ptr::null_mut();
        }
        NEXT.with(|n| n.set(at + ((l.size() + 7) & !7)));
        (BASE + me * REGION + at) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize) < BASE || p as usize >= BASE + 4 * REGION {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static A: Alloc = Alloc;

// ---- scheduler ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Ready,
    Waits(usize, bool),
    TimedOut,
    Done,
}
struct S {
    th: Vec<Th>,
    turn: usize,
    path: Vec<u8>,
    taken: Vec<(u8, u8)>,
    at: usize,
    preempt: usize,
    bound: usize,
    in_a_row: usize,
    steps: usize,
    /// (thread left, step)
    switches: Vec<(usize, usize)>,
}
static G: Mutex<S> = Mutex::new(S { th: Vec::new(), turn: usize::MAX, path: Vec::new(), taken: Vec::new(), at: 0, preempt: 0, bound: 0, in_a_row: 0, steps: 0, switches: Vec::new() });
static CV: Condvar = Condvar::new();

fn give_up(why: &str) -> ! {
    let s = G.try_lock();
    report(why, &[], s.as_ref().ok().map(|s| &**s));
    unsafe { _exit(0) }
}

fn choose(s: &mut S, me: usize) -> Result<(), String> {
    let mut ready: Vec<usize> = (0..s.th.len()).filter(|&i| s.th[i] == Th::Ready).collect();
    if ready.is_empty() {
        // only threads that wait with a time limit can go on
        match s.th.iter().position(|t| matches!(t, Th::Waits(_, true))) {
            Some(t) => {
                s.th[t] = Th::TimedOut;
                s.turn = t;
                return Ok(());
            }
            None if s.th.iter().any(|t| matches!(t, Th::Waits(..))) => return Err("deadlock".into()),
            None => {
                s.turn = usize::MAX;
                return Ok(());
            }
        }
    }
    if let Some(p) = ready.iter().position(|&i| i == me) {
        ready.remove(p);
        ready.insert(0, me);
        s.in_a_row += 1;
        if s.in_a_row > 3000 && ready.len() > 1 {
            ready.remove(0);
        } else if s.preempt >= s.bound {
            ready.truncate(1);
        }
    }
    let n = ready.len();
    let mut c = 0;
    if n > 1 {
        c = s.path.get(s.at).map_or(0, |&c| (c as usize).min(n - 1));
        s.at += 1;
        s.taken.push((c as u8, n as u8));
    }
    if ready[c] != me {
        if ready.contains(&me) {
            s.preempt += 1;
        }
        s.in_a_row = 0;
        let step = (me, s.steps);
        if me != usize::MAX && s.th[me] != Th::Done {
            s.switches.push(step);
        }
    }
    s.turn = ready[c];
    Ok(())
}
fn pass(mut s: std::sync::MutexGuard<S>, me: usize) {
    if let Err(e) = choose(&mut s, me) {
        report(&e, &[], Some(&s));
        unsafe { _exit(0) }
    }
    CV.notify_all();
    while s.turn != me {
        s = CV.wait(s).unwrap();
    }
}
#[no_mangle]
extern "C" fn race_point(_addr: usize, _write: i32) {
    let me = ME.with(Cell::get);
    let mut s = G.lock().unwrap();
    s.steps += 1;
    if s.steps > 400_000 {
        report("no progress after 400000 accesses to shared memory", &[], Some(&s));
        unsafe { _exit(0) }
    }
    pass(s, me);
}
#[no_mangle]
extern "C" fn race_wait(addr: usize, timed: i32) -> i32 {
    let me = ME.with(Cell::get);
    let mut s = G.lock().unwrap();
    s.th[me] = Th::Waits(addr, timed != 0);
    pass(s, me);
    let mut s = G.lock().unwrap();
    let out = s.th[me] == Th::TimedOut;
    s.th[me] = Th::Ready;
    out as i32
}
#[no_mangle]
extern "C" fn race_wake(addr: usize, n: i32) -> i32 {
    let mut s = G.lock().unwrap();
    let mut k = 0;
    for t in &mut s.th {
        if k < n && matches!(t, Th::Waits(a, _) if *a == addr) {
            *t = Th::Ready;
            k += 1;
        }
    }
    k
}

// ---- one run, in a process of its own ----

const SHARED: usize = 1 << 23;
static mut OUT: *mut u8 = std::ptr::null_mut();

struct Put(usize);
impl Put {
    fn u(&mut self, x: u64) {
        self.b(&x.to_le_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        if self.0 + x.len() <= SHARED {
            unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), OUT.add(self.0), x.len()) };
            self.0 += x.len();
        }
    }
    fn s(&mut self, x: &str) {
        self.u(x.len() as u64);
        self.b(x.as_bytes());
    }
}
struct Get(usize);
impl Get {
    fn u(&mut self) -> u64 {
        let mut b = [0; 8];
        unsafe { std::ptr::copy_nonoverlapping(OUT.add(self.0), b.as_mut_ptr(), 8) };
        self.0 += 8;
        u64::from_le_bytes(b)
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let v = unsafe { std::slice::from_raw_parts(OUT.add(self.0), n) }.to_vec();
        self.0 += n;
        String::from_utf8(v).unwrap()
    }
}

struct Run {
    failed: String,
    taken: Vec<(u8, u8)>,
    switches: Vec<(usize, usize)>,
    steps: u64,
    touched: u64,
    overflow: bool,
    conflicts: Vec<u64>,
    outs: Vec<Vec<String>>,
}

fn report(failed: &str, outs: &[Vec<String>], s: Option<&S>) {
    let mut p = Put(8);
    p.s(failed);
    let empty: (Vec<(u8, u8)>, Vec<(usize, usize)>, usize) = Default::default();
    let (taken, sw, steps) = s.map_or((&empty.0, &empty.1, 0), |s| (&s.taken, &s.switches, s.steps));
    p.u(taken.len() as u64);
    for &(a, b) in taken {
        p.b(&[a, b]);
    }
    let sw = &sw[..sw.len().min(200)];
    p.u(sw.len() as u64);
    for &(a, b) in sw {
        p.u(a as u64);
        p.u(b as u64);
    }
    p.u(steps as u64);
    p.u(unsafe { race_touched() });
    p.u(unsafe { race_overflow } as u64);
    let mut c = vec![0u64; 4096];
    let n = unsafe { race_conflicts(c.as_mut_ptr(), 4096) } as usize;
    p.u(n as u64);
    for &g in &c[..n] {
        p.u(g);
    }
    p.u(outs.len() as u64);
    for o in outs {
        p.u(o.len() as u64);
        for x in o {
            p.s(x);
        }
    }
    let n = p.0 as u64;
    Put(0).u(n);
}

fn child(progs: &[&str], path: &[u8], bound: usize) -> ! {
    unsafe { alarm(60) };
    {
        let mut s = G.lock().unwrap();
        s.th = vec![Th::Ready; progs.len()];
        s.path = path.to_vec();
        s.bound = bound;
    }
    let outs: Vec<Mutex<Vec<String>>> = progs.iter().map(|_| Mutex::default()).collect();
    std::thread::scope(|sc| {
        for (i, p) in progs.iter().enumerate() {
            let outs = &outs;
            sc.spawn(move || {
                unsafe { race_thread(i as i32) };
                ME.with(|m| m.set(i));
                {
                    let mut s = G.lock().unwrap();
                    while s.turn != i {
                        s = CV.wait(s).unwrap();
                    }
                }
                let mut st = State::default();
                for op in p.chars() {
                    unsafe { race_active(1) };
                    let o = guarded(&mut st, op);
                    unsafe { race_active(0) };
                    outs[i].lock().unwrap().push(o);
                }
                let mut s = G.lock().unwrap();
                s.th[i] = Th::Done;
                if let Err(e) = choose(&mut s, i) {
                    report(&e, &[], Some(&s));
                    unsafe { _exit(0) }
                }
                CV.notify_all();
                // threads end, and with them their thread-locals, when all are through
                while s.th.iter().any(|t| *t != Th::Done) {
                    s = CV.wait(s).unwrap();
                }
                drop(s);
                ME.with(|m| m.set(usize::MAX));
            });
        }
        let mut s = G.lock().unwrap();
        let _ = choose(&mut s, usize::MAX);
        CV.notify_all();
    });
    let outs: Vec<Vec<String>> = outs.into_iter().map(|o| o.into_inner().unwrap()).collect();
    report("", &outs, Some(&G.lock().unwrap()));
    unsafe { _exit(0) }
}

fn run(progs: &[&str], path: &[u8], bound: usize) -> Result<Run, i32> {
    Put(0).u(0);
    let mut st = 0;
    unsafe {
        let pid = fork();
        if pid == 0 {
            child(progs, path, bound);
        }
        assert!(pid > 0, "fork failed");
        assert_eq!(waitpid(pid, &mut st, 0), pid);
    }
    if st != 0 || Get(0).u() == 0 {
        return Err(st);
    }
    let mut g = Get(8);
    let failed = g.s();
    let n = g.u() as usize;
    let taken = (0..n).map(|i| unsafe { (*OUT.add(g.0 + 2 * i), *OUT.add(g.0 + 2 * i + 1)) }).collect();
    g.0 += 2 * n;
    let n = g.u();
    let switches = (0..n).map(|_| (g.u() as usize, g.u() as usize)).collect();
    let (steps, touched, overflow) = (g.u(), g.u(), g.u() != 0);
    let n = g.u();
    let conflicts = (0..n).map(|_| g.u()).collect();
    let n = g.u();
    let outs = (0..n)
        .map(|_| {
            let k = g.u();
            (0..k).map(|_| g.s()).collect()
        })
        .collect();
    Ok(Run { failed, taken, switches, steps, touched, overflow, conflicts, outs })
}

fn words(ops: &str, len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len {
        v = v.iter().flat_map(|p| ops.chars().map(move |c| format!("{p}{c}"))).collect();
    }
    v
}
fn legend(progs: &[&str]) -> String {
    OPS.iter().chain(MORE).filter(|(c, _)| progs.iter().any(|p| p.contains(*c))).map(|(c, d)| format!("{c}: {d}")).collect::<Vec<_>>().join(", ")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    ctx::quiet_panics();
    let thorough = args[2] == "thorough";
    let arg = |n: usize, d: usize| args.get(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (shard, shards) = (arg(3, 0), arg(4, 1));
    let warm = args.get(5).map_or(false, |s| s == "warm");
    let t0 = std::time::Instant::now();
    unsafe {
        race_setup();
        // MAP_SHARED|MAP_ANONYMOUS, then MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED
        OUT = mmap(std::ptr::null_mut(), SHARED, 3, 0x21, -1, 0);
        let a = mmap(BASE as *mut u8, 4 * REGION, 3, 0x4032, -1, 0);
        assert_eq!(a as usize, BASE);
    }
    let all: String = OPS.iter().chain(MORE).map(|o| o.0).filter(|c| !"xm".contains(*c)).collect();

    let mut jobs: Vec<Vec<String>> = Vec::new();
    let (one, two) = (words(&all, 1), words(&all, 2));
    let mut pairs = |a: &[String], b: &[String], same: bool| {
        for (i, x) in a.iter().enumerate() {
            for y in if same { &b[i..] } else { b } {
                jobs.push(vec![x.clone(), y.clone()]);
            }
        }
    };
    pairs(&one, &one, true);
    if warm || !cfg!(feature = "wrap") {
        pairs(&one, &two, false);
        if thorough {
            pairs(&two, &two, true);
        }
        for (i, x) in one.iter().enumerate() {
            for (j, y) in one.iter().enumerate().skip(i) {
                for z in &one[j..] {
                    jobs.push(vec![x.clone(), y.clone(), z.clone()]);
                }
            }
        }
    }
    let mine: Vec<&Vec<String>> = jobs.iter().enumerate().filter(|(j, _)| j % shards == shard).map(|(_, p)| p).collect();

    // alone, in a process in which the library has not been used
    let mut alone: HashMap<&str, Vec<String>> = HashMap::new();
    let mut violations: Vec<(String, String)> = Vec::new();
    let mut notes: HashSet<String> = HashSet::new();
    for p in mine.iter().flat_map(|p| p.iter()) {
        if !alone.contains_key(p.as_str()) {
            match run(&[p], &[], 0) {
                Ok(mut r) => alone.insert(p, r.outs.pop().unwrap_or_else(|| vec![r.failed])),
                Err(e) => alone.insert(p, vec![format!("process ended with status {e}")]),
            };
        }
    }
    if warm {
        let mut st = State::default();
        for op in all.chars() {
            guarded(&mut st, op);
        }
    }

    let mut states = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let (mut schedules, mut steps, mut touched, mut cut, mut sharing, mut places) = (0u64, 0u64, 0u64, 0u64, 0u64, HashSet::new());
    'jobs: for progs in &mine {
        let p: Vec<&str> = progs.iter().map(String::as_str).collect();
        unsafe { race_unshare() };
        let mut shared = 0;
        let most = if thorough { 3 } else { 2 };
        let cap = if thorough { 20000 } else { 2500 };
        let mut mine = 0;
        'bounds: for bound in 1..=most {
            if bound > 1 && shared == 0 {
                break; // nowhere to preempt
            }
            let mut path: Vec<u8> = Vec::new();
            loop {
                let r = match run(&p, &path, bound) {
                    Ok(r) => r,
                    Err(14) => {
                        notes.insert("a run waited for something outside the scheduler's control; its programs were left out".into());
                        continue 'jobs;
                    }
                    Err(e) => {
                        violations.push((format!("{p:?} {path:?}"), format!("threads running {p:?} ({}): the process died with status {e}, schedule {path:?}", legend(&p))));
                        continue 'jobs;
                    }
                };
                schedules += 1;
                mine += 1;
                steps += r.steps + r.outs.iter().map(|o| o.len() as u64).sum::<u64>();
                touched += r.touched;
                if r.overflow {
                    notes.insert("more memory touched than could be recorded in some run".into());
                }
                let how = format!("preempted at accesses to shared memory, thread and step {:?}", r.switches);
                if schedules % 997 == 1 || (samples.len() < 2 && !r.switches.is_empty()) {
                    samples.push(format!("{p:?} {how}"));
                }
                if !r.failed.is_empty() {
                    violations.push((format!("{p:?} {path:?}"), format!("threads running {p:?} ({}) {how}: {}", legend(&p), r.failed)));
                } else {
                    for (t, g) in r.outs.iter().enumerate() {
                        let want = &alone[p[t]];
                        states.insert(hash((p[t], g)));
                        if g != want {
                            let k = (0..g.len().max(want.len())).find(|&k| g.get(k) != want.get(k)).unwrap();
                            violations.push((
                                format!("{p:?} {path:?}"),
                                format!("threads running {p:?} ({}) {how}: thread {t}'s operation {} gives {:?} but alone in a process of its own {:?}", legend(&p), k + 1, g.get(k), want.get(k)),
                            ));
                            break;
                        }
                    }
                }
                if violations.len() > 4 {
                    break 'jobs;
                }
                let mut grew = 0;
                for &g in &r.conflicts {
                    grew += unsafe { race_share(g) };
                    places.insert(g);
                }
                if grew > 0 && shared < 200 {
                    shared += grew;
                    path.clear();
                    continue;
                }
                if mine >= cap {
                    cut += 1;
                    break 'bounds;
                }
                match r.taken.iter().rposition(|&(c, n)| c + 1 < n) {
                    None => break,
                    Some(i) => {
                        path = r.taken[..i].iter().map(|x| x.0).collect();
                        path.push(r.taken[i].0 + 1);
                    }
                }
            }
        }
        sharing += (shared > 0) as u64;
    }
    if cut > 0 {
        notes.insert("some sets of programs have more schedules than the cap; theirs were cut off in depth-first order".into());
    }
    println!(
        "MC-RESULT {{\"states\":{},\"transitions\":{},\"validated\":{},\"open\":0,\"spaces\":[[{},{}],[{},{}],[{},{}],[{},{}],[{},{}]],\"samples\":[{}],\"notes\":[{}],\"violations\":[{}],\"seconds\":{:.3}}}",
        states.len(), steps, schedules,
        js("sets of thread programs, preempted at every access to shared memory"), jobs.len(),
        js("schedules of these in this shard"), schedules,
        js("sets of programs that share writable memory in this shard"), sharing,
        js("sets of programs cut off at the cap in this shard"), cut,
        js("8-byte blocks of memory touched by the threads of all runs in this shard"), touched,
        samples.iter().rev().take(2).map(|s| js(s)).collect::<Vec<_>>().join(","),
        notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        violations.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
