//! Every interleaving of first uses, force and unforce on the crate's own detection code; each
//! outcome must be explained by some order of the operations (linearizability).
#![allow(dead_code, unused)]

mod detection {
    #![allow(dead_code, unused)]
    include!(concat!(env!("OUT_DIR"), "/detection.rs"));
}
mod sched;
mod shim;

use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Use,
    Force,
    Unforce,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ev {
    th: usize,
    op: Op,
    out: bool,
    start: usize,
    end: usize,
}

/// Is there an order of the operations, respecting real time, that the specification allows?
fn linearizable(evs: &[Ev], avail: bool) -> bool {
    fn go(evs: &[Ev], done: u32, forced: bool, avail: bool) -> bool {
        if done.count_ones() as usize == evs.len() {
            return true;
        }
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 1 {
                continue;
            }
            // e may come next unless another pending operation finished before e started
            if evs.iter().enumerate().any(|(j, f)| j != i && done >> j & 1 == 0 && f.end < e.start) {
                continue;
            }
            let ok = match e.op {
                Op::Use => e.out == (avail && !forced) && go(evs, done | 1 << i, forced, avail),
                Op::Force => go(evs, done | 1 << i, true, avail),
                Op::Unforce => go(evs, done | 1 << i, false, avail),
            };
            if ok {
                return true;
            }
        }
        false
    }
    go(evs, 0, false, avail)
}

fn programs(len: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.iter().flat_map(|p: &Vec<Op>| [Op::Use, Op::Force, Op::Unforce].map(|o| p.iter().copied().chain([o]).collect())).collect();
    }
    v
}

fn main() {
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let arg = |n: usize, d: usize| std::env::args().nth(n).and_then(|s| s.parse().ok()).unwrap_or(d);
    let (shard, shards) = (arg(2, 0), arg(3, 1));
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::time::Instant::now();
    // (programs per thread, preemption bound)
    let mut jobs: Vec<(Vec<Vec<Op>>, usize)> = Vec::new();
    let mut two: Vec<Vec<Op>> = programs(1);
    two.extend(programs(2));
    for a in &two {
        for b in &two {
            if a.len() > b.len() || (a.len() == b.len() && format!("{a:?}") < format!("{b:?}")) {
                continue; // symmetric
            }
            jobs.push((vec![a.clone(), b.clone()], usize::MAX));
        }
    }
    for a in &programs(3) {
        for b in &programs(1) {
            jobs.push((vec![b.clone(), a.clone()], usize::MAX));
        }
    }
    if thorough {
        for a in &programs(3) {
            for b in &programs(2) {
                jobs.push((vec![a.clone(), b.clone()], 4));
            }
        }
    }
    for a in &programs(1) {
        for b in &programs(1) {
            for c in &two {
                jobs.push((vec![a.clone(), b.clone(), c.clone()], if thorough { 4 } else { 2 }));
            }
        }
    }
    let mut schedules = 0u64;
    let mut steps = 0u64;
    let mut states: HashSet<Vec<(usize, Op, bool)>> = HashSet::new();
    let mut violations: Vec<(String, String)> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let njobs = jobs.len() as u64;
    'all: for (_, (progs, bound)) in jobs.iter().enumerate().filter(|(i, _)| i % shards == shard) {
        for avail in [true, false] {
            let evs: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
            let body = |i: usize| {
                for &op in &progs[i] {
                    let start = sched::now();
                    sched::mark(match op { Op::Use => "use", Op::Force => "force", Op::Unforce => "unforce" });
                    let out = match op {
                        Op::Use => detection::inside_proc_macro(),
                        Op::Force => {
                            detection::force_fallback();
                            true
                        }
                        Op::Unforce => {
                            detection::unforce_fallback();
                            true
                        }
                    };
                    let end = sched::now();
                    sched::mark("returned");
                    evs.lock().unwrap().push(Ev { th: i, op, out, start, end });
                }
            };
            schedules += sched::explore(progs.len(), avail, *bound, body, |run| {
                let e = std::mem::take(&mut *evs.lock().unwrap());
                steps += run.steps as u64;
                states.insert(e.iter().map(|e| (e.th, e.op, e.out)).collect());
                let what = match &run.failed {
                    Some(f) => Some(f.clone()),
                    None if !linearizable(&e, avail) => Some(format!("outcomes {:?} are not explained by any order of the operations", e.iter().map(|e| (e.th, e.op, e.out)).collect::<Vec<_>>())),
                    None => None,
                };
                if samples.len() < 6 && schedules % 97 == 5 {
                    samples.push(format!("{progs:?} available={avail}: {:?}", run.trace));
                }
                if let Some(w) = what {
                    violations.push((format!("{progs:?} available={avail} schedule {:?}", run.trace), format!("threads {progs:?}, compiler available: {avail}, schedule {:?}: {w}", run.trace)));
                    return violations.len() < 5;
                }
                true
            });
            if violations.len() >= 5 {
                break 'all;
            }
        }
    }
    let js = |s: &str| format!("{:?}", s).replace("\\'", "'");
    let arr = |v: Vec<String>| v.join(",");
    println!(
        "MC-RESULT {{\"states\":{},\"transitions\":{},\"validated\":{},\"open\":0,\"spaces\":[[{},{}],[{},{}]],\"samples\":[{}],\"notes\":[],\"violations\":[{}],\"seconds\":{:.3}}}",
        states.len(), steps, schedules,
        js("thread programs over use, force and unforce (two threads up to 2+2 and 1+3 operations, three threads), compiler available or not"), njobs * 2,
        js("schedules: every interleaving of the atomic and once operations for two threads, preemption-bounded for three, in this shard"), schedules,
        arr(samples.iter().map(|s| js(s)).collect()),
        arr(violations.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect()),
        t.elapsed().as_secs_f64()
    );
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
