//! C24: failed calls leave no trace; values work while unwinding and at thread exit.

use crate::acts::{failures, reference, Fail, World, ACTS, LOCATED};
use crate::ctx::{guard, hash, Ctx, Local};
use crate::lexing::keep_state;
use crate::streams::live;
use proc_macro2::TokenStream;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Unwinding,
    UnwindingTwice,
    /// a thread-local made before the library's first use on the thread
    ExitFirst,
    /// and one made after it
    ExitLast,
    /// on a thread that has not parsed
    ExitFresh,
}
const WHERE: [Where; 5] = [Where::Unwinding, Where::UnwindingTwice, Where::ExitFirst, Where::ExitLast, Where::ExitFresh];

impl Where {
    fn unwinding(self) -> bool {
        matches!(self, Where::Unwinding | Where::UnwindingTwice)
    }
    fn parses(self) -> bool {
        self.unwinding() || !LOCATED
    }
}

struct Job {
    fail: Option<fn()>,
    acts: Vec<usize>,
    want: Arc<Vec<String>>,
    out: Arc<Mutex<Vec<String>>>,
    /// what the objects hold of the heap, if to be accounted for
    cost: Option<(i64, i64)>,
}

/// Does its job when dropped.
struct Late {
    world: Option<World>,
    job: Option<Job>,
}
impl Drop for Late {
    fn drop(&mut self) {
        let Some(mut w) = self.world.take() else { return };
        let Some(job) = self.job.take() else { return };
        let start = live();
        if let Some(f) = job.fail {
            f();
        }
        for (k, &a) in job.acts.iter().enumerate() {
            match guard(|| ACTS[a].2(&mut w)) {
                Ok(got) if got == job.want[k] => {}
                Ok(got) => job.out.lock().unwrap().push(format!("{:?} gives {got:?} instead of {:?}", ACTS[a].0, job.want[k])),
                Err(p) => job.out.lock().unwrap().push(format!("{:?} panics: {p}", ACTS[a].0)),
            }
        }
        if let Err(p) = guard(|| drop(w)) {
            job.out.lock().unwrap().push(format!("dropping panics: {p}"));
        }
        let end = live();
        if let Some(cost) = job.cost {
            if (start.0 - cost.0, start.1 - cost.1) != end && job.out.lock().unwrap().is_empty() {
                job.out.lock().unwrap().push(format!("allocations do not balance: {start:?} - {cost:?} -> {end:?}"));
            }
        }
    }
}

thread_local! {
    static KEPT: RefCell<Option<Late>> = const { RefCell::new(None) };
}

fn run(place: Where, acts: &[usize], fail: Option<fn()>, want: &Arc<Vec<String>>) -> Vec<String> {
    let out = Arc::new(Mutex::new(Vec::new()));
    let parse = place != Where::ExitFresh;
    let (o, acts, want) = (out.clone(), acts.to_vec(), want.clone());
    let body = move || {
        // the table of sources would count where spans are located, and a caught panic keeps its text
        let account = !LOCATED && fail.is_none() && !acts.iter().any(|&a| ACTS[a].0.starts_with("a bad"));
        let make = || {
            let before = live();
            let world = World::new(parse);
            let after = live();
            let cost = account.then(|| (after.0 - before.0, after.1 - before.1));
            Late { world: Some(world), job: Some(Job { fail, acts: acts.clone(), want: want.clone(), out: o.clone(), cost }) }
        };
        match place {
            Where::Unwinding => {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _late = make();
                    resume_unwind(Box::new(()));
                }));
            }
            Where::UnwindingTwice => {
                struct Outer<F: FnMut()>(F);
                impl<F: FnMut()> Drop for Outer<F> {
                    fn drop(&mut self) {
                        (self.0)();
                    }
                }
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _outer = Outer(|| {
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            let _late = make();
                            resume_unwind(Box::new(()));
                        }));
                    });
                    resume_unwind(Box::new(()));
                }));
            }
            _ => {
                if place == Where::ExitLast {
                    let _ = "x y".parse::<TokenStream>();
                }
                KEPT.with(|k| *k.borrow_mut() = None);
                let late = make();
                KEPT.with(|k| *k.borrow_mut() = Some(late));
            }
        }
    };
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap();
    if h.join().is_err() {
        out.lock().unwrap().push("the thread panicked".into());
    }
    let v = out.lock().unwrap().clone();
    v
}

fn contexts(ctx: &Ctx, len: u32) {
    let k = ACTS.len() as u64;
    let n = k.pow(len) * WHERE.len() as u64;
    ctx.space(format!("every sequence of {len} out of {k} uses in a destructor: while unwinding, twice nested, and in thread-local destructors in three orders"), n);
    ctx.par(n, 64, |i, l| {
        let place = WHERE[(i % WHERE.len() as u64) as usize];
        let mut j = i / WHERE.len() as u64;
        let mut acts = Vec::new();
        for _ in 0..len {
            acts.push((j % k) as usize);
            j /= k;
        }
        if !place.parses() && acts.iter().any(|&a| ACTS[a].1) {
            return;
        }
        let want = Arc::new(reference(&acts, place != Where::ExitFresh));
        let bad = run(place, &acts, None, &want);
        l.transitions += len as u64;
        l.validated += 1;
        report(ctx, format!("{place:?} {:?}", names(&acts)), &bad);
        keep_state(l, hash((place as u8, &acts)));
    });
}

fn names(acts: &[usize]) -> Vec<&'static str> {
    acts.iter().map(|&a| ACTS[a].0).collect()
}

fn report(ctx: &Ctx, case: String, bad: &[String]) {
    if let Some(b) = bad.first() {
        ctx.violation(case.clone(), format!("{case}: {}", b.chars().take(500).collect::<String>()));
    }
}

/// Every failure inside a destructor, then every use there.
fn failing_contexts(ctx: &Ctx) {
    let f = failures();
    let (k, m) = (ACTS.len() as u64, f.len() as u64);
    let n = k * m * WHERE.len() as u64;
    ctx.space(format!("each of {m} failing calls, then each of {k} uses, in the same destructors"), n);
    ctx.par(n, 64, |i, l| {
        let place = WHERE[(i % WHERE.len() as u64) as usize];
        let i = i / WHERE.len() as u64;
        let (a, (name, before, fail)) = ((i / m) as usize, f[(i % m) as usize]);
        let parses = ACTS[a].1 || name.starts_with("parse") || name.starts_with("literal") || name.starts_with("subspan");
        if before || (parses && !place.parses()) {
            return;
        }
        let want = Arc::new(reference(&[a], place != Where::ExitFresh));
        let bad = run(place, &[a], Some(fail), &want);
        l.transitions += 2;
        l.validated += 1;
        report(ctx, format!("{place:?} {name}, then {}", ACTS[a].0), &bad);
        keep_state(l, hash((place as u8, name, a)));
    });
}

/// Every one and two failures before, after or around making the objects, then every use.
fn after_failures(ctx: &Ctx) {
    let f = failures();
    let m = f.len() as u64;
    let n = (m + 1) * m * 3;
    ctx.space(format!("every one and two of {m} failing calls, before, around and after making the objects, then each of {} uses", ACTS.len()), n * ACTS.len() as u64);
    let all: Vec<usize> = (0..ACTS.len()).collect();
    // what they show on a thread of their own
    let want: Vec<Vec<String>> = all.iter().map(|&a| std::thread::spawn(move || reference(&[a], true)).join().expect("a use panicked")).collect();
    let one = |order: u64, x: Option<Fail>, y: Fail, l: &mut Local| -> Result<(), String> {
        for &a in &all {
            if order > 0 && y.1 || order > 1 && x.is_some_and(|x| x.1) {
                return Ok(());
            }
            l.transitions += 3;
            let want = &want[a];
            let mut w;
            if order == 0 {
                x.inspect(|x| x.2());
                y.2();
                w = World::new(true);
            } else if order == 1 {
                x.inspect(|x| x.2());
                w = World::new(true);
                y.2();
            } else {
                w = World::new(true);
                x.inspect(|x| x.2());
                y.2();
            }
            match guard(|| ACTS[a].2(&mut w)) {
                Ok(g) if g == want[0] => {}
                Ok(g) => return Err(format!("{:?} gives {g:?} instead of {:?}", ACTS[a].0, want[0])),
                Err(p) => return Err(format!("{:?} panics: {p}", ACTS[a].0)),
            }
        }
        Ok(())
    };
    ctx.par(n, 1, |i, l| {
        let order = i % 3;
        let (x, y) = ((i / 3) / m, (i / 3) % m);
        let x = (x > 0).then(|| f[x as usize - 1]);
        let y = f[y as usize];
        let case = format!("after {:?} and {:?} ({})", x.map(|x| x.0), y.0, ["before the objects are made", "around making them", "with the objects there"][order as usize]);
        crate::ctx::CURRENT.with(|c| *c.borrow_mut() = case.clone());
        l.validated += 1;
        if let Err(e) = one(order, x, y, l) {
            report(ctx, case.clone(), &[e]);
        }
        keep_state(l, hash(&case));
    });
}

pub fn c24(ctx: &Ctx) {
    after_failures(ctx);
    contexts(ctx, 1);
    contexts(ctx, 2);
    failing_contexts(ctx);
    if ctx.thorough {
        contexts(ctx, 3);
    }
}
