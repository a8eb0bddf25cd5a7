//! C24 inside a macro: uses after failing calls and while unwinding.

use crate::acts::{failures, reference, Fail, World, ACTS};
use crate::ctx::hash;
use crate::out::{guard, Out};
use proc_macro2::fallback;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

fn forced<R>(on: bool, f: impl FnOnce() -> R) -> R {
    if on {
        fallback::force();
    }
    let r = f();
    fallback::unforce();
    r
}

fn check(w: &mut World, a: usize, want: &str) -> Result<(), String> {
    match guard(|| ACTS[a].2(w)) {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{:?} gives {g:?} instead of {want:?}", ACTS[a].0)),
        Err(p) => Err(format!("{:?} panics: {p}", ACTS[a].0)),
    }
}

struct Late<'a>(World, usize, &'a str, &'a mut Result<(), String>);
impl Drop for Late<'_> {
    fn drop(&mut self) {
        *self.3 = check(&mut self.0, self.1, self.2);
    }
}

pub fn run(o: &mut Out) {
    let f: Vec<Fail> = failures().into_iter().filter(|f| !f.1).collect();
    let m = f.len() as u64;
    // what each use shows before anything has failed
    let want: Vec<Vec<String>> = [false, true].iter().map(|&on| (0..ACTS.len()).map(|a| forced(on, || reference(&[a], true)[0].clone())).collect()).collect();
    let n = (m + 1) * m * 3 * 2;
    o.each(format!("every one and two of {m} failing calls, before, around and after making the objects, then each of {} uses, with either implementation", ACTS.len()), n, |o, i| {
        let (on, order, i) = (i % 2 == 1, i / 2 % 3, i / 6);
        let x = (i / m > 0).then(|| f[(i / m) as usize - 1]);
        let y = f[(i % m) as usize];
        let case = format!("after {:?} and {:?} ({}, forced {on})", x.map(|x| x.0), y.0, ["before the objects are made", "around making them", "with the objects there"][order as usize]);
        o.case = case.clone();
        o.validated += 1;
        for a in 0..ACTS.len() {
            o.transitions += 3;
            let r = forced(on, || {
                let mut w;
                if order == 0 {
                    x.inspect(|x| x.2());
                    y.2();
                    w = World::new(true);
                } else if order == 1 {
                    x.inspect(|x| x.2());
                    w = World::new(true);
                    y.2();
                } else {
                    w = World::new(true);
                    x.inspect(|x| x.2());
                    y.2();
                }
                check(&mut w, a, &want[on as usize][a])
            });
            if let Err(e) = r {
                o.violation(&case, format!("inside a macro, {case}: {:.600}", e));
                return;
            }
        }
        o.state(hash(&case));
    });
    let k = ACTS.len() as u64;
    o.each(format!("each of {k} uses in a destructor while unwinding, once and nested, with either implementation, after nothing or one of {m} failing calls"), k * 4 * (m + 1), |o, i| {
        let (on, twice, i) = (i % 2 == 1, i / 2 % 2 == 1, i / 4);
        let (a, fail) = ((i % k) as usize, (i / k > 0).then(|| f[(i / k) as usize - 1]));
        let case = format!("{:?} in a destructor while unwinding (nested {twice}, forced {on}) after {:?}", ACTS[a].0, fail.map(|f| f.0));
        o.case = case.clone();
        o.validated += 1;
        o.transitions += 2;
        let mut r = Err("the destructor did not run".to_string());
        forced(on, || {
            let go = |r: &mut Result<(), String>| {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _late = Late(World::new(true), a, &want[on as usize][a], r);
                    fail.inspect(|f| f.2());
                    resume_unwind(Box::new(()));
                }));
            };
            if twice {
                struct Outer<F: FnMut()>(F);
                impl<F: FnMut()> Drop for Outer<F> {
                    fn drop(&mut self) {
                        (self.0)();
                    }
                }
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _outer = Outer(|| go(&mut r));
                    resume_unwind(Box::new(()));
                }));
            } else {
                go(&mut r);
            }
        });
        match r {
            Ok(()) => o.state(hash(&case)),
            Err(e) => o.violation(&case, format!("inside a macro, {case}: {:.600}", e)),
        }
    });
}
