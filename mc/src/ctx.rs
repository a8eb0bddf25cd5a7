//! Run context: counters, evidence, violations, parallel exhaustive enumeration.

use std::collections::HashSet;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub start: Instant,
    pub states: Mutex<HashSet<u64>>,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    pub open: AtomicU64,
    pub spaces: Mutex<Vec<(String, u64)>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<(String, String)>>,
    pub stop: AtomicBool,
    pub notes: Mutex<Vec<String>>,
}

/// Per-worker counters, merged at the end of a work item.
#[derive(Default)]
pub struct Local {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub validated: u64,
    pub open: u64,
}

pub fn hash(x: impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

thread_local! {
    pub static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs f, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.try_with(|p| p.borrow().clone()).unwrap_or_default())
}

impl Ctx {
    pub fn new(property: &str, thorough: bool) -> Ctx {
        Ctx {
            property: property.to_owned(),
            thorough,
            start: Instant::now(),
            states: Mutex::default(),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            open: AtomicU64::new(0),
            spaces: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            stop: AtomicBool::new(false),
            notes: Mutex::default(),
        }
    }
    pub fn merge(&self, l: Local) {
        self.states.lock().unwrap().extend(l.states);
        self.transitions.fetch_add(l.transitions, SeqCst);
        self.validated.fetch_add(l.validated, SeqCst);
        self.open.fetch_add(l.open, SeqCst);
    }
    pub fn space(&self, name: impl Into<String>, n: u64) {
        self.spaces.lock().unwrap().push((name.into(), n));
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(s.into());
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    pub fn violation(&self, case: impl Into<String>, what: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        v.push((case.into(), what.into()));
        if v.len() >= 16 {
            self.stop.store(true, SeqCst);
        }
    }

    /// Runs `f(item, &mut Local)` for every item in 0..n on all cores, each chunk of items on a
    /// fresh thread (so that per-thread state of the library starts afresh). A panic escaping f is
    /// a violation naming the case stored in CURRENT.
    pub fn par(&self, n: u64, chunk: u64, f: impl Fn(u64, &mut Local) + Sync) {
        let next = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map_or(8, |n| n.get());
        // watchdog: (start of current item in ms, label) per worker
        let beats: Vec<AtomicU64> = (0..workers).map(|_| AtomicU64::new(0)).collect();
        let labels: Vec<Mutex<String>> = (0..workers).map(|_| Mutex::default()).collect();
        let live = AtomicUsize::new(workers);
        std::thread::scope(|s| {
            for w in 0..workers {
                let (next, f, beats, labels, live) = (&next, &f, &beats, &labels, &live);
                s.spawn(move || {
                    loop {
                        let lo = next.fetch_add(chunk, SeqCst);
                        if lo >= n || self.stopped() {
                            break;
                        }
                        let hi = (lo + chunk).min(n);
                        std::thread::scope(|s2| {
                            let h = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s2, move || {
                                let mut l = Local::default();
                                for item in lo..hi {
                                    if item % 64 == 0 || hi - lo < 64 {
                                        beats[w].store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
                                        *labels[w].lock().unwrap() = format!("work items {}..", item);
                                    }
                                    CURRENT.with(|c| c.borrow_mut().clear());
                                    if let Err(e) = guard(|| f(item, &mut l)) {
                                        let cur = CURRENT.with(|c| c.borrow().clone());
                                        self.violation(cur, format!("unexpected panic: {}", e));
                                    }
                                    if self.stopped() {
                                        break;
                                    }
                                }
                                self.merge(l);
                            });
                            h.unwrap().join().unwrap();
                        });
                    }
                    beats[w].store(0, SeqCst);
                    live.fetch_sub(1, SeqCst);
                });
            }
            let (beats, labels, live) = (&beats, &labels, &live);
            s.spawn(move || {
                while live.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(5));
                    let now = self.start.elapsed().as_millis() as u64;
                    for w in 0..workers {
                        let b = beats[w].load(SeqCst);
                        if b != 0 && now > b + 300_000 {
                            // a real hang: report and end the process, the thread cannot be stopped
                            let what = labels[w].lock().unwrap().clone();
                            self.violation(what, "no progress for 300 s (hang)");
                            self.finish();
                        }
                    }
                }
            });
        });
    }

    /// Runs f once on a fresh thread; a panic escaping it is a violation.
    pub fn solo(&self, label: &str, f: impl FnOnce(&mut Local) + Send) {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || {
                    let mut l = Local::default();
                    if let Err(e) = guard(|| f(&mut l)) {
                        let cur = CURRENT.with(|c| c.borrow().clone());
                        self.violation(format!("{label} {cur}"), format!("{label} {cur}: unexpected panic: {e}"));
                    }
                    self.merge(l);
                })
                .unwrap();
        });
    }

    pub fn finish(&self) -> ! {
        let viol = self.violations.lock().unwrap().clone();
        let mut out = String::from("{");
        out += &format!("\"states\":{},", self.states.lock().unwrap().len());
        out += &format!("\"transitions\":{},", self.transitions.load(SeqCst));
        out += &format!("\"validated\":{},", self.validated.load(SeqCst));
        out += &format!("\"open\":{},", self.open.load(SeqCst));
        out += "\"spaces\":[";
        out += &self.spaces.lock().unwrap().iter().map(|(n, c)| format!("[{},{}]", js(n), c)).collect::<Vec<_>>().join(",");
        out += "],\"samples\":[";
        out += &self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        out += "],\"notes\":[";
        out += &self.notes.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        out += "],\"violations\":[";
        out += &viol.iter().map(|(c, w)| format!("[{},{}]", js(c), js(w))).collect::<Vec<_>>().join(",");
        out += &format!("],\"seconds\":{:.3}}}", self.start.elapsed().as_secs_f64());
        let mut so = std::io::stdout();
        let _ = writeln!(so, "MC-RESULT {}", out);
        let _ = so.flush();
        std::process::exit(if viol.is_empty() { 0 } else { 1 });
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
