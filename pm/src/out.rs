use crate::ctx::js;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

/// Result of one shard.
pub struct Out {
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub transitions: u64,
    pub validated: u64,
    pub open: u64,
    states: HashSet<u64>,
    spaces: Vec<(String, u64)>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    pub case: String,
    path: String,
    t: Instant,
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

impl Out {
    pub fn new() -> Out {
        let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
        Out {
            thorough: std::env::var("PM_TIER").as_deref() == Ok("thorough"),
            shard: num("PM_SHARD", 0),
            shards: num("PM_SHARDS", 1),
            transitions: 0,
            validated: 0,
            open: 0,
            states: HashSet::new(),
            spaces: Vec::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            case: String::new(),
            path: std::env::var("PM_OUT").expect("PM_OUT"),
            t: Instant::now(),
        }
    }
    /// Runs f on this shard's part of 0..n.
    pub fn each(&mut self, name: String, n: u64, mut f: impl FnMut(&mut Out, u64)) {
        self.spaces.push((name, n));
        let mut i = self.shard;
        while i < n && self.violations.len() < 20 {
            f(self, i);
            i += self.shards;
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 200_000 {
            self.states.insert(h);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, case: &str, what: impl Into<String>) {
        self.violations.push((case.to_string(), what.into()));
    }
    pub fn write(&self) {
        let arr = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let pairs = |v: &[(String, String)]| v.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(",");
        let spaces = self.spaces.iter().map(|(a, b)| format!("[{},{}]", js(a), b)).collect::<Vec<_>>().join(",");
        let s = format!(
            "{{\"states\":{},\"transitions\":{},\"validated\":{},\"open\":{},\"spaces\":[{}],\"samples\":[{}],\"notes\":[],\"violations\":[{}],\"seconds\":{:.3}}}\n",
            self.states.len(), self.transitions, self.validated, self.open, spaces, arr(&self.samples), pairs(&self.violations), self.t.elapsed().as_secs_f64());
        let mut f = std::fs::File::create(&self.path).expect("result file");
        f.write_all(s.as_bytes()).expect("result file");
        // the runner forms the union over all shards
        let b: Vec<u8> = self.states.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(format!("{}.states", self.path), b).expect("state file");
    }
}
