//! The explorer: enumerates the cases of one property in a fixed order,
//! shards them over worker processes, and keeps the statistics.

use crate::sut::{Outcome, Snap, Sut};
use serde_json::Value;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Current {
    pub idx: u64,
    pub started: Option<Instant>,
    pub configs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub key: String,
    pub msg: String,
    pub configs: Vec<String>,
}

pub struct Ctx {
    pub thorough: bool,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    next_idx: u64,
    pub sut: Sut,
    pub cur: Arc<Mutex<Current>>,
    pub known: Vec<String>,
    pub known_hit: HashSet<String>,
    pub viol: Option<Violation>,
    failed: bool,
    // statistics, all measured
    pub cases: u64,
    pub executions: u64,
    pub steps: u64,
    pub finished: u64,
    pub aborted: u64,
    pub rejected: u64,
    pub endless: u64,
    pub comparisons: u64,
    /// Cases whose outcome the specification leaves open.
    pub skipped: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub truncated: bool,
    deadline: Instant,
}

impl Ctx {
    pub fn new(
        thorough: bool,
        shard: u64,
        nshards: u64,
        only: Option<u64>,
        known: Vec<String>,
        deadline_s: u64,
    ) -> Self {
        Ctx {
            thorough,
            shard,
            nshards,
            only,
            next_idx: 0,
            sut: Sut::new(),
            cur: Arc::new(Mutex::new(Current::default())),
            known,
            known_hit: HashSet::new(),
            viol: None,
            failed: false,
            cases: 0,
            executions: 0,
            steps: 0,
            finished: 0,
            aborted: 0,
            rejected: 0,
            endless: 0,
            comparisons: 0,
            skipped: 0,
            states: HashSet::new(),
            samples: vec![],
            truncated: false,
            deadline: Instant::now() + std::time::Duration::from_secs(deadline_s),
        }
    }

    /// Starts the next case; true if this worker is to execute it.
    pub fn next(&mut self) -> bool {
        let idx = self.next_idx;
        self.next_idx += 1;
        if self.viol.is_some() {
            return false;
        }
        if let Some(o) = self.only {
            if o != idx {
                return false;
            }
        } else if idx % self.nshards != self.shard {
            return false;
        }
        if Instant::now() > self.deadline {
            self.truncated = true;
            return false;
        }
        self.cases += 1;
        self.failed = false;
        let mut c = self.cur.lock().unwrap();
        c.idx = idx;
        c.started = Some(Instant::now());
        c.configs.clear();
        true
    }

    /// No more work for this worker (a violation was found).
    pub fn stopped(&self) -> bool {
        self.viol.is_some() || self.truncated
    }

    pub fn run(&mut self, cfg: &Value) -> Outcome {
        self.run_text(serde_json::to_string(cfg).unwrap().as_bytes())
    }

    pub fn run_text(&mut self, text: &[u8]) -> Outcome {
        {
            let mut c = self.cur.lock().unwrap();
            c.started = Some(Instant::now());
            c.configs.push(String::from_utf8_lossy(text).into_owned());
        }
        let o = self.sut.run_text(text);
        self.executions += 1;
        // every printed block is one explored state of the execution
        let mut phase = 0u64;
        for block in self.sut.last_output.split("\n\n\n") {
            use std::hash::{Hash, Hasher};
            let _ = phase;
            phase += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            block.hash(&mut h);
            if self.states.len() < 4_000_000 {
                self.states.insert(h.finish());
            }
        }
        self.steps += self.sut.last_output.matches("Prop mass:").count() as u64;
        match &o {
            Outcome::Done(s) => {
                self.finished += 1;
                if self.states.len() < 4_000_000 {
                    self.states.insert(s.hash());
                }
            }
            Outcome::Aborted(_) => self.aborted += 1,
            Outcome::Rejected(_) => self.rejected += 1,
            Outcome::Endless => self.endless += 1,
        }
        if self.samples.len() < 2 && self.cases <= 1 {
            let mut t = String::from_utf8_lossy(text).into_owned();
            if t.len() > 1500 {
                t = format!("{}… ({} bytes)", t.chars().take(1500).collect::<String>(), t.len());
            }
            let mut b = o.brief();
            if b.len() > 900 {
                b = b.chars().take(900).collect();
            }
            self.samples.push(format!("{t} => {b}"));
        }
        o
    }

    /// Runs a configuration which has to finish.
    pub fn done(&mut self, cfg: &Value) -> Option<Box<Snap>> {
        match self.run(cfg) {
            Outcome::Done(s) => Some(s),
            o => {
                self.fail("run", format!("the run was expected to finish, but: {}", o.brief()));
                None
            }
        }
    }

    pub fn fail(&mut self, key: &str, msg: String) {
        if self.failed || self.viol.is_some() {
            return;
        }
        self.failed = true;
        let c = self.cur.lock().unwrap().clone();
        if self.known.iter().any(|k| k == key) {
            self.known_hit.insert(key.to_string());
            return;
        }
        self.viol = Some(Violation { idx: c.idx, key: key.into(), msg, configs: c.configs });
    }

    /// Compares one number; NaN never equals anything, infinities must match.
    pub fn eq(&mut self, what: &str, got: f64, want: f64, rel: f64, abs: f64) -> bool {
        self.comparisons += 1;
        if close(got, want, rel, abs) {
            return true;
        }
        self.fail(what, format!("{what}: got {got:e}, expected {want:e} (difference {:e})", got - want));
        false
    }

    /// Compares vectors, tolerance relative to the larger norm.
    pub fn eqv(&mut self, what: &str, got: [f64; 3], want: [f64; 3], rel: f64, abs: f64) -> bool {
        self.comparisons += 1;
        let n = crate::sut::norm(got).max(crate::sut::norm(want));
        let ok = if n.is_finite() {
            (0..3).all(|i| (got[i] - want[i]).abs() <= abs + rel * n)
        } else {
            (0..3).all(|i| close(got[i], want[i], rel, abs))
        };
        if !ok {
            self.fail(what, format!("{what}: got {got:?}, expected {want:?}"));
        }
        ok
    }

    pub fn check(&mut self, what: &str, cond: bool, msg: impl FnOnce() -> String) -> bool {
        self.comparisons += 1;
        if !cond {
            let m = msg();
            self.fail(what, format!("{what}: {m}"));
        }
        cond
    }

    pub fn total_cases(&self) -> u64 {
        self.next_idx
    }
}

pub fn close(got: f64, want: f64, rel: f64, abs: f64) -> bool {
    got == want || (got - want).abs() <= abs + rel * want.abs().max(got.abs()) && got.is_finite() && want.is_finite()
}
