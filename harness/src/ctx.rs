//! What a case gets from the runner and what it reports to it.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use crate::rng::{mix, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

#[derive(Debug, Clone)]
pub struct Violation { pub msg: String, pub detail: String }

pub type R = Result<(), Violation>;

pub fn vio<T>(msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { msg: msg.into(), detail: String::new() })
}

#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return $crate::ctx::vio(format!($($a)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return $crate::ctx::vio(format!($($a)*)) } } }

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub idx: u64,
    pub rng: Rng,
    pub scratch: PathBuf,
    /// findings of this property listed in known_findings.txt
    pub known: HashSet<String>,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<String>>,
    pub fps: HashSet<u64>,
    pub samples: Vec<String>,
    pub found: BTreeMap<String, (u64, String)>,
    pub notes: Vec<String>,
    pub beat: *const AtomicU64,
    dirs: u64,
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, tier: Tier, scratch: &Path) -> Ctx {
        Ctx {
            prop, seed, tier, idx: 0, rng: Rng::new(0), scratch: scratch.to_path_buf(),
            known: HashSet::new(), evals: 0, counts: BTreeMap::new(), maxes: BTreeMap::new(),
            sets: BTreeMap::new(), fps: HashSet::new(),
            samples: Vec::new(), found: BTreeMap::new(), notes: Vec::new(),
            beat: std::ptr::null(), dirs: 0,
        }
    }
    pub fn start(&mut self, idx: u64) {
        self.idx = idx;
        crate::shim::ENV.store(crate::rng::mix(idx ^ 0xe17), SeqCst);
        let p = crate::rng::hash_bytes(self.prop.as_bytes());
        self.rng = Rng::new(mix(self.seed) ^ mix(p).rotate_left(7) ^ mix(idx.wrapping_mul(0x1234567)));
        self.dirs = 0;
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 { return; }
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        if n > *e { *e = n; }
    }
    /// remember a distinct value (bounded)
    pub fn seen(&mut self, k: &str, v: &str) {
        let s = self.sets.entry(k.to_string()).or_default();
        if s.len() < 200 { s.insert(v.to_string()); }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
        self.tick();
    }
    /// tell the watchdog that the case makes progress
    pub fn tick(&self) {
        if !self.beat.is_null() { unsafe { (*self.beat).fetch_add(1, SeqCst); } }
    }
    pub fn nontrivial(&mut self, fp: u64) { if self.fps.len() < 2_000_000 { self.fps.insert(fp); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 { let mut n = 600; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push_str("..."); }
            self.samples.push(format!("case {}: {}", self.idx, s));
        }
    }
    /// A deviation predicted by a known finding: recorded if listed, else a violation
    pub fn known(&mut self, id: &str, what: impl Into<String>) -> R {
        let what = what.into();
        if self.known.contains(id) {
            let e = self.found.entry(id.to_string()).or_insert((0, what));
            e.0 += 1;
            Ok(())
        } else { vio(format!("{} (signature of {}, which is not listed)", what, id)) }
    }
    /// A fresh empty directory for this case
    pub fn dir(&mut self) -> PathBuf {
        self.dirs += 1;
        let p = self.scratch.join(format!("c{}-{}", self.idx, self.dirs));
        std::fs::create_dir(&p).expect("harness: mkdir");
        p
    }
    pub fn clean(&mut self) {
        for i in 1..=self.dirs {
            let p = self.scratch.join(format!("c{}-{}", self.idx, i));
            if p.exists() { crate::gen::remove_tree(&p); }
        }
        self.dirs = 0;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    /// number of cases for quick and thorough
    pub quick: u64,
    pub thorough: u64,
    /// wall seconds after which no new case starts
    pub quick_s: u64,
    pub thorough_s: u64,
    pub run: fn(&mut Ctx) -> R,
    pub assumptions: &'static [&'static str],
    /// counters that must not be zero, else the run observed nothing
    pub need: &'static [&'static str],
}
