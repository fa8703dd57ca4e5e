//! Per-worker monitoring context: counters, verdicts, the operation log of the current case.
use crate::gen::Setup;
use crate::rng::Rng;
use goban::rules::Move;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Debug, Clone)]
pub enum Stop {
    /// the monitored property is broken
    Violation(String),
    /// the workload could not go on for a reason that is not this property's subject
    Blocked(String),
}
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    /// through try_play
    Try(Move),
    /// through play (only moves the rules allow)
    Raw(Move),
    Resume,
    Komi(f32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    /// true while the workload (not an oracle) is calling the library
    pub static DRIVING: Cell<bool> = const { Cell::new(false) };
    pub static OP: Cell<&'static str> = const { Cell::new("") };
    pub static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub ncases: u64,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeSet<String>,
    pub setup: Option<Setup>,
    pub acts: Vec<Act>,
    pub notes: Vec<String>,
    /// one digest per case for properties that compare builds
    pub digest: Option<u64>,
}

/// Runs a library call whose panic the message should name.
pub fn oracle<T>(op: &'static str, f: impl FnOnce() -> T) -> T {
    OP.with(|o| o.set(op));
    let t = f();
    OP.with(|o| o.set("oracle"));
    t
}

/// What the stuck-call watchdog sees of a worker.
pub struct Slot {
    /// thread id of the worker, 0 before it starts
    pub tid: std::sync::atomic::AtomicI32,
    /// running case + 1, 0 when idle
    pub case: std::sync::atomic::AtomicU64,
    pub driving: std::sync::atomic::AtomicBool,
}
thread_local! {
    pub static SLOT: Cell<Option<&'static Slot>> = const { Cell::new(None) };
}
pub fn set_driving(b: bool) {
    DRIVING.with(|d| d.set(b));
    SLOT.with(|s| {
        if let Some(s) = s.get() {
            s.driving.store(b, std::sync::atomic::Ordering::Relaxed);
        }
    });
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, ncases: u64) -> Ctx {
        Ctx {
            prop,
            tier,
            seed,
            case: 0,
            ncases,
            rng: Rng::new(0),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: vec![],
            known: BTreeSet::new(),
            setup: None,
            acts: vec![],
            notes: vec![],
            digest: None,
        }
    }
    pub fn start_case(&mut self, case: u64) {
        self.case = case;
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in self.prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.rng = Rng::new(crate::rng::mix(self.seed.wrapping_mul(0x9e37) ^ h) ^ crate::rng::mix(case.wrapping_mul(0x1234_5678_9abc_def1)));
        self.setup = None;
        self.acts.clear();
        self.notes.clear();
        self.digest = None;
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.maxima.entry(k.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    /// One oracle evaluation on a state identified by `key`; `nontrivial` states are counted once.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Keeps a game as a sample of what was monitored.
    pub fn sample_game(&mut self, t: &crate::drive::Track, acts: usize) {
        if self.samples.len() >= 3 {
            return;
        }
        let head: Vec<String> = self.acts.iter().take(12).map(|a| format!("{a:?}")).collect();
        let s = format!(
            "case {}: {} -> {} events ({}{}) -> {}",
            self.case,
            self.setup.as_ref().map_or(String::new(), |s| s.show()),
            acts,
            head.join(" "),
            if acts > 12 { " ..." } else { "" },
            t.pos.line()
        );
        self.samples.push(s);
    }
    /// Runs a library call that belongs to the workload.
    pub fn drv<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> T {
        set_driving(true);
        OP.with(|o| o.set(op));
        let t = f();
        set_driving(false);
        OP.with(|o| o.set("oracle"));
        t
    }
    pub fn note(&mut self, s: String) {
        if self.notes.len() < 4000 {
            self.notes.push(s);
        }
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        if let Some(x) = &self.setup {
            s += &format!("setup: {}\n", x.show());
        }
        for a in &self.acts {
            s += &format!("  {a:?}\n");
        }
        for n in &self.notes {
            s += &format!("  {n}\n");
        }
        s
    }
}

/// Violation unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err($crate::ctx::Stop::Violation(format!($($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! violated {
    ($($arg:tt)*) => {
        return Err($crate::ctx::Stop::Violation(format!($($arg)*)))
    };
}
