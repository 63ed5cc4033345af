//! One case: its generator, its scratch directory, its statistics, its violations.
use crate::rng::Rng;
use crate::{alloc, flight, sys};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
    pub rng: Rng,
    /// a fresh, empty directory of this case
    pub dir: PathBuf,
    pub st: Stats,
    /// alloc budget of one operation
    pub mem: usize,
    /// system-call budget of one operation
    pub events: u64,
    pub verbose: bool,
}

pub const MEM: usize = 1 << 30;
pub const EVENTS: u64 = 400_000;

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        self.st.add(k, n);
    }
    /// one case generated / execution run; distinct by `key`
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.st.add("evaluations", 1);
        if nontrivial {
            self.st.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let mut s = f();
            while s.len() > 600 {
                s.pop();
            }
            self.st.samples.push(s);
        }
    }
    pub fn violate(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        if self.st.violations.len() < 8 {
            let v = Violation { sig: sig.into(), msg: msg.into() };
            if self.verbose {
                eprintln!("violation [{}] {}", v.sig, v.msg);
            }
            self.st.violations.push(v);
        }
    }
    /// the harness itself could not do what it meant to (inconclusive, not a violation)
    pub fn trouble(&mut self, msg: impl Into<String>) {
        self.st.harness.push(msg.into());
    }
    pub fn failed(&self) -> bool {
        !self.st.violations.is_empty()
    }

    /// Runs one operation of the library: recorded for the supervisor, with budgets for memory and
    /// system calls; a panic is a violation.
    pub fn op<R>(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        let d = desc();
        match guarded(&d, self.mem, self.events, f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.violate(format!("panic: {}", first_line(&p)), format!("{d}: panicked: {p}"));
                None
            }
        }
    }

    pub fn fresh(&self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        if p.exists() {
            std::fs::remove_dir_all(&p).unwrap();
        }
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}

pub fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(160).collect()
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        // no budget while we report
        alloc::clear_limit();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if verbose {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

/// The last panic of this thread.
pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

pub fn guarded<R>(desc: &str, mem: usize, events: u64, f: impl FnOnce() -> R) -> Result<R, String> {
    flight::enter(desc);
    let old = sys::set_event_budget(events);
    let r = catch_unwind(AssertUnwindSafe(|| alloc::with_limit(mem, f).0));
    sys::set_event_budget(old);
    flight::leave();
    r.map_err(|_| PANIC_AT.with(|p| p.borrow().clone()))
}
