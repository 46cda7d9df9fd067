//! Per-run context: event log, digest, fault counters.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A property violation seen in one run
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Check = Result<(), Violation>;

pub fn violation<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation {
        class: class.to_string(),
        msg,
    })
}

/// Payload for a panic raised by the simulator to stop a runaway run
pub struct SimAbort(pub String);

#[derive(Default)]
pub struct Inner {
    /// Keep a readable trace (replay only)
    pub trace: bool,
    pub lines: Vec<String>,
    /// Digest of all events
    pub digest: u64,
    /// Number of simulated events
    pub events: u64,
    /// Fault kinds fired and conditions reached
    pub counts: BTreeMap<&'static str, u64>,
    /// Evaluations of the oracle
    pub checks: u64,
    /// Was the run non-trivial?
    pub nontrivial: bool,
    /// One line description of the workload
    pub sample: String,
}

/// Shared handle on the run context.  Cloned into readers and writers.
#[derive(Clone, Default)]
pub struct Ctx(Rc<RefCell<Inner>>);

impl Ctx {
    pub fn new(trace: bool) -> Self {
        let c = Ctx::default();
        c.0.borrow_mut().trace = trace;
        c.0.borrow_mut().digest = 0xcbf2_9ce4_8422_2325;
        c
    }

    /// Log an event: three numbers which describe it, and a tag
    pub fn event(&self, tag: &'static str, a: u64, b: u64) {
        let mut c = self.0.borrow_mut();
        c.events += 1;
        let mut h = c.digest;
        for v in [tag.as_ptr_free_hash(), a, b] {
            h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
            h ^= h >> 29;
        }
        c.digest = h;
        if c.trace && c.lines.len() < 4000 {
            c.lines.push(format!("{tag} {a} {b}"));
        }
    }

    /// Free text for the replay trace, and into the digest
    pub fn note(&self, f: impl FnOnce() -> String) {
        let mut c = self.0.borrow_mut();
        if c.trace && c.lines.len() < 4000 {
            let s = f();
            c.lines.push(s);
        }
    }

    pub fn count(&self, k: &'static str) {
        *self.0.borrow_mut().counts.entry(k).or_insert(0) += 1;
    }

    pub fn add(&self, k: &'static str, n: u64) {
        *self.0.borrow_mut().counts.entry(k).or_insert(0) += n;
    }

    pub fn checked(&self) {
        self.0.borrow_mut().checks += 1;
    }

    pub fn nontrivial(&self) {
        self.0.borrow_mut().nontrivial = true;
    }

    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut c = self.0.borrow_mut();
        if c.sample.is_empty() {
            c.sample = f();
        }
    }

    pub fn take(&self) -> Inner {
        std::mem::take(&mut self.0.borrow_mut())
    }
}

trait TagHash {
    fn as_ptr_free_hash(&self) -> u64;
}

impl TagHash for &'static str {
    fn as_ptr_free_hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in self.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        h
    }
}
