//! Execution of single runs, shrinking, replay files
use crate::ctx::{Check, Ctx, Inner, SimAbort, Violation};
use crate::props;
use crate::rng::mix;
use crate::tape::Source;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::OnceLock;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> =
        const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(panic payload)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Result of one run
pub enum Verdict {
    Held,
    Violated(Violation),
    /// Error of the harness
    Broken(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub inner: Inner,
    pub tape: Vec<u64>,
}

/// Turn a panic payload into a verdict
pub fn panic_verdict(payload: Box<dyn std::any::Any + Send>) -> Verdict {
    if let Some(a) = payload.downcast_ref::<SimAbort>() {
        return Verdict::Violated(Violation {
            class: "runaway".into(),
            msg: a.0.clone(),
        });
    }
    let (msg, loc) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default();
    if loc.starts_with("harness/") {
        return Verdict::Broken(format!("{msg} at {loc}"));
    }
    Verdict::Violated(Violation {
        class: "panic".into(),
        msg: format!("{msg} at {loc}"),
    })
}

/// Known findings of a property: class and description
pub fn known(id: &str) -> Vec<(String, String)> {
    static TEXT: OnceLock<String> = OnceLock::new();
    let text = TEXT.get_or_init(|| {
        let root = std::env::var("GSIM_ROOT").unwrap_or("/verif".into());
        std::fs::read_to_string(format!("{root}/known-findings.txt"))
            .unwrap_or_default()
    });
    let head = format!("known: property={id} class=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&head)?.split_once(' '))
        .map(|(c, d)| (c.to_string(), d.to_string()))
        .collect()
}

pub fn run(prop: &props::Prop, mut src: Source, trace: bool) -> Outcome {
    let ctx = Ctx::new(trace);
    let res = catch_unwind(AssertUnwindSafe(|| -> Check {
        (prop.run)(&mut src, &ctx)
    }));
    let verdict = match res {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(v)) if v.class == "harness" => Verdict::Broken(v.msg),
        Ok(Err(v)) if known(prop.id).iter().any(|k| k.0 == v.class) => {
            ctx.count("known_finding");
            Verdict::Held
        }
        Ok(Err(v)) => Verdict::Violated(v),
        Err(p) => panic_verdict(p),
    };
    log::set_max_level(log::LevelFilter::Off);
    Outcome {
        verdict,
        inner: ctx.take(),
        tape: src.tape,
    }
}

pub fn run_seed(prop: &props::Prop, seed: u64, idx: u64) -> u64 {
    mix(&[seed, prop.num, idx])
}

/// Shrink a tape, keeping the class of the violation
pub fn shrink(
    tape: &[u64],
    mut attempts: usize,
    mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = tape.to_vec();
    let mut try_ = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if attempts == 0 || cand == *best {
            return false;
        }
        attempts -= 1;
        if let Some(used) = test(&cand) {
            // keep what was really drawn, without zeros at the end
            let mut t = if used.len() < cand.len() { used } else { cand };
            while t.last() == Some(&0) {
                t.pop();
            }
            if t.len() < best.len() || (t.len() == best.len() && t < *best) {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // truncate
        let mut n = best.len() / 2;
        while n > 0 {
            if best.len() > n {
                let c = best[..best.len() - n].to_vec();
                if try_(c, &mut best) {
                    continue;
                }
            }
            n /= 2;
        }
        // delete chunks
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_(c, &mut best) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).clamp(1, 32);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].fill(0);
                    try_(c, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            let mut hi = best[i];
            // binary search for a small value
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if try_(c, &mut best) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

pub struct ReplayFile {
    pub prop: String,
    pub kind: String,
    pub class: String,
    pub message: String,
    pub seed: u64,
    pub run: u64,
    pub stripe: (u64, u64),
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
}

impl ReplayFile {
    pub fn write(&self, path: &str) -> std::io::Result<()> {
        let mut s = String::new();
        s.push_str("giftsim-replay 1\n");
        s.push_str(&format!("property {}\n", self.prop));
        s.push_str(&format!("kind {}\n", self.kind));
        s.push_str(&format!("class {}\n", self.class));
        s.push_str(&format!("message {}\n", self.message.replace('\n', " / ")));
        s.push_str(&format!("seed {}\n", self.seed));
        s.push_str(&format!("run {}\n", self.run));
        s.push_str(&format!("stripe {} {}\n", self.stripe.0, self.stripe.1));
        let t: Vec<String> = self.tape.iter().map(|v| v.to_string()).collect();
        s.push_str(&format!("tape {}\n", t.join(" ")));
        for l in &self.trace {
            s.push_str(&format!("# {}\n", l.replace('\n', " / ")));
        }
        std::fs::write(path, s)
    }

    pub fn read(path: &str) -> std::io::Result<Self> {
        let s = std::fs::read_to_string(path)?;
        let mut r = ReplayFile {
            prop: String::new(),
            kind: "tape".into(),
            class: String::new(),
            message: String::new(),
            seed: 0,
            run: 0,
            stripe: (0, 1),
            tape: vec![],
            trace: vec![],
        };
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.to_string(),
                "kind" => r.kind = v.to_string(),
                "class" => r.class = v.to_string(),
                "message" => r.message = v.to_string(),
                "seed" => r.seed = v.parse().unwrap_or(0),
                "run" => r.run = v.parse().unwrap_or(0),
                "stripe" => {
                    let mut i = v.split(' ').map(|n| n.parse().unwrap_or(0));
                    r.stripe =
                        (i.next().unwrap_or(0), i.next().unwrap_or(1).max(1));
                }
                "tape" => {
                    r.tape = v
                        .split_whitespace()
                        .filter_map(|n| n.parse().ok())
                        .collect()
                }
                "#" => r.trace.push(v.to_string()),
                _ => (),
            }
        }
        Ok(r)
    }
}
