//! The single source of every decision in a simulated run.
//!
//! In search mode decisions come from a PRNG and are recorded on a tape; in
//! replay mode they come from a tape (clamped to the asked range, zero when the
//! tape is used up).  A run is a pure function of the tape and the code, so a
//! tape is the replay file, and shrinking a tape shrinks the workload, the
//! schedule and the faults together.  Zero is always the simplest choice.
use crate::rng::Rng;
use std::io::Write;

pub struct Source {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
    /// File which gets every draw at once (for runs which may not return)
    out: Option<std::fs::File>,
}

impl Source {
    pub fn search(seed: u64) -> Self {
        Source {
            rng: Some(Rng::new(seed)),
            replay: vec![],
            pos: 0,
            tape: vec![],
            out: None,
        }
    }

    pub fn replay(tape: &[u64]) -> Self {
        Source {
            rng: None,
            replay: tape.to_vec(),
            pos: 0,
            tape: vec![],
            out: None,
        }
    }

    pub fn tee(&mut self, file: &str) {
        self.out = std::fs::File::create(file).ok();
    }

    /// Draw a value in `0..n`
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        if let Some(f) = &mut self.out {
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.tape.push(v);
        v
    }

    /// Draw a value in `lo..=hi`
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    /// True with probability `num / den`
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // false must be the zero choice
        self.draw(den) >= den - num
    }

    /// Pick an index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, n) in w.iter().enumerate() {
            if v < *n {
                return i;
            }
            v -= n;
        }
        w.len() - 1
    }

    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.draw(v.len() as u64) as usize].clone()
    }

    /// A sub-seed for bulk data (pixels, per-call chunk sizes)
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32)
    }

    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
}
