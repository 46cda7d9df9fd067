//! Simulated reader and writer
use crate::ctx::{Ctx, SimAbort};
use crate::rng::Rng;
use crate::tape::Source;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::panic::panic_any;
use std::rc::Rc;

/// Payload of injected errors, to check identity
#[derive(Debug)]
pub struct Token(pub u64);

impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected #{}", self.0)
    }
}

impl std::error::Error for Token {}

/// Error to inject
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inject {
    Kind(ErrorKind, u64),
    Os(i32),
    /// A bare kind without payload
    Simple(ErrorKind),
    /// `Ok(0)` from a writer
    Zero,
}

impl Inject {
    pub fn make(&self) -> Error {
        match self {
            Inject::Kind(k, t) => Error::new(*k, Token(*t)),
            Inject::Os(n) => Error::from_raw_os_error(*n),
            Inject::Simple(k) => Error::from(*k),
            Inject::Zero => Error::from(ErrorKind::WriteZero),
        }
    }
    /// Does an error look like this injected one?
    pub fn is(&self, e: &Error) -> bool {
        match self {
            Inject::Kind(k, t) => {
                e.kind() == *k
                    && e.get_ref()
                        .and_then(|p| p.downcast_ref::<Token>())
                        .is_some_and(|p| p.0 == *t)
            }
            Inject::Os(n) => e.raw_os_error() == Some(*n),
            Inject::Simple(k) => e.kind() == *k,
            Inject::Zero => e.kind() == ErrorKind::WriteZero,
        }
    }
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::NotConnected,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::ConnectionRefused,
    ErrorKind::StorageFull,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::NotSeekable,
    ErrorKind::ResourceBusy,
    ErrorKind::IsADirectory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkDown,
];

/// An interruption, in one of the forms it can have
fn interrupted(n: usize) -> Error {
    match n % 3 {
        0 => Error::from(ErrorKind::Interrupted),
        1 => Error::from_raw_os_error(4),
        _ => Error::new(ErrorKind::Interrupted, Token(n as u64)),
    }
}

pub fn gen_inject(src: &mut Source) -> Inject {
    match src.weighted(&[6, 2, 2]) {
        0 => Inject::Kind(src.pick(KINDS), src.draw(1 << 20)),
        1 if src.chance(1, 3) => {
            let n = src.draw(133) as i32 + 1;
            Inject::Os(if n == 4 { 5 } else { n })
        }
        1 => Inject::Os(src.pick(&[5, 28, 32, 104, 110, 11, 13])),
        _ => Inject::Simple(src.pick(KINDS)),
    }
}

/// How many bytes each call moves
#[derive(Clone, Debug)]
pub enum Chunks {
    Full,
    Fixed(usize),
    /// Random size up to the bound
    Random(u64, usize),
    /// Cut at these offsets
    Splits(Vec<usize>),
}

impl Chunks {
    pub fn gen_(src: &mut Source, len: usize) -> Self {
        match src.weighted(&[3, 3, 3, 4, 4]) {
            0 => Chunks::Full,
            1 => Chunks::Fixed(1),
            2 => Chunks::Fixed(match src.weighted(&[4, 1]) {
                0 => src.usize(2, 17),
                _ => src.pick(&[64, 128, 254, 255, 256, 257, 512, 767, 768]),
            }),
            3 => {
                let bound = src.pick(&[2, 3, 5, 16, 100, 300]);
                Chunks::Random(src.seed(), bound)
            }
            _ => {
                let n = src.usize(1, 4);
                let mut v: Vec<usize> =
                    (0..n).map(|_| src.usize(0, len)).collect();
                v.sort_unstable();
                Chunks::Splits(v)
            }
        }
    }

    fn limit(&self, rng: &mut Rng, pos: usize, want: usize) -> usize {
        let n = match self {
            Chunks::Full => want,
            Chunks::Fixed(n) => *n,
            Chunks::Random(_, b) => 1 + rng.below(*b as u64) as usize,
            Chunks::Splits(v) => match v.iter().find(|s| **s > pos) {
                Some(s) => s - pos,
                None => want,
            },
        };
        n.clamp(1, want.max(1))
    }

    fn seed(&self) -> u64 {
        match self {
            Chunks::Random(s, _) => *s,
            _ => 0,
        }
    }
}

/// Interrupted results
#[derive(Clone, Debug, Default)]
pub struct Interrupts {
    /// (offset, how many times)
    pub at: Vec<(usize, u32)>,
    /// Random: sub-seed and probability of 256
    pub random: Option<(u64, u64)>,
}

impl Interrupts {
    pub fn gen_(src: &mut Source, len: usize) -> Self {
        let mut i = Interrupts::default();
        match src.weighted(&[4, 4, 2]) {
            0 => (),
            1 => {
                for _ in 0..src.usize(1, 3) {
                    let at = src.usize(0, len);
                    let n = match src.weighted(&[20_000, 500, 500, 3]) {
                        0 => src.usize(1, 3) as u32,
                        1 => src.pick(&[5, 9, 17, 33]),
                        2 => src.pick(&[101, 129, 300, 1025]),
                        _ => src.pick(&[66_000, 300_000]),
                    };
                    i.at.push((at, n));
                }
                i.at.sort_unstable();
            }
            _ => i.random = Some((src.seed(), src.pick(&[16, 64, 160]))),
        }
        i
    }
}

#[derive(Clone, Debug)]
pub struct ReadPlan {
    pub chunks: Chunks,
    pub intr: Interrupts,
    /// Write junk into the unused part of the buffer
    pub scribble: bool,
    /// Hard error when this offset is reached: (offset, error, sticky)
    pub fail: Option<(usize, Inject, bool)>,
    /// Abort the run if a byte at or after this offset is asked for
    pub stall: Option<usize>,
}

impl ReadPlan {
    pub fn ideal() -> Self {
        ReadPlan {
            chunks: Chunks::Full,
            intr: Interrupts::default(),
            scribble: false,
            fail: None,
            stall: None,
        }
    }

    /// Plan with benign faults only
    pub fn gen_(src: &mut Source, len: usize) -> Self {
        ReadPlan {
            chunks: Chunks::gen_(src, len),
            intr: Interrupts::gen_(src, len),
            scribble: src.chance(1, 4),
            fail: None,
            stall: None,
        }
    }
}

/// State of a reader which can be looked at from outside
#[derive(Default, Debug)]
pub struct RState {
    pub pos: usize,
    pub calls: u64,
    /// Calls which were interrupted
    pub interrupted: u64,
    pub failed: bool,
    /// Calls which returned end of input
    pub eofs: u64,
    /// Largest offset asked for (exclusive)
    pub asked: usize,
}

pub struct SimReader {
    data: Rc<Vec<u8>>,
    plan: ReadPlan,
    chunk_rng: Rng,
    intr_rng: Rng,
    intr_i: usize,
    intr_n: u32,
    burst: u32,
    budget: u64,
    ctx: Ctx,
    pub st: Rc<RefCell<RState>>,
}

impl SimReader {
    pub fn new(ctx: &Ctx, data: Rc<Vec<u8>>, plan: ReadPlan) -> Self {
        let budget = 8 * data.len() as u64 + 20_000;
        SimReader {
            chunk_rng: Rng::new(plan.chunks.seed()),
            intr_rng: Rng::new(plan.intr.random.map(|r| r.0).unwrap_or(0)),
            intr_i: 0,
            intr_n: 0,
            burst: 0,
            budget,
            data,
            plan,
            ctx: ctx.clone(),
            st: Rc::new(RefCell::new(RState::default())),
        }
    }

    pub fn state(&self) -> Rc<RefCell<RState>> {
        self.st.clone()
    }

    fn interrupt(&mut self, pos: usize) -> bool {
        let at = &self.plan.intr.at;
        while self.intr_i < at.len() {
            let (off, n) = at[self.intr_i];
            if off < pos || (off == pos && self.intr_n >= n) {
                self.intr_i += 1;
                self.intr_n = 0;
            } else {
                break;
            }
        }
        if let Some((off, _)) = at.get(self.intr_i)
            && *off == pos
        {
            self.intr_n += 1;
            return true;
        }
        if let Some((_, p)) = self.plan.intr.random
            && self.burst < 3
            && self.intr_rng.below(256) < p
        {
            self.burst += 1;
            return true;
        }
        self.burst = 0;
        false
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        if st.calls - st.interrupted > self.budget {
            let msg = format!(
                "reader called {} times for {} bytes",
                st.calls,
                self.data.len()
            );
            drop(st);
            panic_any(SimAbort(msg));
        }
        let pos = st.pos;
        if buf.is_empty() {
            return Ok(0);
        }
        st.asked = st.asked.max(pos + buf.len());
        if let Some(s) = self.plan.stall
            && pos >= s
        {
            drop(st);
            panic_any(SimAbort(format!(
                "asked for a byte at {pos} before it has arrived"
            )));
        }
        drop(st);
        if self.interrupt(pos) {
            self.st.borrow_mut().interrupted += 1;
            self.ctx.count("read_interrupted");
            self.ctx.event("intr", pos as u64, 0);
            self.ctx.nontrivial();
            return Err(interrupted(pos));
        }
        if let Some((off, inj, sticky)) = self.plan.fail
            && pos == off
        {
            self.ctx.count("read_error");
            self.ctx.event("rerr", pos as u64, sticky as u64);
            self.ctx.nontrivial();
            if !sticky {
                self.plan.fail = None;
            }
            self.st.borrow_mut().failed = true;
            return Err(inj.make());
        }
        let mut end = self.data.len();
        if let Some((off, _, _)) = self.plan.fail
            && off > pos
        {
            end = end.min(off);
        }
        if let Some(s) = self.plan.stall {
            end = end.min(s);
        }
        // do not run past a planned interrupt
        if let Some((off, _)) = self.plan.intr.at.get(self.intr_i)
            && *off > pos
        {
            end = end.min(*off);
        }
        let avail = end.saturating_sub(pos);
        if avail == 0 {
            self.ctx.count("read_eof");
            self.ctx.event("eof", pos as u64, 0);
            self.st.borrow_mut().eofs += 1;
            return Ok(0);
        }
        let want = buf.len().min(avail);
        let n = self.plan.chunks.limit(&mut self.chunk_rng, pos, want);
        if n < buf.len() {
            self.ctx.count("read_short");
            self.ctx.nontrivial();
        }
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        if self.plan.scribble && n < buf.len() {
            for (i, b) in buf[n..].iter_mut().enumerate() {
                *b = 0xA5 ^ (i as u8);
            }
            self.ctx.count("read_scribble");
        }
        self.ctx.event("read", pos as u64, n as u64);
        self.st.borrow_mut().pos = pos + n;
        Ok(n)
    }
}

#[derive(Clone, Debug)]
pub struct WritePlan {
    pub chunks: Chunks,
    pub intr: Interrupts,
    /// Hard error when this offset is reached: (offset, error, sticky)
    pub fail: Option<(usize, Inject, bool)>,
}

impl WritePlan {
    pub fn ideal() -> Self {
        WritePlan {
            chunks: Chunks::Full,
            intr: Interrupts::default(),
            fail: None,
        }
    }

    pub fn gen_(src: &mut Source, len: usize) -> Self {
        WritePlan {
            chunks: Chunks::gen_(src, len),
            intr: Interrupts::gen_(src, len),
            fail: None,
        }
    }
}

#[derive(Default, Debug)]
pub struct WState {
    pub sink: Vec<u8>,
    pub calls: u64,
    pub failed: u64,
    pub flushes: u64,
    /// Bytes in the sink at the last flush
    pub flushed: usize,
    /// Flushing fails from now on
    pub flush_fails: bool,
}

pub struct SimWriter {
    plan: WritePlan,
    chunk_rng: Rng,
    intr_rng: Rng,
    intr_i: usize,
    intr_n: u32,
    burst: u32,
    ctx: Ctx,
    pub st: Rc<RefCell<WState>>,
}

impl SimWriter {
    pub fn new(ctx: &Ctx, plan: WritePlan) -> Self {
        SimWriter {
            chunk_rng: Rng::new(plan.chunks.seed()),
            intr_rng: Rng::new(plan.intr.random.map(|r| r.0).unwrap_or(0)),
            intr_i: 0,
            intr_n: 0,
            burst: 0,
            plan,
            ctx: ctx.clone(),
            st: Rc::new(RefCell::new(WState::default())),
        }
    }

    pub fn state(&self) -> Rc<RefCell<WState>> {
        self.st.clone()
    }

    fn interrupt(&mut self, pos: usize) -> bool {
        let at = &self.plan.intr.at;
        while self.intr_i < at.len() {
            let (off, n) = at[self.intr_i];
            if off < pos || (off == pos && self.intr_n >= n) {
                self.intr_i += 1;
                self.intr_n = 0;
            } else {
                break;
            }
        }
        if let Some((off, _)) = at.get(self.intr_i)
            && *off == pos
        {
            self.intr_n += 1;
            return true;
        }
        if let Some((_, p)) = self.plan.intr.random
            && self.burst < 3
            && self.intr_rng.below(256) < p
        {
            self.burst += 1;
            return true;
        }
        self.burst = 0;
        false
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let pos = {
            let mut st = self.st.borrow_mut();
            st.calls += 1;
            if st.calls > 4_000_000 + 20 * st.sink.len() as u64 {
                drop(st);
                panic_any(SimAbort("writer called without end".into()));
            }
            st.sink.len()
        };
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt(pos) {
            self.ctx.count("write_interrupted");
            self.ctx.event("wintr", pos as u64, 0);
            self.ctx.nontrivial();
            return Err(interrupted(pos));
        }
        let mut end = usize::MAX;
        if let Some((off, inj, sticky)) = self.plan.fail {
            if pos == off {
                self.ctx.event("werr", pos as u64, sticky as u64);
                self.ctx.nontrivial();
                self.st.borrow_mut().failed += 1;
                if !sticky {
                    self.plan.fail = None;
                }
                return match inj {
                    Inject::Zero => {
                        self.ctx.count("write_zero");
                        Ok(0)
                    }
                    _ => {
                        self.ctx.count("write_error");
                        Err(inj.make())
                    }
                };
            }
            if off > pos {
                end = off;
            }
        }
        if let Some((off, _)) = self.plan.intr.at.get(self.intr_i)
            && *off > pos
        {
            end = end.min(*off);
        }
        let want = buf.len().min(end - pos);
        let n = self.plan.chunks.limit(&mut self.chunk_rng, pos, want);
        if n < buf.len() {
            self.ctx.count("write_short");
            self.ctx.nontrivial();
        }
        self.ctx.event("write", pos as u64, n as u64);
        self.st.borrow_mut().sink.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        let mut st = self.st.borrow_mut();
        st.flushes += 1;
        if st.flush_fails {
            self.ctx.count("flush_error");
            return Err(std::io::Error::other("cannot flush"));
        }
        st.flushed = st.sink.len();
        Ok(())
    }
}
