//! Several decoders and encoders in one process
use super::encode::{Enc, GStep, Op, gen_steps, gstep};
use super::*;
use crate::ctx::{SimAbort, Violation};
use crate::rng::Rng;
use crate::run::{Verdict, panic_verdict};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Write};
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};
use std::sync::mpsc::{Receiver, RecvTimeoutError, Sender, channel};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Work of one session; the same value gives the same session anywhere
#[derive(Clone)]
struct Spec {
    work: Work,
    /// Calls are split by this
    chunk: u64,
    /// Fail at this byte
    fail: Option<usize>,
    /// Dropped after so many items
    stop: Option<usize>,
    /// Calls between scheduling points
    every: u64,
    /// What the model says, if it applies
    want: Option<Vec<Rec>>,
}

#[derive(Clone)]
enum Work {
    Decode(Arc<Vec<u8>>, Mode, Limit),
    Steps(Arc<Vec<GStep>>, Option<u16>),
    Frames(Arc<(MPreamble, Vec<MFrame>)>),
    Blocks(Arc<Vec<MBlock>>),
}

/// One observation
#[derive(Clone, Debug, PartialEq)]
enum Rec {
    Item(Item),
    Call(Result<(), String>),
    Output(Vec<u8>),
}

/// What happens at a call of the reader or writer
enum Gate {
    Open,
    /// Wait for the scheduler
    Park(usize, Sender<Msg>, Receiver<()>),
    /// Advance other sessions inside of the call
    Nest(Rc<RefCell<Nest>>),
}

enum Msg {
    Parked(usize),
    Done(usize, Result<Vec<Rec>, Verdict>),
}

struct Nest {
    rng: Rng,
    depth: u32,
    odds: u64,
    live: Vec<Option<Live>>,
    recs: Vec<Vec<Rec>>,
    events: Vec<(u64, u64)>,
}

struct Io {
    gate: Gate,
    rng: Rng,
    chunk: u64,
    fail: Option<usize>,
    pos: usize,
    calls: u64,
    every: u64,
}

impl Io {
    /// Size of this call, or a fault
    fn call(&mut self, len: usize) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 2_000_000 {
            panic_any(SimAbort("too many calls".into()));
        }
        if self.calls % self.every == 0 {
            match &self.gate {
                Gate::Open => (),
                Gate::Park(id, tx, rx) => {
                    if tx.send(Msg::Parked(*id)).is_err() || rx.recv().is_err() {
                        panic_any(SimAbort("scheduler is gone".into()));
                    }
                }
                Gate::Nest(n) => nested(n),
            }
        }
        if self.rng.below(12) == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = len;
        if self.chunk > 0 {
            n = n.min(1 + self.rng.below(self.chunk) as usize);
        }
        if let Some(f) = self.fail {
            if self.pos >= f {
                return Err(Error::from_raw_os_error(5));
            }
            n = n.min(f - self.pos);
        }
        Ok(n)
    }
}

struct TReader {
    io: Io,
    data: Arc<Vec<u8>>,
}

impl Read for TReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.io.call(b.len())?;
        let n = n.min(self.data.len() - self.io.pos);
        b[..n].copy_from_slice(&self.data[self.io.pos..self.io.pos + n]);
        self.io.pos += n;
        Ok(n)
    }
}

struct TWriter {
    io: Io,
    sink: Arc<Mutex<Vec<u8>>>,
}

impl Write for TWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.io.call(b.len())?;
        self.sink.lock().unwrap().extend_from_slice(&b[..n]);
        self.io.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A running session
struct Live {
    body: Option<Body>,
    stop: usize,
    n: usize,
    sink: Option<Arc<Mutex<Vec<u8>>>>,
}

enum Body {
    Dec(Session<TReader>),
    Enc(Enc<TWriter>, Vec<Op>),
}

impl Live {
    fn new(spec: &Spec, gate: Gate) -> Self {
        let io = Io {
            gate,
            rng: Rng::new(spec.chunk),
            chunk: spec.chunk % 40,
            fail: spec.fail,
            pos: 0,
            calls: 0,
            every: spec.every,
        };
        // looping may go on for ever
        let max = match spec.work {
            Work::Decode(_, Mode::Looping, _) => 60,
            _ => usize::MAX,
        };
        let stop = spec.stop.unwrap_or(max);
        let writer = |io| {
            let sink = Arc::new(Mutex::new(vec![]));
            (
                TWriter {
                    io,
                    sink: sink.clone(),
                },
                Some(sink),
            )
        };
        let (body, sink) = match &spec.work {
            Work::Decode(data, mode, limit) => {
                let r = TReader {
                    io,
                    data: data.clone(),
                };
                (Body::Dec(Session::new(r, *mode, *limit)), None)
            }
            Work::Steps(steps, lp) => {
                let (w, s) = writer(io);
                let mut src = Source::search(spec.chunk);
                let ops =
                    steps.iter().map(|s| Op::Step(gstep(&mut src, s))).collect();
                (Body::Enc(Enc::new(0, w, *lp), ops), s)
            }
            Work::Frames(f) => {
                let (w, s) = writer(io);
                let mut ops = vec![Op::Preamble(gpreamble(&f.0))];
                ops.extend(f.1.iter().map(|f| Op::Frame(gframe(f))));
                ops.push(Op::Trailer);
                (Body::Enc(Enc::new(1, w, None), ops), s)
            }
            Work::Blocks(b) => {
                let (w, s) = writer(io);
                let ops = b.iter().map(|b| Op::Block(gblock(b))).collect();
                (Body::Enc(Enc::new(2, w, None), ops), s)
            }
        };
        Live {
            body: Some(body),
            stop,
            n: 0,
            sink,
        }
    }

    /// Advance by one item or call
    fn step(&mut self) -> Option<Rec> {
        if self.n < self.stop {
            let r = match self.body.as_mut() {
                Some(Body::Dec(s)) => s.next().map(Rec::Item),
                Some(Body::Enc(e, ops)) if self.n < ops.len() => {
                    let r = e.op(&ops[self.n]).map_err(|e| err_text(&e));
                    if r.is_err() {
                        self.stop = 0;
                    }
                    Some(Rec::Call(r))
                }
                _ => None,
            };
            if r.is_some() {
                self.n += 1;
                return r;
            }
        }
        // end or abandon
        if self.body.take().is_some()
            && let Some(s) = &self.sink
        {
            let v = s.lock().unwrap().clone();
            return Some(Rec::Output(v));
        }
        None
    }
}

/// Advance other sessions inside of a call
fn nested(n: &Rc<RefCell<Nest>>) {
    let (j, mut live) = {
        let mut s = n.borrow_mut();
        let odds = s.odds;
        if s.live.is_empty() || s.depth >= 4 || s.rng.below(odds) != 0 {
            return;
        }
        let k = s.live.len() as u64;
        let j = s.rng.below(k) as usize;
        let Some(live) = s.live[j].take() else {
            return;
        };
        s.depth += 1;
        let d = s.depth as u64;
        s.events.push((j as u64, d));
        (j, live)
    };
    let r = live.step();
    let mut s = n.borrow_mut();
    s.depth -= 1;
    if let Some(r) = r {
        s.recs[j].push(r);
        s.live[j] = Some(live);
    }
}

/// Moved over threads as the caller would do
struct ForceSend<T>(T);
unsafe impl<T> Send for ForceSend<T> {}
impl<T> ForceSend<T> {
    fn get(self) -> T {
        self.0
    }
}

struct Probe<T>(PhantomData<T>);
trait IsSend {
    fn is_send(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend for Probe<T> {}
#[allow(dead_code)]
trait IsNotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> IsNotSend for &Probe<T> {}

macro_rules! probe {
    ($t:ty) => {
        if !(&Probe::<$t>(PhantomData)).is_send() {
            return violation(
                "send",
                format!("{} cannot be moved to another thread", stringify!($t)),
            );
        }
    };
}

fn check_send() -> Check {
    type R = std::io::Cursor<Vec<u8>>;
    probe!(gift::Decoder<R>);
    probe!(gift::decode::Blocks<R>);
    probe!(gift::decode::Frames<R>);
    probe!(gift::decode::Steps<R>);
    probe!(gift::Encoder<Vec<u8>>);
    probe!(gift::encode::BlockEnc<Vec<u8>>);
    probe!(gift::encode::FrameEnc<Vec<u8>>);
    probe!(gift::encode::StepEnc<Vec<u8>>);
    probe!(gift::Step);
    probe!(gift::block::Frame);
    probe!(gift::block::Block);
    Ok(())
}

fn solo(spec: &Spec) -> Vec<Rec> {
    let mut l = Live::new(spec, Gate::Open);
    let mut v = vec![];
    while let Some(r) = l.step() {
        v.push(r);
    }
    v
}

fn gen_spec(src: &mut Source, ctx: &Ctx, shared: &mut Vec<MFile>) -> Spec {
    let chunk = src.draw(1 << 20);
    let every = src.pick(&[1, 1, 2, 5, 20]);
    let mut want: Option<Vec<Rec>> = None;
    let mut len = 600;
    let work = match src.weighted(&[6, 3, 2, 2]) {
        1 => {
            let steps = gen_steps(src, 3, 200);
            Work::Steps(Arc::new(steps), src.chance(1, 2).then_some(5))
        }
        k => {
            // often the same file in several sessions
            let f = if !shared.is_empty() && src.chance(1, 3) {
                src.pick(&shared[..])
            } else {
                let mut o = GenOpts::new();
                o.max_px = 200;
                o.scale = 0;
                o.frames = 3;
                o.rich = src.chance(1, 3);
                let f = gen_file(src, &o);
                shared.push(f.clone());
                f
            };
            match k {
                0 => {
                    let ser = f.serialise();
                    let mode = src.pick(MODES);
                    len = ser.bytes.len();
                    if mode != Mode::Looping {
                        want = Some(
                            expected(&f, &ser, mode)
                                .into_iter()
                                .map(|(i, _)| Rec::Item(i))
                                .collect(),
                        );
                    }
                    let limit = if src.chance(1, 6) {
                        want = None;
                        Limit::Set(Some(src.usize(0, 300)))
                    } else {
                        Limit::Default
                    };
                    Work::Decode(Arc::new(ser.bytes), mode, limit)
                }
                2 => Work::Frames(Arc::new((
                    f.preamble().0,
                    f.frames().into_iter().map(|f| f.0).collect(),
                ))),
                _ => Work::Blocks(Arc::new(f.blocks.clone())),
            }
        }
    };
    let fail = if src.chance(1, 6) {
        ctx.count("session_with_io_error");
        want = None;
        Some(src.usize(0, len))
    } else {
        None
    };
    let stop = if src.chance(1, 6) {
        ctx.count("session_abandoned");
        Some(src.usize(0, 4))
    } else {
        None
    };
    if let (Some(s), Some(w)) = (stop, &mut want) {
        w.truncate(s);
    }
    Spec {
        work,
        chunk,
        fail,
        stop,
        every,
        want,
    }
}

/// C18: sessions do not affect each other
pub fn c18(src: &mut Source, ctx: &Ctx) -> Check {
    check_send()?;
    let n = match src.weighted(&[300, 1]) {
        0 => src.usize(1, 7) + 1,
        _ => src.pick(&[12, 20, 40, 70]),
    };
    if n > 8 {
        ctx.count("many_sessions");
    }
    let mut shared = vec![];
    let specs: Vec<Spec> =
        (0..n).map(|_| gen_spec(src, ctx, &mut shared)).collect();
    let alone: Vec<Vec<Rec>> = specs.iter().map(solo).collect();
    for (i, s) in specs.iter().enumerate() {
        let k = match &s.work {
            Work::Decode(d, m, _) => (*m as u64) << 32 | hash_bytes(d) & 0xffff_ffff,
            Work::Steps(s, _) => 100 << 32 | s.len() as u64,
            Work::Frames(f) => 101 << 32 | f.1.len() as u64,
            Work::Blocks(b) => 102 << 32 | b.len() as u64,
        };
        ctx.event("session", i as u64, k);
        ctx.note(|| {
            let w = match &s.work {
                Work::Decode(d, m, l) => {
                    format!("decode {m:?} limit {l:?} {}", dump(d))
                }
                Work::Steps(s, _) => format!("encode steps {s:?}"),
                Work::Frames(f) => format!("encode frames {f:?}"),
                Work::Blocks(b) => format!("encode blocks {b:?}"),
            };
            format!("session {i}: fail {:?} stop {:?} {w}", s.fail, s.stop)
                .chars()
                .take(500)
                .collect()
        });
    }
    ctx.nontrivial();
    let how = src.weighted(&[4, 3, 3, 3]);
    ctx.count(["same_thread", "own_threads", "migrating", "nested"][how]);
    ctx.sample(|| {
        format!(
            "{n} sessions, {}",
            ["same thread", "own threads", "migrating", "nested calls"][how]
        )
    });
    let together = match how {
        0 => same_thread(src, ctx, &specs)?,
        1 => own_threads(src, ctx, &specs)?,
        2 => migrating(src, ctx, &specs)?,
        _ => nesting(src, ctx, &specs),
    };
    for (i, (t, a)) in together.iter().zip(&alone).enumerate() {
        ctx.checked();
        if t != a {
            let k = t.iter().zip(a).take_while(|(t, a)| t == a).count();
            return violation(
                "differs",
                format!(
                    "session {i}: observation {k} is {}, alone it is {}",
                    short_rec(t.get(k)),
                    short_rec(a.get(k))
                ),
            );
        }
        if let Some(w) = &specs[i].want
            && t != w
        {
            let k = t.iter().zip(w).take_while(|(t, a)| t == a).count();
            return violation(
                "content",
                format!(
                    "session {i}: observation {k} is {}, should be {}",
                    short_rec(t.get(k)),
                    short_rec(w.get(k))
                ),
            );
        }
    }
    Ok(())
}

fn short_rec(r: Option<&Rec>) -> String {
    format!("{r:?}").chars().take(200).collect()
}

/// Choose by bursts
struct Picker {
    last: usize,
    sticky: u64,
}

impl Picker {
    fn new(src: &mut Source) -> Self {
        Picker {
            last: 0,
            sticky: src.pick(&[0, 0, 1, 3, 8]),
        }
    }
    fn pick(&mut self, src: &mut Source, ready: &[usize]) -> usize {
        if self.sticky > 0
            && ready.contains(&self.last)
            && !src.chance(1, self.sticky + 1)
        {
            return self.last;
        }
        self.last = ready[src.usize(0, ready.len() - 1)];
        self.last
    }
}

/// All on one thread, one item or call at a time
fn same_thread(
    src: &mut Source,
    ctx: &Ctx,
    specs: &[Spec],
) -> Result<Vec<Vec<Rec>>, Violation> {
    let mut live: Vec<Option<Live>> = specs.iter().map(|_| None).collect();
    let mut recs: Vec<Vec<Rec>> = vec![vec![]; specs.len()];
    let mut ready: Vec<usize> = (0..specs.len()).collect();
    let mut p = Picker::new(src);
    while !ready.is_empty() {
        let i = p.pick(src, &ready);
        let l = live[i].get_or_insert_with(|| Live::new(&specs[i], Gate::Open));
        ctx.event("turn", i as u64, recs[i].len() as u64);
        match l.step() {
            Some(r) => recs[i].push(r),
            None => ready.retain(|r| *r != i),
        }
    }
    Ok(recs)
}

/// Each on its own thread, one running at a time, parked at I/O calls
fn own_threads(
    src: &mut Source,
    ctx: &Ctx,
    specs: &[Spec],
) -> Result<Vec<Vec<Rec>>, Violation> {
    let (tx, rx) = channel();
    let mut grants = vec![];
    let mut handles = vec![];
    for (i, s) in specs.iter().enumerate() {
        let (gtx, grx) = channel();
        grants.push(gtx);
        let tx = tx.clone();
        let s = ForceSend(s.clone());
        handles.push(std::thread::spawn(move || {
            let s = s.get();
            let out = tx.clone();
            let res = catch_unwind(AssertUnwindSafe(|| {
                // wait for the first turn
                let _ = tx.send(Msg::Parked(i));
                if grx.recv().is_err() {
                    panic_any(SimAbort("scheduler is gone".into()));
                }
                let mut l = Live::new(&s, Gate::Park(i, tx, grx));
                let mut v = vec![];
                while let Some(r) = l.step() {
                    v.push(r);
                }
                v
            }));
            let _ = out.send(Msg::Done(i, res.map_err(panic_verdict)));
        }));
    }
    drop(tx);
    let n = specs.len();
    let mut recs: Vec<Option<Vec<Rec>>> = vec![None; n];
    let mut ready = vec![];
    let mut failed: Option<Verdict> = None;
    // all threads reach their first wait
    let mut running = n;
    let mut p = Picker::new(src);
    let mut turns = 0u64;
    loop {
        while running > 0 {
            match rx.recv_timeout(Duration::from_secs(40)) {
                Ok(Msg::Parked(i)) => {
                    ready.push(i);
                    running -= 1;
                }
                Ok(Msg::Done(i, r)) => {
                    running -= 1;
                    match r {
                        Ok(v) => recs[i] = Some(v),
                        Err(e) => {
                            recs[i] = Some(vec![]);
                            if failed.is_none() {
                                failed = Some(e);
                            }
                        }
                    }
                }
                Err(RecvTimeoutError::Timeout) => {
                    return violation(
                        "blocked",
                        "a session waits for another one's reader or writer".into(),
                    );
                }
                Err(RecvTimeoutError::Disconnected) => {
                    return violation("harness", "threads are gone".into());
                }
            }
        }
        if ready.is_empty() {
            break;
        }
        ready.sort();
        let i = p.pick(src, &ready);
        ready.retain(|r| *r != i);
        ctx.event("grant", i as u64, turns);
        turns += 1;
        if grants[i].send(()).is_err() {
            return violation("harness", "thread is gone".into());
        }
        running = 1;
    }
    ctx.add("thread_switches", turns);
    for h in handles {
        let _ = h.join();
    }
    match failed {
        Some(Verdict::Violated(v)) => Err(v),
        Some(Verdict::Broken(m)) => violation("harness", m),
        _ => Ok(recs.into_iter().map(|r| r.unwrap_or_default()).collect()),
    }
}

/// Sessions move between threads between calls
fn migrating(
    src: &mut Source,
    ctx: &Ctx,
    specs: &[Spec],
) -> Result<Vec<Vec<Rec>>, Violation> {
    type Job = ForceSend<(Spec, Option<Live>)>;
    type Back = ForceSend<Result<(Live, Option<Rec>), Verdict>>;
    let k = src.usize(1, 3) + 1;
    let (btx, brx) = channel::<Back>();
    let mut jobs: Vec<Sender<Job>> = vec![];
    let mut handles = vec![];
    for _ in 0..k {
        let (tx, rx) = channel::<Job>();
        jobs.push(tx);
        let btx = btx.clone();
        handles.push(std::thread::spawn(move || {
            while let Ok(j) = rx.recv() {
                let (spec, live) = j.get();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut l =
                        live.unwrap_or_else(|| Live::new(&spec, Gate::Open));
                    let r = l.step();
                    (l, r)
                }));
                if btx.send(ForceSend(r.map_err(panic_verdict))).is_err() {
                    break;
                }
            }
        }));
    }
    let mut live: Vec<Option<Live>> = specs.iter().map(|_| None).collect();
    let mut recs: Vec<Vec<Rec>> = vec![vec![]; specs.len()];
    let mut ready: Vec<usize> = (0..specs.len()).collect();
    let mut p = Picker::new(src);
    let mut failed = None;
    while !ready.is_empty() {
        let i = p.pick(src, &ready);
        let t = src.usize(0, k - 1);
        ctx.event("on_thread", i as u64, t as u64);
        if jobs[t]
            .send(ForceSend((specs[i].clone(), live[i].take())))
            .is_err()
        {
            return violation("harness", "thread is gone".into());
        }
        match brx.recv().map(|b| b.get()) {
            Ok(Ok((l, r))) => match r {
                Some(r) => {
                    recs[i].push(r);
                    live[i] = Some(l);
                }
                None => ready.retain(|r| *r != i),
            },
            Ok(Err(v)) => {
                failed = Some(v);
                break;
            }
            Err(_) => return violation("harness", "thread is gone".into()),
        }
    }
    drop(jobs);
    for h in handles {
        let _ = h.join();
    }
    match failed {
        Some(Verdict::Violated(v)) => Err(v),
        Some(Verdict::Broken(m)) => violation("harness", m),
        _ => Ok(recs),
    }
}

/// Sessions advance inside of the read and write calls of others
fn nesting(src: &mut Source, ctx: &Ctx, specs: &[Spec]) -> Vec<Vec<Rec>> {
    let n = Rc::new(RefCell::new(Nest {
        rng: Rng::new(src.draw(1 << 30)),
        depth: 0,
        odds: src.pick(&[2, 1, 4, 20]),
        live: vec![],
        recs: vec![vec![]; specs.len()],
        events: vec![],
    }));
    // looping decoders read everything when they are made
    for s in specs {
        let l = Live::new(s, Gate::Nest(n.clone()));
        n.borrow_mut().live.push(Some(l));
    }
    for i in 0..specs.len() {
        loop {
            let Some(mut l) = n.borrow_mut().live[i].take() else {
                break;
            };
            match l.step() {
                Some(r) => {
                    let mut n = n.borrow_mut();
                    n.recs[i].push(r);
                    n.live[i] = Some(l);
                }
                None => break,
            }
        }
    }
    let mut n = n.borrow_mut();
    ctx.add("nested_turns", n.events.len() as u64);
    for (a, b) in &n.events {
        ctx.event("nested", *a, *b);
    }
    n.live.clear();
    std::mem::take(&mut n.recs)
}
