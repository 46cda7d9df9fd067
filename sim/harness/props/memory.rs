//! Memory over long histories
use super::encode::{GStep, gen_steps, gstep};
use super::*;
use crate::alloc;
use std::io::{Read, Write};

/// Head, then a body again and again, then the trailer
struct Tape {
    head: Vec<u8>,
    body: Vec<u8>,
    times: usize,
    pos: usize,
    chunk: usize,
}

impl Read for Tape {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let (h, b) = (self.head.len(), self.body.len());
        let total = h + b * self.times;
        let part: &[u8] = if self.pos < h {
            &self.head[self.pos..]
        } else if self.pos < total {
            &self.body[(self.pos - h) % b..]
        } else if self.pos == total {
            b";"
        } else {
            b""
        };
        let n = part.len().min(buf.len()).min(self.chunk);
        buf[..n].copy_from_slice(&part[..n]);
        self.pos += n;
        Ok(n)
    }
}

fn screen_of(f: &MFile) -> usize {
    let (p, _) = f.preamble();
    p.w as usize * p.h as usize
}

/// Animation of more than 65536 frames (a body again and again): the items of
/// all periods after the first are the same
pub fn long_decode(src: &mut Source, ctx: &Ctx, mode: Mode) -> Check {
    let mut o = GenOpts::new();
    o.max_px = 12;
    o.frames = 2;
    o.exts = src.chance(1, 4);
    let mut f = gen_file(src, &o);
    let (_, first) = f.preamble();
    let data = |b: &&MBlock| matches!(b, MBlock::Data(_));
    let n = f.blocks[first..].iter().filter(data).count();
    let last = f.blocks.pop();
    if n == 0 || f.blocks.len() > 40 || last != Some(MBlock::Trailer) {
        return Ok(());
    }
    let body: Vec<MBlock> = f.blocks[first..].to_vec();
    let strats = f.strats.clone();
    for _ in 0..2 {
        f.blocks.extend(body.iter().cloned());
        f.strats.extend(strats.iter().cloned());
    }
    f.blocks.push(MBlock::Trailer);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let want: Vec<Item> =
        expected(&f, &ser, mode).into_iter().map(|i| i.0).collect();
    let (per, end) = match mode {
        Mode::Blocks => (body.len(), 1),
        _ => (n, 0),
    };
    let len = want.len() - end;
    if want[len - per..len] != want[len - 2 * per..len - per] {
        return Ok(());
    }
    let at = ser.ends[first - 1];
    let size = ser.ends[first - 1 + body.len()] - at;
    let times = 65_600 / n + src.usize(0, 20);
    if (size + screen_of(&f) * n) * times > 60_000_000 {
        return Ok(());
    }
    let total = want.len() + (times - 3) * per;
    ctx.count("over_65536_frames");
    ctx.nontrivial();
    let r = Tape {
        head: ser.bytes[..at].to_vec(),
        body: ser.bytes[at..at + size].to_vec(),
        times,
        pos: 0,
        chunk: src.pick(&[1, 7, 4096]),
    };
    let mut s = Session::new(r, mode, Limit::Default);
    for i in 0..=total {
        let w = if i < len {
            want.get(i)
        } else if i < total - end {
            want.get(len - per + (i - len) % per)
        } else {
            want.get(want.len() + i - total)
        };
        let got = s.next();
        if got.as_ref() != w {
            let say = |i: Option<&Item>| i.map_or("(end)".into(), short);
            return violation(
                "content",
                format!(
                    "{mode:?}: item {i} of {total} is {}, should be {}",
                    say(got.as_ref()),
                    say(w)
                ),
            );
        }
    }
    ctx.checked();
    ctx.event("long", total as u64, times as u64);
    Ok(())
}

/// Sink which forgets everything
struct Void;

impl Write for Void {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Watch of the heap
struct Watch {
    base: isize,
    n: usize,
    warm: usize,
    live0: isize,
    slack: isize,
    peak_bound: usize,
}

impl Watch {
    fn item(&mut self, what: &str) -> Check {
        self.n += 1;
        let live = alloc::live();
        if self.n == self.warm {
            self.live0 = live;
        }
        if self.n > self.warm && live > self.live0 + self.slack {
            return violation(
                "growth",
                format!(
                    "{what}: heap grew from {} to {} between item {} and {}",
                    self.live0 - self.base,
                    live - self.base,
                    self.warm,
                    self.n
                ),
            );
        }
        Ok(())
    }
    fn done(&self, ctx: &Ctx, what: &str) -> Check {
        ctx.checked();
        ctx.add("items_in_histories", self.n as u64);
        ctx.event("history", self.n as u64, 0);
        let peak = alloc::peak_since(self.base);
        if peak > self.peak_bound {
            return violation(
                "peak",
                format!("{what}: peak {peak}, bound {}", self.peak_bound),
            );
        }
        Ok(())
    }
}

/// C20
pub fn c20(src: &mut Source, ctx: &Ctx) -> Check {
    ctx.nontrivial();
    if src.chance(1, 2) {
        c20_decode(src, ctx)
    } else {
        c20_encode(src, ctx)
    }
}

fn times(src: &mut Source, px: usize, screen: usize, n: usize) -> usize {
    if screen <= 64 && src.chance(1, 60) {
        src.usize(65_600, 66_000) / n
    } else if px <= 64 {
        src.usize(500, 4000)
    } else {
        src.usize(60, 300)
    }
}

fn c20_decode(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.max_px = src.pick(&[30, 30, 2500]);
    o.frames = 3;
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let (_, first) = f.preamble();
    let screen = screen_of(&f);
    let head = ser.bytes[..ser.ends[first - 1]].to_vec();
    let body = ser.bytes[head.len()..ser.bytes.len() - 1].to_vec();
    let big = f.frames().iter().map(|f| f.0.data.len()).max().unwrap_or(0);
    let n = f.frames().len().max(1);
    let t = times(src, big, body.len().max(screen), n);
    let work = body.len() + (big + screen) * n;
    let t = t.min(12 + 40_000_000 / work.max(1));
    // size of extension data is kept in the blocks, too
    let unit = body.len() + 4 * screen;
    let mode =
        src.pick(&[Mode::Blocks, Mode::Frames, Mode::Steps, Mode::PreFrames]);
    ctx.count(match mode {
        Mode::Blocks => "history_blocks",
        Mode::Steps => "history_steps",
        _ => "history_frames",
    });
    let r = Tape {
        head,
        body,
        times: t,
        pos: 0,
        chunk: src.pick(&[1, 7, 4096]),
    };
    let what = format!("{mode:?} of {t} repeats");
    ctx.sample(|| what.clone());
    let per = f.blocks.len();
    let base = alloc::start();
    let mut s = Session::new(r, mode, Limit::Default);
    let mut w = Watch {
        base,
        n: 0,
        warm: 4 * per,
        live0: 0,
        slack: 8192 + unit as isize,
        // LZW tables and a window of repeated strings, frame and screen copies
        peak_bound: (2 << 20) + 16 * ser.bytes.len() + 40 * screen,
    };
    loop {
        match s.step() {
            None => break,
            Some(Ok(())) => w.item(&what)?,
            Some(Err(e)) => return violation("error", format!("{what}: {e}")),
        }
    }
    w.done(ctx, &what)
}

fn c20_encode(src: &mut Source, ctx: &Ctx) -> Check {
    let max_px = src.pick(&[30, 30, 2500]);
    let steps: Vec<GStep> = gen_steps(src, 3, max_px);
    let px = steps[0].px.len();
    let t = times(src, px, px, steps.len());
    let t = t.min(12 + 40_000_000 / (px * steps.len()).max(1));
    let kind = src.draw(3);
    let what = format!("encoder {kind}, {t} repeats of {} steps", steps.len());
    ctx.sample(|| what.clone());
    ctx.event("encode", px as u64, t as u64);
    for s in &steps {
        ctx.event("step", hash_bytes(&s.px), s.pal.len() as u64);
    }
    ctx.count(match kind {
        0 => "history_step_encoder",
        1 => "history_frame_encoder",
        _ => "history_block_encoder",
    });
    let frames: Vec<MFrame> = steps
        .iter()
        .map(|s| MFrame {
            gce: Some(MGce::default()),
            desc: MDesc {
                l: 0,
                t: 0,
                w: s.w as u16,
                h: s.h as u16,
                flags: 0,
            },
            lct: None,
            data: s.px.clone(),
        })
        .collect();
    let gs: Vec<gift::Step> = steps.iter().map(|s| gstep(src, s)).collect();
    let base = alloc::start();
    let mut w = Watch {
        base,
        n: 0,
        warm: 8,
        live0: 0,
        slack: 8192 + 8 * px as isize,
        peak_bound: (1 << 20) + 64 * px,
    };
    let fail = |e: gift::Error| violation("error", format!("{e:?}"));
    match kind {
        0 => {
            let mut e = gift::Encoder::new(Void).into_step_enc();
            for _ in 0..t {
                for s in &gs {
                    if let Err(e) = e.encode_step(s) {
                        return fail(e);
                    }
                    w.item(&what)?;
                }
            }
        }
        1 => {
            let mut e = gift::Encoder::new(Void).into_frame_enc();
            let r = e.encode_preamble(&gpreamble(&MPreamble {
                version: *b"89a",
                ..Default::default()
            }));
            if let Err(e) = r {
                return fail(e);
            }
            for _ in 0..t {
                for s in &frames {
                    let g = gframe(s);
                    if let Err(e) = e.encode_frame(&g) {
                        return fail(e);
                    }
                    drop(g);
                    w.item(&what)?;
                }
            }
        }
        _ => {
            let mut e = gift::Encoder::new(Void).into_block_enc();
            for _ in 0..t {
                for s in &frames {
                    for b in [MBlock::Desc(s.desc), MBlock::Data(s.data.clone())]
                    {
                        if let Err(e) = e.encode(gblock(&b)) {
                            return fail(e);
                        }
                    }
                    w.item(&what)?;
                }
            }
        }
    }
    w.done(ctx, &what)
}
