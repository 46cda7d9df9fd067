//! Encoding: round trips, writer faults, call order, crashes
use super::*;
use crate::rng::Rng;
use gift::block::DisposalMethod;
use gift::{Encoder, Step};
use pix::{Palette, Raster, gray::Gray8, rgb::SRgb8};
use std::cell::RefCell;
use std::io::{BufWriter, Write};

/// Step to encode
#[derive(Clone, Debug)]
pub struct GStep {
    pub w: usize,
    pub h: usize,
    pub px: Vec<u8>,
    pub pal: Vec<[u8; 3]>,
    pub delay: u16,
    pub disposal: u8,
    pub trans: Option<u8>,
}

/// Distinct colours
pub fn gen_pal(src: &mut Source, n: usize) -> Vec<[u8; 3]> {
    let seed = src.seed();
    let mut r = Rng::new(seed);
    let mut v: Vec<[u8; 3]> = vec![];
    let mut seen = std::collections::HashSet::new();
    while v.len() < n {
        let c = r.next_u64();
        let c = [c as u8, (c >> 8) as u8, (c >> 16) as u8];
        if seen.insert(c) {
            v.push(c);
        }
    }
    match src.weighted(&[8, 1, 1, 1]) {
        0 => (),
        1 => {
            // the same colour more than once
            for i in 1..n {
                if r.below(3) == 0 {
                    v[i] = v[r.below(i as u64) as usize];
                }
            }
        }
        2 => {
            // unused entries are often black
            let k = src.usize(0, n - 1);
            v[k..].fill([0; 3]);
        }
        _ => {
            for (i, c) in v.iter_mut().enumerate() {
                *c = [i as u8; 3];
            }
        }
    }
    v
}

pub fn palette(pal: &[[u8; 3]]) -> Palette {
    // some palettes have room for more entries
    let room = if pal.len() % 3 == 1 { 256 } else { pal.len() };
    let mut p = Palette::new(room);
    for i in 0..pal.len() {
        let k = p.set_entry(SRgb8::new(i as u8, i as u8, i as u8));
        assert_eq!(k, Some(i));
    }
    // an entry can have the colour of another one
    for (i, c) in pal.iter().enumerate() {
        p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
    }
    p
}

fn gen_pal_len(src: &mut Source) -> usize {
    match src.weighted(&[2, 3, 3, 2]) {
        0 => 256,
        1 => src.pick(&[1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255]),
        2 => src.usize(1, 16),
        _ => src.usize(1, 256),
    }
}

pub fn gen_step(
    src: &mut Source,
    w: usize,
    h: usize,
    pal: Vec<[u8; 3]>,
) -> GStep {
    let vals = if src.chance(1, 3) {
        src.usize(1, pal.len())
    } else {
        pal.len()
    };
    let px = gen_pixels(src, w * h, vals, w);
    let delay = match src.weighted(&[4, 6, 2, 1]) {
        0 => 0,
        1 => src.usize(1, 100) as u16,
        2 => src.pick(&[255, 256, 257, 65535, 32768, 1000]),
        _ => src.draw(65536) as u16,
    };
    let disposal = src.weighted(&[4, 3, 3, 3, 1, 1, 1, 1]) as u8;
    let trans = if src.chance(1, 2) {
        Some(if src.chance(1, 4) {
            src.byte()
        } else {
            px[src.usize(0, px.len() - 1)]
        })
    } else {
        None
    };
    GStep {
        w,
        h,
        px,
        pal,
        delay,
        disposal,
        trans,
    }
}

pub fn gen_steps(src: &mut Source, max: usize, max_px: usize) -> Vec<GStep> {
    let n = src.usize(1, max);
    let (w, h) = gen_size(src, max_px);
    let steps = gen_steps_sized(src, n, w, h);
    if src.chance(1, 400) {
        many(src, steps)
    } else {
        steps
    }
}

/// Long animation
fn many(src: &mut Source, mut steps: Vec<GStep>) -> Vec<GStep> {
    let n = src.pick(&[20, 65, 130, 257, 300, 520, 1030]);
    let n = n.min(400_000 / steps[0].px.len()).max(steps.len());
    let k = steps.len();
    let mut r = Rng::new(src.seed());
    while steps.len() < n {
        let mut s = steps[r.below(k as u64) as usize].clone();
        s.delay = r.below(65536) as u16;
        steps.push(s);
    }
    steps
}

fn gen_steps_sized(src: &mut Source, n: usize, w: usize, h: usize) -> Vec<GStep> {
    let mut steps: Vec<GStep> = vec![];
    while steps.len() < n {
        if let Some(last) = steps.last()
            && src.chance(1, 8)
        {
            // once more, or nearly
            let mut s = last.clone();
            if src.chance(1, 2) {
                let (i, j) = (src.usize(0, s.px.len() - 1), src.usize(0, s.px.len() - 1));
                s.px.swap(i, j);
            }
            steps.push(s);
            continue;
        }
        let pal = if !steps.is_empty() && src.chance(1, 2) {
            src.pick(&steps).pal
        } else {
            let k = gen_pal_len(src);
            let mut p = gen_pal(src, k);
            // a palette which is like an earlier one
            if let Some(q) = steps.first()
                && src.chance(1, 3)
            {
                p = like(src, &q.pal, &p);
            }
            p
        };
        steps.push(gen_step(src, w, h, pal));
    }
    steps
}

/// Palette with much of another one
fn like(src: &mut Source, q: &[[u8; 3]], p: &[[u8; 3]]) -> Vec<[u8; 3]> {
    let k = src.usize(1, q.len());
    let i = src.usize(0, q.len() - 1);
    match src.draw(5) {
        // begins like it
        0 => {
            let k = q.len().min(p.len());
            let mut c = q[..k].to_vec();
            c.extend(p[k..].iter().filter(|x| !q.contains(x)));
            c
        }
        // the first or the last of it
        1 => q[..k].to_vec(),
        2 => q[q.len() - k..].to_vec(),
        // in another order
        3 => {
            let mut c = q.to_vec();
            c.rotate_left(i);
            c
        }
        // one colour changed
        _ => {
            let mut c = q.to_vec();
            if let Some(n) = p.iter().find(|x| !q.contains(x)) {
                c[i] = *n;
            }
            c
        }
    }
}

/// Step with pixels and colours only
pub fn gstep_plain(s: &GStep) -> Step {
    let r: Raster<Gray8> =
        Raster::with_u8_buffer(s.w as u32, s.h as u32, s.px.clone());
    Step::with_indexed(r, palette(&s.pal))
}

/// Build the library's step, setters in any order
pub fn gstep(src: &mut Source, s: &GStep) -> Step {
    let mut g = gstep_plain(s);
    let d = match s.disposal {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        n => DisposalMethod::Reserved(n),
    };
    if src.chance(1, 8) {
        // values set first are replaced
        g = g
            .with_transparent_color(Some(9))
            .with_delay_time_cs(Some(77))
            .with_disposal_method(DisposalMethod::Previous);
    }
    let delay = if s.delay == 0 && src.chance(1, 2) {
        None
    } else {
        Some(s.delay)
    };
    let order = src.draw(3);
    for i in 0..3 {
        g = match (i + order) % 3 {
            0 => g.with_disposal_method(d),
            1 => g.with_transparent_color(s.trans),
            _ => g.with_delay_time_cs(delay),
        };
    }
    g
}

fn table(pal: &[[u8; 3]]) -> Vec<u8> {
    let mut v = pal.concat();
    v.resize(768, 0);
    v
}

/// Frames as the model sees the steps
fn model_frames(steps: &[GStep]) -> Vec<MFrame> {
    steps
        .iter()
        .map(|s| MFrame {
            gce: Some(MGce {
                flags: (s.disposal << 2) | s.trans.is_some() as u8,
                delay: s.delay,
                trans: s.trans.unwrap_or(0),
            }),
            desc: MDesc {
                l: 0,
                t: 0,
                w: s.w as u16,
                h: s.h as u16,
                flags: 0,
            },
            lct: Some(table(&s.pal)),
            data: s.px.clone(),
        })
        .collect()
}

fn model_steps(steps: &[GStep]) -> Vec<MStep> {
    if steps.is_empty() {
        return vec![];
    }
    let p = MPreamble {
        w: steps[0].w as u16,
        h: steps[0].h as u16,
        ..Default::default()
    };
    composite(&p, &model_frames(steps))
}

/// Check a file made from steps with the reference reader
pub fn check_file(
    bytes: &[u8],
    steps: &[GStep],
    lp: Option<u16>,
    global: Option<&[[u8; 3]]>,
) -> Check {
    let p = match parse(bytes) {
        Ok(p) => p,
        Err(e) => return violation("format", format!("not a conforming file: {e}")),
    };
    let (pre, _) = group_preamble(&p.blocks);
    if (pre.w as usize, pre.h as usize) != (steps[0].w, steps[0].h) {
        return violation("screen", format!("screen is {}x{}", pre.w, pre.h));
    }
    let got_lp = pre.loop_ext.as_ref().and_then(|a| loop_count(a));
    if got_lp != lp {
        return violation("loop", format!("loop count {got_lp:?}, should be {lp:?}"));
    }
    if let Some(g) = global {
        let g = g.concat();
        if !pre.gct.as_ref().is_some_and(|t| t.starts_with(&g)) {
            return violation("global_table", "global table is not the one given".into());
        }
    }
    let frames: Vec<MFrame> =
        group_frames(&p.blocks).into_iter().map(|f| f.0).collect();
    if frames.len() != steps.len() {
        return violation(
            "frames",
            format!("{} frames for {} steps", frames.len(), steps.len()),
        );
    }
    for (i, (f, s)) in frames.iter().zip(steps).enumerate() {
        let g = f.gce.unwrap_or_default();
        if (g.delay, g.disposal(), g.transparent())
            != (s.delay, s.disposal, s.trans)
        {
            return violation(
                "control",
                format!(
                    "step {i}: control {g:?}, should be delay {} disposal {} transparent {:?}",
                    s.delay, s.disposal, s.trans
                ),
            );
        }
        let tbl = f.lct.as_ref().or(pre.gct.as_ref());
        let max = f.data.iter().max().copied().unwrap_or(0) as usize;
        if tbl.is_none_or(|t| t.len() < 3 * (max + 1)) {
            return violation("table", format!("step {i}: no color for index {max}"));
        }
        let (r, b) = (f.desc.l + f.desc.w, f.desc.t + f.desc.h);
        if r > pre.w || b > pre.h {
            return violation("frame", format!("step {i}: outside the screen"));
        }
    }
    let want = model_steps(steps);
    let got = composite(&pre, &frames);
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g != w {
            return violation(
                "pixels",
                format!("step {i}: reference reader gives {g:?}, should be {w:?}"),
            );
        }
    }
    Ok(())
}

fn step_items(steps: &[GStep]) -> Vec<Item> {
    model_steps(steps).into_iter().map(Item::Step).collect()
}

/// More than 65536 steps
fn long_encode(src: &mut Source, ctx: &Ctx) -> Check {
    let (w, h) = gen_size(src, 9);
    let n = src.usize(1, 3);
    let few = gen_steps_sized(src, n, w, h);
    let total = 65_537 + src.usize(0, 60);
    let g: Vec<Step> = few.iter().map(|s| gstep(src, s)).collect();
    let w = SimWriter::new(ctx, WritePlan::ideal());
    let st = w.state();
    let mut enc = Encoder::new(w).into_step_enc();
    for i in 0..total {
        if let Err(e) = enc.encode_step(&g[i % n]) {
            return violation("error", format!("step {i}: {e:?}"));
        }
    }
    drop(enc);
    ctx.count("over_65536_steps");
    ctx.nontrivial();
    ctx.checked();
    let bytes = st.borrow().sink.clone();
    let steps: Vec<GStep> = (0..total).map(|i| few[i % n].clone()).collect();
    check_file(&bytes, &steps, None, None)
}

/// C13: step encoder round trip
pub fn c13(src: &mut Source, ctx: &Ctx) -> Check {
    if src.chance(1, 20_000) {
        return long_encode(src, ctx);
    }
    let steps = match src.weighted(&[1000, 300, 100, 100, 2]) {
        0 => gen_steps(src, 5, 300),
        1 => {
            ctx.count("long_stream");
            gen_steps(src, 2, 9000)
        }
        2 => {
            ctx.count("table_clears");
            let w = src.usize(80, 140);
            let h = src.usize(60, 140);
            gen_steps_sized(src, 1, w, h)
        }
        4 => {
            ctx.count("large_raster");
            let w = src.usize(220, 600);
            let h = src.usize(200, 600);
            gen_steps_sized(src, 1, w, h)
        }
        _ => {
            ctx.count("extreme_side");
            let a = src.pick(&[65535, 65534, 32768, 256, 255, 4096]);
            let b = src.usize(1, 2);
            let (w, h) = if src.chance(1, 2) { (a, b) } else { (b, a) };
            gen_steps_sized(src, 1, w, h)
        }
    };
    let lp = src.chance(1, 2).then(|| gen_loop_count(src));
    let global = match src.weighted(&[4, 2, 2]) {
        0 => None,
        1 => Some(src.pick(&steps).pal),
        _ => {
            let n = gen_pal_len(src);
            let mut p = gen_pal(src, n);
            if src.chance(1, 2) {
                let q = src.pick(&steps).pal;
                p = like(src, &q, &p);
            }
            Some(p)
        }
    };
    if global.is_some() {
        ctx.count("global_table_given");
    }
    if steps.len() > 1 {
        ctx.count("several_steps");
    }
    ctx.nontrivial();
    ctx.sample(|| {
        format!(
            "{} steps of {}x{}, palettes {:?}, loop {lp:?}",
            steps.len(),
            steps[0].w,
            steps[0].h,
            steps.iter().map(|s| s.pal.len()).collect::<Vec<_>>()
        )
    });
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 2000));
    let st = w.state();
    let mut enc = Encoder::new(w).into_step_enc();
    if src.chance(1, 6) {
        // what is set first is replaced
        ctx.count("set_again");
        if lp.is_some() {
            enc = enc.with_loop_count(gen_loop_count(src));
        }
        if global.is_some() {
            let n = gen_pal_len(src);
            enc = enc.with_global_color_table(&palette(&gen_pal(src, n)));
        }
    }
    // builder calls in either order
    let first = src.chance(1, 2);
    if first && let Some(n) = lp {
        enc = enc.with_loop_count(n);
    }
    if let Some(g) = &global {
        enc = enc.with_global_color_table(&palette(g));
    }
    if !first && let Some(n) = lp {
        enc = enc.with_loop_count(n);
    }
    for (i, s) in steps.iter().enumerate() {
        ctx.note(|| format!("step {i}: {s:?}").chars().take(300).collect());
        let g = gstep(src, s);
        if let Err(e) = enc.encode_step(&g) {
            return violation("error", format!("step {i}: {e:?}"));
        }
    }
    st.borrow_mut().flush_fails = src.chance(1, 3);
    drop(enc);
    let bytes = st.borrow().sink.clone();
    ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
    ctx.checked();
    check_file(&bytes, &steps, lp, global.as_deref())?;
    // and with the library
    let data = Rc::new(bytes);
    let plan = ReadPlan::gen_(src, data.len());
    let got = sim_drain(ctx, &data, plan, Mode::Steps, Limit::Default, 2000);
    ctx.checked();
    same_items("decoded again", &got.items, &step_items(&steps))?;
    let got =
        sim_drain(ctx, &data, ReadPlan::ideal(), Mode::PreFrames, Limit::Default, 2000);
    ctx.checked();
    for (i, s) in steps.iter().enumerate() {
        let Some(Item::Frame(f)) = got.items.get(i + 1) else {
            return violation("frames", format!("frame {i} is missing"));
        };
        let g = f.gce.unwrap_or_default();
        if (g.delay, g.disposal(), g.transparent())
            != (s.delay, s.disposal, s.trans)
        {
            return violation("control", format!("decoded again: step {i}: {g:?}"));
        }
    }
    match got.items.first() {
        Some(Item::Preamble(p))
            if (p.w as usize, p.h as usize) == (steps[0].w, steps[0].h)
                && p.loop_ext.as_ref().and_then(|a| loop_count(a)) == lp =>
        {
            Ok(())
        }
        p => violation("preamble", format!("decoded again: {p:?}")),
    }
}

/// Bytes of each block
fn segments(bytes: &[u8], ends: &[usize]) -> Vec<Vec<u8>> {
    let mut s = 0;
    ends.iter()
        .map(|e| {
            let v = bytes[s..*e].to_vec();
            s = *e;
            v
        })
        .collect()
}

/// C14: transcoding
pub fn c14(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.max_px = if src.chance(1, 5) { 9000 } else { 600 };
    o.render = src.chance(1, 2);
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    ctx.nontrivial();
    let orig = segments(&ser.bytes, &ser.ends);
    let mut bytes = ser.bytes.clone();
    let rounds = src.usize(1, 3);
    let blocks = src.chance(1, 2);
    ctx.count(if blocks { "block_level" } else { "frame_level" });
    let setters = src.chance(1, 4);
    for round in 0..rounds {
        let w = SimWriter::new(ctx, WritePlan::gen_(src, bytes.len()));
        let st = w.state();
        let fail = |e: gift::Error| {
            violation("error", format!("round {round}: {}", err_text(&e)))
        };
        if blocks {
            let mut enc = Encoder::new(w).into_block_enc();
            if setters && round == 0 {
                ctx.count("built_with_setters");
                for b in &f.blocks {
                    if let Err(e) = enc.encode(gblock(b)) {
                        return fail(e);
                    }
                }
            } else {
                for b in gift::Decoder::new(&bytes[..]).into_blocks() {
                    let r = match b {
                        Ok(b) => enc.encode(b),
                        Err(e) => Err(e),
                    };
                    if let Err(e) = r {
                        return fail(e);
                    }
                }
            }
        } else {
            let mut enc = Encoder::new(w).into_frame_enc();
            if setters && round == 0 {
                ctx.count("built_with_setters");
                let mut r = enc.encode_preamble(&gpreamble(&f.preamble().0));
                for (m, _) in f.frames() {
                    if r.is_ok() {
                        r = enc.encode_frame(&gframe(&m));
                    }
                }
                if let Err(e) = r {
                    return fail(e);
                }
            } else {
                let mut dec = gift::Decoder::new(&bytes[..]).into_frames();
                let p = match dec.preamble() {
                    Ok(Some(p)) => p,
                    Ok(None) => return violation("preamble", "none".into()),
                    Err(e) => return fail(e),
                };
                let mut r = enc.encode_preamble(&p);
                for f in dec {
                    match f {
                        Ok(f) if r.is_ok() => r = enc.encode_frame(&f),
                        Ok(_) => (),
                        Err(e) => r = Err(e),
                    }
                }
                if let Err(e) = r {
                    return fail(e);
                }
            }
            if let Err(e) = enc.encode_trailer() {
                return fail(e);
            }
        }
        bytes = st.borrow().sink.clone();
        ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
        ctx.checked();
        let p = match parse(&bytes) {
            Ok(p) => p,
            Err(e) => {
                return violation("format", format!("round {round}: not conforming: {e}"));
            }
        };
        let segs = segments(&bytes, &p.ends);
        if blocks {
            let want: Vec<Item> =
                f.blocks.iter().cloned().map(Item::Block).collect();
            let got: Vec<Item> =
                p.blocks.iter().cloned().map(Item::Block).collect();
            same_items(&format!("round {round}"), &got, &want)?;
            for (i, (a, b)) in segs.iter().zip(&orig).enumerate() {
                if !matches!(f.blocks[i], MBlock::Data(_)) && a != b {
                    return violation(
                        "bytes",
                        format!("round {round}: block {i} {a:?}, was {b:?}"),
                    );
                }
            }
        } else {
            let (pre, _) = group_preamble(&p.blocks);
            let want = f.preamble().0;
            if pre != want {
                return violation(
                    "preamble",
                    format!("round {round}: {pre:?}, was {want:?}"),
                );
            }
            let got: Vec<Item> = group_frames(&p.blocks)
                .into_iter()
                .map(|f| Item::Frame(f.0))
                .collect();
            let want: Vec<Item> =
                f.frames().into_iter().map(|f| Item::Frame(f.0)).collect();
            same_items(&format!("round {round}"), &got, &want)?;
            // every block written is one of the input, byte for byte
            for (i, a) in segs.iter().enumerate() {
                if !matches!(p.blocks[i], MBlock::Data(_)) && !orig.contains(a) {
                    return violation("bytes", format!("round {round}: block {i} {a:?}"));
                }
            }
        }
    }
    Ok(())
}

/// What to do with an encoder
pub enum Op {
    Block(gift::block::Block),
    Preamble(gift::block::Preamble),
    Frame(gift::block::Frame),
    Trailer,
    Step(Step),
}

pub enum Enc<W: Write> {
    Block(gift::encode::BlockEnc<W>),
    Frame(gift::encode::FrameEnc<W>),
    Step(gift::encode::StepEnc<W>),
}

impl<W: Write> Enc<W> {
    pub fn new(kind: u64, w: W, lp: Option<u16>) -> Self {
        let e = Encoder::new(w);
        match kind {
            0 => {
                let mut e = e.into_step_enc();
                if let Some(n) = lp {
                    e = e.with_loop_count(n);
                }
                Enc::Step(e)
            }
            1 => Enc::Frame(e.into_frame_enc()),
            _ => Enc::Block(e.into_block_enc()),
        }
    }
    pub fn op(&mut self, op: &Op) -> Result<(), gift::Error> {
        match (self, op) {
            (Enc::Block(e), Op::Block(b)) => e.encode(b.clone()),
            (Enc::Frame(e), Op::Preamble(p)) => e.encode_preamble(p),
            (Enc::Frame(e), Op::Frame(f)) => e.encode_frame(f),
            (Enc::Frame(e), Op::Trailer) => e.encode_trailer(),
            (Enc::Step(e), Op::Step(s)) => e.encode_step(s),
            _ => unreachable!(),
        }
    }
}

fn gen_ops(src: &mut Source, kind: u64, max_px: usize) -> Vec<Op> {
    if kind == 0 {
        return gen_steps(src, 4, max_px)
            .iter()
            .map(|s| Op::Step(gstep(src, s)))
            .collect();
    }
    let mut o = GenOpts::new();
    o.max_px = max_px;
    o.rich = false;
    let f = gen_file(src, &o);
    if kind == 1 {
        let mut v = vec![Op::Preamble(gpreamble(&f.preamble().0))];
        v.extend(f.frames().iter().map(|f| Op::Frame(gframe(&f.0))));
        v.push(Op::Trailer);
        v
    } else {
        f.blocks.iter().map(|b| Op::Block(gblock(b))).collect()
    }
}

/// C15: writer faults
pub fn c15(src: &mut Source, ctx: &Ctx) -> Check {
    let kind = src.draw(3);
    let max_px = if src.chance(1, 6) { 9000 } else { 300 };
    let ops = gen_ops(src, kind, max_px);
    let lp = src.chance(1, 3).then_some(7);
    // fault free
    let w = SimWriter::new(ctx, WritePlan::ideal());
    let st = w.state();
    let mut enc = Enc::new(kind, w, lp);
    let mut cum = vec![];
    for (i, op) in ops.iter().enumerate() {
        if let Err(e) = enc.op(op) {
            return violation("error", format!("op {i} fails: {}", err_text(&e)));
        }
        cum.push(st.borrow().sink.len());
    }
    drop(enc);
    let reference = st.borrow().sink.clone();
    let total = reference.len();
    // a call hands over its bytes at once: dropping only adds the trailer of
    // a step encoder, whichever call was the last one
    let handed = |n: usize, held: usize, total: usize| {
        let want = held + (kind == 0 && held > 0) as usize;
        if total != want {
            return violation(
                "held_back",
                format!("{held} bytes written when call {n} returned, {total} after drop"),
            );
        }
        Ok(())
    };
    handed(ops.len(), cum.last().copied().unwrap_or(0), total)?;
    if ops.len() > 1 {
        let n = src.usize(1, ops.len() - 1);
        let w = SimWriter::new(ctx, WritePlan::ideal());
        let st = w.state();
        let mut enc = Enc::new(kind, w, lp);
        for (i, op) in ops[..n].iter().enumerate() {
            if let Err(e) = enc.op(op) {
                return violation("error", format!("op {i} fails: {}", err_text(&e)));
            }
        }
        st.borrow_mut().flush_fails = src.chance(1, 3);
        drop(enc);
        handed(n, cum[n - 1], st.borrow().sink.len())?;
    }
    ctx.event("output", hash_bytes(&reference), total as u64);
    ctx.sample(|| format!("encoder {kind}, {} ops, {total} bytes", ops.len()));
    let n = src.usize(1, 4);
    for _ in 0..n {
        let mut plan = WritePlan::gen_(src, total);
        let fail = src.chance(3, 4);
        if fail {
            let at = match src.weighted(&[3, 3]) {
                0 => src.usize(0, total - 1),
                _ => {
                    let c = src.pick(&cum) as i64;
                    let d = src.pick(&[0i64, -1, 1, 2, -2]);
                    (c + d).clamp(0, total as i64 - 1) as usize
                }
            };
            let inj = if src.chance(1, 5) {
                Inject::Zero
            } else {
                gen_inject(src)
            };
            // a writer which refuses once may go on later
            plan.fail = Some((at, inj, src.chance(2, 3)));
        }
        ctx.note(|| format!("plan {plan:?}"));
        let pf = plan.fail;
        let w = SimWriter::new(ctx, plan);
        let st = w.state();
        let mut enc = Enc::new(kind, w, lp);
        ctx.checked();
        let mut failed = false;
        for (i, op) in ops.iter().enumerate() {
            let r = enc.op(op);
            let sink = st.borrow().sink.clone();
            let hit = pf.filter(|(at, _, _)| cum[i] > *at);
            match (r, hit) {
                (Ok(()), None) => {
                    if sink[..] != reference[..cum[i]] {
                        return violation(
                            "bytes",
                            format!("op {i}: {} bytes written differ from the {} expected", sink.len(), cum[i]),
                        );
                    }
                }
                (Ok(()), Some((at, inj, _))) => {
                    return violation(
                        "lost_error",
                        format!("op {i} succeeds, but {inj:?} happened at {at}"),
                    );
                }
                (Err(e), None) => {
                    return violation(
                        "error",
                        format!("op {i} fails without a fault: {}", err_text(&e)),
                    );
                }
                (Err(e), Some((at, inj, _))) => {
                    ctx.count("failed_call");
                    let same = match &e {
                        gift::Error::Io(e) => inj.is(e),
                        _ => false,
                    };
                    if !same {
                        return violation(
                            "error_identity",
                            format!("{inj:?} reported as {}", err_text(&e)),
                        );
                    }
                    if sink[..] != reference[..at] {
                        return violation(
                            "prefix",
                            format!("after the fault at {at}, {} bytes are written and differ", sink.len()),
                        );
                    }
                    failed = true;
                }
            }
            if failed {
                break;
            }
        }
        st.borrow_mut().flush_fails = src.chance(1, 3);
        drop(enc);
        let sink = st.borrow().sink.clone();
        match pf {
            None => {
                if sink != reference {
                    return violation("bytes", "output differs".into());
                }
            }
            Some((at, _, sticky)) => {
                let ok = if sticky {
                    sink[..] == reference[..at]
                } else {
                    sink.starts_with(&reference[..at])
                };
                if !ok {
                    return violation("prefix", format!("fault at {at}: after drop"));
                }
                if !failed {
                    ctx.count("fault_in_drop");
                }
            }
        }
    }
    Ok(())
}

/// C16: call order
pub fn c16(src: &mut Source, ctx: &Ctx) -> Check {
    ctx.nontrivial();
    if src.chance(1, 2) {
        c16_frames(src, ctx)
    } else {
        c16_steps(src, ctx)
    }
}

fn c16_frames(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.max_px = 60;
    o.rich = false;
    o.frames = 3;
    let f = gen_file(src, &o);
    let pre = f.preamble().0;
    let frames = f.frames();
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 300));
    let st = w.state();
    let mut enc = Encoder::new(w).into_frame_enc();
    let (mut has_pre, mut has_tr) = (false, false);
    let mut done: Vec<Item> = vec![];
    let n = src.usize(1, 12);
    ctx.sample(|| format!("frame encoder, {n} calls"));
    for i in 0..n {
        let before = st.borrow().sink.len();
        let op = src.weighted(&[3, 4, 2]);
        let (r, ok) = match op {
            0 => {
                let ok = !has_pre;
                has_pre = true;
                (enc.encode_preamble(&gpreamble(&pre)), ok)
            }
            1 => {
                let m = src.pick(&frames).0;
                let ok = has_pre && !has_tr;
                if ok {
                    done.push(Item::Frame(m.clone()));
                }
                (enc.encode_frame(&gframe(&m)), ok)
            }
            _ => {
                let ok = has_pre && !has_tr;
                has_tr |= ok;
                (enc.encode_trailer(), ok)
            }
        };
        let after = st.borrow().sink.len();
        ctx.event("op", op as u64, r.is_ok() as u64);
        ctx.checked();
        match (&r, ok) {
            (Ok(()), true) => {
                if after == before {
                    return violation("order", format!("call {i} writes nothing"));
                }
            }
            (Ok(()), false) => {
                return violation(
                    "order",
                    format!("call {i} (kind {op}) is out of order, but succeeds"),
                );
            }
            (Err(e), true) => {
                return violation(
                    "order",
                    format!("call {i} (kind {op}) fails: {}", err_text(e)),
                );
            }
            (Err(e), false) => {
                ctx.count("refused_call");
                if err_text(e) != "InvalidBlockSequence" {
                    return violation("error", format!("call {i}: {}", err_text(e)));
                }
                if after != before {
                    return violation(
                        "order",
                        format!("refused call {i} wrote {} bytes", after - before),
                    );
                }
            }
        }
    }
    let before = st.borrow().sink.len();
    st.borrow_mut().flush_fails = src.chance(1, 3);
    drop(enc);
    let mut sink = st.borrow().sink.clone();
    if sink.len() != before {
        return violation("drop", "frame encoder writes when dropped".into());
    }
    if !has_pre {
        return Ok(());
    }
    if !has_tr {
        sink.push(0x3B);
    }
    check_whole(&sink, &pre, &done)
}

fn check_whole(sink: &[u8], pre: &MPreamble, frames: &[Item]) -> Check {
    let p = match parse(sink) {
        Ok(p) => p,
        Err(e) => return violation("format", format!("file is not well-formed: {e}")),
    };
    if group_preamble(&p.blocks).0 != *pre {
        return violation("format", "preamble differs".into());
    }
    let got: Vec<Item> = group_frames(&p.blocks)
        .into_iter()
        .map(|f| Item::Frame(f.0))
        .collect();
    same_items("frames written", &got, frames)
}

fn c16_steps(src: &mut Source, ctx: &Ctx) -> Check {
    let (w, h) = gen_size(src, 60);
    let out = SimWriter::new(ctx, WritePlan::gen_(src, 300));
    let st = out.state();
    let mut enc = Encoder::new(out).into_step_enc();
    let lp = src.chance(1, 3).then_some(3);
    if let Some(n) = lp {
        enc = enc.with_loop_count(n);
    }
    let mut size: Option<(usize, usize)> = None;
    let mut done: Vec<GStep> = vec![];
    let n = src.usize(0, 8);
    ctx.sample(|| format!("step encoder {w}x{h}, {n} calls"));
    for i in 0..n {
        let before = st.borrow().sink.len();
        let kind = src.weighted(&[6, 3, 1, 2]);
        let (sw, sh) = match kind {
            0 => (w, h),
            1 => match src.draw(4) {
                0 => (w + 1, h),
                1 => (w, h + 1),
                2 => (h, w),
                _ => gen_size(src, 60),
            },
            2 => src.pick(&[(65536, 1), (1, 65536), (65537, 1), (1, 131072)]),
            _ => src.pick(&[(65536 + w, 1), (w, 1), (1, 65536 + h)]),
        };
        let np = src.pick(&[1, 2, 4, 16]);
        let pal = gen_pal(src, np);
        let s = gen_step(src, sw, sh, pal);
        let g = gstep(src, &s);
        let r = enc.encode_step(&g);
        let after = st.borrow().sink.len();
        ctx.event("step", (sw << 20 | sh) as u64, r.is_ok() as u64);
        ctx.checked();
        let large = sw > 65535 || sh > 65535;
        let ok = !large && size.is_none_or(|z| z == (sw, sh));
        match (&r, ok) {
            (Ok(()), true) => {
                size = Some((sw, sh));
                done.push(s);
                if after == before {
                    return violation("order", format!("step {i} writes nothing"));
                }
            }
            (Ok(()), false) => {
                return violation(
                    "size",
                    format!("step {i} of {sw}x{sh} is accepted, screen is {size:?}"),
                );
            }
            (Err(e), true) => {
                return violation(
                    "order",
                    format!("step {i} of {sw}x{sh} fails: {}", err_text(e)),
                );
            }
            (Err(e), false) => {
                ctx.count(if large { "refused_large" } else { "refused_size" });
                let e = err_text(e);
                let good = (large && e == "TryFromInt")
                    || (size.is_some() && e == "InvalidRasterDimensions");
                if !good {
                    return violation("error", format!("step {i} of {sw}x{sh}: {e}"));
                }
                if after != before {
                    return violation(
                        "order",
                        format!("refused step {i} wrote {} bytes", after - before),
                    );
                }
            }
        }
    }
    st.borrow_mut().flush_fails = src.chance(1, 3);
    if src.chance(1, 8) {
        // dropped because the caller panics
        ctx.count("dropped_in_unwinding");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _enc = enc;
            std::panic::resume_unwind(Box::new(()))
        }));
        r.unwrap_err();
    } else {
        drop(enc);
    }
    let sink = st.borrow().sink.clone();
    ctx.checked();
    if done.is_empty() {
        if !sink.is_empty() {
            return violation("drop", "no step, but something is written".into());
        }
        ctx.count("nothing_written");
        return Ok(());
    }
    check_file(&sink, &done, lp, None)
}

/// Buffered writer which stays reachable for a flush
struct Shared(Rc<RefCell<BufWriter<SimWriter>>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

/// C17: crash
pub fn c17(src: &mut Source, ctx: &Ctx) -> Check {
    ctx.nontrivial();
    let max_px = if src.chance(1, 6) { 4000 } else { 120 };
    let steps = gen_steps(src, 6, max_px);
    ctx.sample(|| format!("{} steps of {}x{}", steps.len(), steps[0].w, steps[0].h));
    let want = step_items(&steps);
    if src.chance(1, 3) {
        return c17_buffered(src, ctx, &steps, &want);
    }
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 500));
    let st = w.state();
    let mut enc = Encoder::new(w).into_step_enc();
    let mut cum = vec![];
    for s in &steps {
        let g = gstep(src, s);
        let before = st.borrow().sink.clone();
        if let Err(e) = enc.encode_step(&g) {
            return violation("error", err_text(&e));
        }
        let now = st.borrow();
        if !now.sink.starts_with(&before) {
            return violation("rewrite", "earlier bytes changed".into());
        }
        cum.push(now.sink.len());
    }
    drop(enc);
    let bytes = st.borrow().sink.clone();
    ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
    let all = bytes.len() < 150 && src.chance(1, 3);
    let n = if all { bytes.len() } else { src.usize(1, 5) };
    if all {
        ctx.count("every_crash_point");
    }
    for k in 0..n {
        let at = if all {
            k
        } else if src.chance(1, 2) {
            src.usize(0, bytes.len() - 1)
        } else {
            let c = src.pick(&cum) as i64 + src.pick(&[0i64, -1, 1]);
            c.clamp(0, bytes.len() as i64 - 1) as usize
        };
        let acked = cum.iter().filter(|c| **c <= at).count();
        ctx.count("crash");
        after_crash(src, ctx, &bytes[..at], acked, &want, at < bytes.len())?;
    }
    Ok(())
}

/// Decode what is left
fn after_crash(
    src: &mut Source,
    ctx: &Ctx,
    left: &[u8],
    acked: usize,
    want: &[Item],
    cut: bool,
) -> Check {
    let data = Rc::new(left.to_vec());
    let plan = ReadPlan::gen_(src, data.len());
    ctx.event("crash", left.len() as u64, acked as u64);
    let got = sim_drain(ctx, &data, plan, Mode::Steps, Limit::Default, 2000);
    ctx.checked();
    let what = format!("crash after {} bytes, {acked} acknowledged", left.len());
    let ok: Vec<&Item> = got.items.iter().filter(|i| !i.is_err()).collect();
    if ok.len() < acked {
        return violation("lost", format!("{what}: {} steps decode", ok.len()));
    }
    if ok.len() > acked + 1 {
        return violation("extra", format!("{what}: {} steps decode", ok.len()));
    }
    for (i, g) in ok.iter().enumerate() {
        if want.get(i) != Some(g) {
            return violation("content", format!("{what}: step {i} is {}", short(g)));
        }
    }
    match got.items.last() {
        Some(Item::Err(e)) if e == "UnexpectedEndOfFile" => Ok(()),
        e if cut => violation("end", format!("{what}: ends with {e:?}")),
        _ => Ok(()),
    }
}

fn c17_buffered(
    src: &mut Source,
    ctx: &Ctx,
    steps: &[GStep],
    want: &[Item],
) -> Check {
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 500));
    let st = w.state();
    let cap = src.pick(&[1, 8, 64, 1000, 8192]);
    let buf = Rc::new(RefCell::new(BufWriter::with_capacity(cap, w)));
    let mut enc = Encoder::new(Shared(buf.clone())).into_step_enc();
    let mut flushed = 0;
    let stop = src.usize(0, steps.len());
    for (i, s) in steps.iter().enumerate().take(stop) {
        let g = gstep(src, s);
        if let Err(e) = enc.encode_step(&g) {
            return violation("error", err_text(&e));
        }
        if src.chance(1, 2) {
            if buf.borrow_mut().flush().is_err() {
                return violation("harness", "flush".into());
            }
            flushed = i + 1;
        }
    }
    // the machine stops here: what is in the buffer is lost
    let left = st.borrow().sink.clone();
    ctx.count("crash_with_buffer");
    ctx.event("left", left.len() as u64, flushed as u64);
    let data = Rc::new(left);
    let plan = ReadPlan::gen_(src, data.len());
    let got = sim_drain(ctx, &data, plan, Mode::Steps, Limit::Default, 2000);
    ctx.checked();
    let ok: Vec<&Item> = got.items.iter().filter(|i| !i.is_err()).collect();
    if ok.len() < flushed || ok.len() > stop {
        return violation(
            "lost",
            format!("{} of {flushed} flushed steps decode", ok.len()),
        );
    }
    for (i, g) in ok.iter().enumerate() {
        if want.get(i) != Some(g) {
            return violation("content", format!("step {i} is {}", short(g)));
        }
    }
    match got.items.last() {
        Some(Item::Err(e)) if e == "UnexpectedEndOfFile" => Ok(()),
        e => violation("end", format!("crash with buffer: ends with {e:?}")),
    }
}
