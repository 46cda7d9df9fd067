//! Decoding: read schedules, content, cuts, errors
use super::*;
use crate::rng::Rng;

/// Mutate bytes (structure aware when `ends` is known)
pub fn mutate(src: &mut Source, bytes: &mut Vec<u8>, ends: &[usize]) {
    let n = src.usize(1, 4);
    for _ in 0..n {
        let len = bytes.len();
        let at = if !ends.is_empty() && src.chance(1, 2) {
            let e = src.pick(ends);
            (e + src.usize(0, 12)).min(len)
        } else {
            src.usize(0, len)
        };
        match src.weighted(&[4, 4, 2, 2, 2, 2, 2]) {
            0 => {
                if at < len {
                    bytes[at] ^= 1 << src.draw(8);
                }
            }
            1 => {
                if at < len {
                    bytes[at] =
                        src.pick(&[0, 1, 0x21, 0x2C, 0x3B, 0xF9, 0xFE, 0xFF, 4]);
                }
            }
            2 => {
                let k = src.usize(1, 20).min(len - at);
                bytes.drain(at..at + k);
            }
            3 => {
                let v = gen_bytes(src, 1, 20);
                bytes.splice(at..at, v);
            }
            4 => {
                let k = src.usize(1, 60).min(len - at);
                let v = bytes[at..at + k].to_vec();
                bytes.splice(at..at, v);
            }
            5 => bytes.truncate(at),
            _ => {
                if at < len {
                    bytes[at] = src.byte();
                }
            }
        }
    }
}

/// Any kind of input: conforming, mutated, random
pub fn gen_input(src: &mut Source, o: &GenOpts) -> (Vec<u8>, Vec<usize>, usize) {
    let f = gen_file(src, o);
    let ser = f.serialise();
    let px = f.pixels();
    let mut b = ser.bytes.clone();
    match src.weighted(&[4, 8, 1, 1]) {
        0 => (),
        1 => mutate(src, &mut b, &ser.ends),
        2 => {
            // random after the header and screen
            let at = src.usize(0, b.len().min(40));
            let v = gen_bytes(src, 0, 300);
            b.truncate(at);
            b.extend(v);
        }
        _ => b = gen_bytes(src, 0, 200),
    }
    (b, ser.ends, px)
}

/// C01: read schedules do not matter
pub fn c01(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.max_px = 1500;
    let (bytes, _, px) = gen_input(src, &o);
    let mode = src.pick(MODES);
    let limit = match src.weighted(&[4, 1, 1]) {
        0 => Limit::Set(Some(1 << 16)),
        1 => Limit::Set(Some(src.usize(0, 2000))),
        _ => Limit::Set(Some(px)),
    };
    let cap = 400;
    let data = Rc::new(bytes);
    ctx.event("input", hash_bytes(&data), data.len() as u64);
    ctx.sample(|| format!("{mode:?} of {} bytes, limit {limit:?}", data.len()));
    let base = drain(&data[..], None, mode, limit, cap);
    ctx.note(|| format!("slice gives {} items", base.items.len()));
    let n = src.usize(1, 3);
    for _ in 0..n {
        let plan = ReadPlan::gen_(src, data.len());
        ctx.note(|| format!("plan {plan:?}"));
        maybe_log(src, ctx, data.len());
        let got = sim_drain(ctx, &data, plan, mode, limit, cap);
        log::set_max_level(log::LevelFilter::Off);
        ctx.checked();
        if let Some(e) = got.error() {
            ctx.count("decode_error_seen");
            if e.contains("Interrupted") {
                return violation("interrupted", format!("{mode:?}: {e}"));
            }
        }
        same_items(&format!("{mode:?}"), &got.items, &base.items)?;
        if got.ended != base.ended {
            return violation("end", format!("{mode:?}: end differs"));
        }
    }
    Ok(())
}

/// Values derived from the flags must match
fn check_derived(f: &MFile, data: &[u8]) -> Check {
    use gift::block::*;
    let bad = |w: &str| violation("derived", format!("wrong value: {w}"));
    let cfg = |c: ColorTableConfig, flags: u8, sort: u8, what: &str| -> Check {
        let present = flags & 0x80 != 0;
        let n = if present { 2usize << (flags & 7) } else { 0 };
        if (c.existence() == ColorTableExistence::Present) != present
            || c.len() != n
            || c.size_bytes() != 3 * n
            || c.is_empty() == present
            || (c.ordering() == ColorTableOrdering::Sorted) != (flags & sort != 0)
        {
            return violation("derived", format!("{what} table config {c:?} for {flags:02x}"));
        }
        Ok(())
    };
    for (b, m) in gift::Decoder::new(data).into_blocks().zip(&f.blocks) {
        let subs = matches!(
            m,
            MBlock::Plain(_)
                | MBlock::Gce(_)
                | MBlock::Comment(_)
                | MBlock::App(_)
                | MBlock::Unknown(_, _)
                | MBlock::Data(_)
        );
        if b.as_ref().is_ok_and(|b| b.has_sub_blocks() != subs) {
            return bad("has_sub_blocks");
        }
        match (b, m) {
            (Ok(Block::LogicalScreenDesc(b)), MBlock::Lsd { flags, .. }) => {
                cfg(b.color_table_config(), *flags, 0x08, "global")?;
                if b.color_resolution() != 2 << ((flags >> 4) & 7) {
                    return bad("color_resolution");
                }
            }
            (Ok(Block::ImageDesc(b)), MBlock::Desc(d)) => {
                cfg(b.color_table_config(), d.flags, 0x20, "local")?;
                if b.interlaced() != d.interlaced() {
                    return bad("interlaced");
                }
                if b.image_sz() != d.pixels() {
                    return bad("image_sz");
                }
            }
            (Ok(Block::GraphicControl(b)), MBlock::Gce(g)) => {
                if b.transparent_color() != g.transparent() {
                    return bad("transparent_color");
                }
                if b.user_input() != (g.flags & 2 != 0) {
                    return bad("user_input");
                }
                let d = match g.disposal() {
                    0 => DisposalMethod::NoAction,
                    1 => DisposalMethod::Keep,
                    2 => DisposalMethod::Background,
                    3 => DisposalMethod::Previous,
                    n => DisposalMethod::Reserved(n),
                };
                if b.disposal_method() != d {
                    return bad("disposal_method");
                }
            }
            (Ok(Block::Application(b)), MBlock::App(a)) => {
                if b.loop_count() != loop_count(a) {
                    return violation(
                        "derived",
                        format!("loop_count {:?} of {:?}", b.loop_count(), m),
                    );
                }
            }
            (Ok(Block::GlobalColorTable(b)), MBlock::Gct(c)) => {
                if b.len() * 3 != c.len() || b.is_empty() {
                    return bad("global table len");
                }
            }
            (Ok(Block::LocalColorTable(b)), MBlock::Lct(c)) => {
                if b.len() * 3 != c.len() || b.is_empty() {
                    return bad("local table len");
                }
            }
            _ => (),
        }
    }
    for (fr, (m, _)) in gift::Decoder::new(data).into_frames().zip(f.frames()) {
        let Ok(fr) = fr else {
            return bad("frame");
        };
        let r = fr.region();
        let d = m.desc;
        if fr.transparent_color() != m.gce.and_then(|g| g.transparent())
            || u8::from(fr.disposal_method())
                != m.gce.map(|g| g.disposal()).unwrap_or(0)
            || (fr.left(), fr.top(), fr.width(), fr.height())
                != (d.l, d.t, d.w, d.h)
            || (r.left(), r.top(), r.width(), r.height())
                != (d.l as i32, d.t as i32, d.w as u32, d.h as u32)
        {
            return bad("frame getters");
        }
    }
    Ok(())
}

/// C02: conforming files decode exactly
pub fn c02(src: &mut Source, ctx: &Ctx) -> Check {
    if src.chance(1, 15_000) {
        let mode = src.pick(&[Mode::Blocks, Mode::Frames, Mode::PreFrames]);
        return memory::long_decode(src, ctx, mode);
    }
    let mut o = GenOpts::new();
    o.render = src.chance(1, 3);
    o.frames = 8;
    o.max_px = 3000;
    let mut f = gen_file(src, &o);
    if src.chance(1, 6) {
        // images anywhere, also outside the screen (legal at this level)
        for b in &mut f.blocks {
            if let MBlock::Desc(d) = b {
                d.l = src.draw(65536) as u16;
                d.t = src.draw(65536) as u16;
            }
        }
        if src.chance(1, 3) {
            // some encoders leave the screen empty
            ctx.count("empty_screen");
            for b in &mut f.blocks {
                if let MBlock::Lsd { w, h, .. } = b {
                    (*w, *h) = src.pick(&[(0, 0), (0, *h), (*w, 0)]);
                }
            }
        }
    }
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    if f.blocks.len() > 6 {
        ctx.nontrivial();
    }
    for b in &f.blocks {
        match b {
            MBlock::Gce(_) => ctx.count("has_graphic_control"),
            MBlock::Plain(_) => ctx.count("has_plain_text"),
            MBlock::Comment(_) => ctx.count("has_comment"),
            MBlock::App(_) => ctx.count("has_application"),
            MBlock::Unknown(_, _) => ctx.count("has_unknown_ext"),
            MBlock::Lct(_) => ctx.count("has_local_table"),
            _ => (),
        }
    }
    let data = Rc::new(ser.bytes.clone());
    for mode in [Mode::Blocks, Mode::Frames, Mode::PreFrames] {
        let plan = ReadPlan::gen_(src, data.len());
        let got = sim_drain(ctx, &data, plan, mode, Limit::Default, 400_000);
        ctx.checked();
        let want: Vec<Item> =
            expected(&f, &ser, mode).into_iter().map(|i| i.0).collect();
        same_items(&format!("{mode:?}"), &got.items, &want)?;
        if !got.ended {
            return violation("end", format!("{mode:?}: does not end"));
        }
    }
    ctx.checked();
    check_derived(&f, &data)?;
    if src.chance(1, 4) {
        ctx.count("preamble_asked_twice");
        let plan = ReadPlan::gen_(src, data.len());
        let mut dec =
            gift::Decoder::new(SimReader::new(ctx, data.clone(), plan)).into_frames();
        let p: Vec<bool> = (0..2)
            .map(|_| matches!(dec.preamble(), Ok(Some(_))))
            .collect();
        let got: Vec<Item> = dec
            .map(|f| match f {
                Ok(f) => Item::Frame(mframe(&f)),
                Err(e) => Item::Err(err_text(&e)),
            })
            .collect();
        ctx.checked();
        let want: Vec<Item> = expected(&f, &ser, Mode::Frames)
            .into_iter()
            .map(|i| i.0)
            .collect();
        if p != [true, false] {
            return violation("preamble", format!("asked twice, got {p:?}"));
        }
        same_items("preamble asked for twice", &got, &want)?;
    }
    Ok(())
}

/// C03: LZW streams
pub fn c03(src: &mut Source, ctx: &Ctx) -> Check {
    let mut f = MFile::default();
    f.blocks.push(MBlock::Header(*b"89a"));
    let mut n = src.weighted(&[0, 6, 2, 1]);
    let big = src.weighted(&[40_000, 20_000, 10_000, 5_000, 2]);
    if big == 4 {
        ctx.count("giant_image");
        n = 1;
    }
    let mut frames = vec![];
    for _ in 0..n {
        let (w, h) = match big {
            0 => gen_size(src, 400),
            1 => gen_size(src, 8000),
            2 => (src.usize(60, 120), src.usize(60, 120)),
            4 => src.pick(&[(4100, 4100), (8192, 4096), (65535, 300)]),
            _ => (src.usize(250, 300), src.usize(250, 300)),
        };
        let vals = match src.weighted(&[2, 2, 2]) {
            0 => 256,
            1 => 1 << src.usize(1, 8),
            _ => src.usize(1, 256),
        };
        let px = gen_pixels(src, w * h, vals, w);
        let nb = need_bits(&px);
        let min = if src.chance(1, 3) {
            src.usize(nb as usize, 8) as u8
        } else {
            nb
        };
        let mut st = gen_strat(src, min, true);
        if big == 3 && src.chance(1, 2) {
            st.defer = None;
            st.max_match = 1;
            st.clear = 0;
        }
        frames.push((w, h, px, st));
    }
    f.blocks.push(MBlock::Lsd {
        w: 1,
        h: 1,
        flags: 0,
        bg: 0,
        aspect: 0,
    });
    for (w, h, px, st) in frames {
        f.blocks.push(MBlock::Desc(MDesc {
            l: 0,
            t: 0,
            w: w as u16,
            h: h as u16,
            flags: 0,
        }));
        ctx.note(|| format!("strategy {st:?}"));
        if st != LzwStrat::plain(st.min) {
            ctx.nontrivial();
            ctx.count("unusual_encoder");
        }
        f.strats.push(st);
        f.blocks.push(MBlock::Data(px));
    }
    f.blocks.push(MBlock::Trailer);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let data = Rc::new(ser.bytes.clone());
    let mode = src.pick(&[Mode::Blocks, Mode::Frames]);
    let plan = ReadPlan::gen_(src, data.len());
    let limit = if src.chance(1, 4) {
        Limit::Set(None)
    } else {
        Limit::Default
    };
    let got = sim_drain(ctx, &data, plan, mode, limit, 400_000);
    ctx.checked();
    let want: Vec<Item> =
        expected(&f, &ser, mode).into_iter().map(|i| i.0).collect();
    same_items("pixels", &got.items, &want)
}

/// C04: compositing
pub fn c04(src: &mut Source, ctx: &Ctx) -> Check {
    if src.chance(1, 50_000) {
        return memory::long_decode(src, ctx, Mode::Steps);
    }
    let mut o = GenOpts::new();
    o.frames = 10;
    o.max_px = if src.chance(1, 10) { 10_000 } else { 400 };
    o.rich = src.chance(1, 3);
    o.exts = src.chance(1, 3);
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let fr = f.frames();
    if fr.len() > 1 {
        ctx.nontrivial();
        ctx.count("several_frames");
    }
    for (i, (m, _)) in fr.iter().enumerate() {
        if m.desc.interlaced() {
            ctx.count("interlaced");
        }
        if let Some(g) = m.gce {
            if g.transparent().is_some() {
                ctx.count("transparent");
            }
            if i + 1 < fr.len() {
                match g.disposal() {
                    2 => ctx.count("dispose_background"),
                    3 => ctx.count("dispose_previous"),
                    _ => (),
                }
            }
        }
    }
    let data = Rc::new(ser.bytes.clone());
    let plan = ReadPlan::gen_(src, data.len());
    let got = sim_drain(ctx, &data, plan, Mode::Steps, Limit::Default, 400_000);
    ctx.checked();
    let want: Vec<Item> = expected(&f, &ser, Mode::Steps)
        .into_iter()
        .map(|i| i.0)
        .collect();
    same_items("steps", &got.items, &want)?;
    if !got.ended {
        return violation("end", "steps do not end".into());
    }
    Ok(())
}

fn fault_file(src: &mut Source, ctx: &Ctx) -> (MFile, Ser) {
    let mut o = GenOpts::new();
    o.max_px = if src.chance(1, 8) { 3000 } else { 200 };
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    (f, ser)
}

/// C06: truncation
pub fn c06(src: &mut Source, ctx: &Ctx) -> Check {
    let (f, ser) = fault_file(src, ctx);
    let total = ser.bytes.len();
    let all = total < 160 && src.chance(1, 3);
    let cuts: Vec<usize> = if all {
        ctx.count("every_cut_of_a_file");
        (0..total).collect()
    } else {
        let n = src.usize(1, 4);
        (0..n)
            .map(|_| gen_offset(src, &ser).min(total - 1))
            .collect()
    };
    let mode = src.pick(MODES);
    let want = expected(&f, &ser, mode);
    let benign = src.chance(1, 2);
    for cut in cuts {
        let data = Rc::new(ser.bytes[..cut].to_vec());
        let plan = if benign {
            ReadPlan::gen_(src, cut)
        } else {
            ReadPlan::ideal()
        };
        ctx.nontrivial();
        ctx.count("cut");
        ctx.note(|| format!("cut at {cut} {plan:?}"));
        let got = sim_drain(ctx, &data, plan, mode, Limit::Default, 400_000);
        check_cut(
            &format!("{mode:?} cut at {cut} of {total}"),
            ctx,
            &want,
            cut,
            "UnexpectedEndOfFile",
            &got,
            mode,
        )?;
    }
    Ok(())
}

/// C07: hard read errors
pub fn c07(src: &mut Source, ctx: &Ctx) -> Check {
    let (f, ser) = fault_file(src, ctx);
    let total = ser.bytes.len();
    let mode = src.pick(MODES);
    let want = expected(&f, &ser, mode);
    let data = Rc::new(ser.bytes.clone());
    let all = total < 120 && src.chance(1, 4);
    let n = if all { total } else { src.usize(1, 4) };
    for k in 0..n {
        let at = if all { k } else { gen_offset(src, &ser) };
        let mut plan = if src.chance(1, 2) {
            ReadPlan::gen_(src, total)
        } else {
            ReadPlan::ideal()
        };
        let inj = gen_inject(src);
        plan.fail = Some((at, inj, src.chance(1, 2)));
        ctx.note(|| format!("error at {at} {plan:?}"));
        let got = sim_drain(ctx, &data, plan, mode, Limit::Default, 400_000);
        let what = format!("{mode:?}, {inj:?} at {at} of {total}");
        if at < total {
            let err = io_text(&inj.make());
            check_cut(&what, ctx, &want, at, &err, &got, mode)?;
            if k == 0 && src.chance(1, 4) {
                error_chain(ctx, &data, at, inj)?;
            }
        } else if mode != Mode::Looping {
            // behind the trailer: must not be reached
            ctx.checked();
            let w: Vec<Item> = want.iter().map(|i| i.0.clone()).collect();
            same_items(&what, &got.items, &w)?;
        }
    }
    Ok(())
}

/// The error leads to its cause, and says what it is
fn error_chain(ctx: &Ctx, data: &Rc<Vec<u8>>, at: usize, inj: Inject) -> Check {
    let mut plan = ReadPlan::ideal();
    plan.fail = Some((at, inj, true));
    let r = SimReader::new(ctx, data.clone(), plan);
    let e = gift::Decoder::new(r).into_blocks().find_map(|r| r.err());
    ctx.checked();
    let Some(e) = e else {
        return violation("no_error", format!("no error, {inj:?} at {at}"));
    };
    let cause = std::error::Error::source(&e)
        .and_then(|s| s.downcast_ref::<std::io::Error>());
    if !cause.is_some_and(|c| inj.is(c)) {
        return violation("source", format!("{inj:?}: source is {cause:?}"));
    }
    if !e.to_string().contains(&inj.make().to_string()) {
        return violation("message", format!("{inj:?}: message is {e}"));
    }
    Ok(())
}

/// Expected result of one malformation
struct Broken {
    bytes: Vec<u8>,
    /// Error and offset of the broken place, for each mode
    blocks: Option<(String, usize)>,
    frames: Option<(String, usize)>,
    steps: Option<(String, usize)>,
    want_file: MFile,
    want_ser: Ser,
}

/// C12: documented malformations
pub fn c12(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.max_px = 300;
    let mut f = gen_file(src, &o);
    let class = src.draw(11);
    let all = |e: String, at: usize| {
        (Some((e.clone(), at)), Some((e.clone(), at)), Some((e, at)))
    };
    // index of each data block
    let datas: Vec<usize> = f.frames().iter().map(|f| f.1).collect();
    let k = src.usize(0, datas.len() - 1);
    // first block of frame k
    let b = match class {
        0 => {
            ctx.count("bad_signature");
            let ser = f.serialise();
            let mut bytes = ser.bytes.clone();
            let i = src.usize(0, 2);
            bytes[i] ^= 1 + src.draw(255) as u8;
            let (a, b, c) = all("MalformedHeader".into(), 0);
            Broken {
                bytes,
                blocks: a,
                frames: b,
                steps: c,
                want_file: f,
                want_ser: ser,
            }
        }
        1 => {
            ctx.count("bad_version");
            let ser = f.serialise();
            let mut bytes = ser.bytes.clone();
            let v = if src.chance(1, 2) {
                src.pick(&[*b"88a", *b"89b", *b"87b", *b"90a", *b"89A", *b"79a"])
            } else {
                let mut v = [bytes[3], bytes[4], bytes[5]];
                v[src.usize(0, 2)] ^= 1 + src.draw(255) as u8;
                v
            };
            if &v == b"87a" || &v == b"89a" {
                return Ok(());
            }
            bytes[3..6].copy_from_slice(&v);
            let (a, b, c) = all(format!("UnsupportedVersion({v:?})"), 0);
            Broken {
                bytes,
                blocks: a,
                frames: b,
                steps: c,
                want_file: f,
                want_ser: ser,
            }
        }
        2 => {
            ctx.count("bad_block_code");
            let ser = f.serialise();
            // a place where a block code is expected
            let mut places = vec![];
            for (i, b) in f.blocks.iter().enumerate() {
                if matches!(
                    b,
                    MBlock::Gce(_)
                        | MBlock::Comment(_)
                        | MBlock::App(_)
                        | MBlock::Plain(_)
                        | MBlock::Unknown(_, _)
                        | MBlock::Desc(_)
                        | MBlock::Trailer
                ) {
                    places.push(ser.ends[i - 1]);
                }
            }
            let at = src.pick(&places);
            let mut bytes = ser.bytes.clone();
            let mut c = src.byte();
            if [0x21, 0x2C, 0x3B].contains(&c) {
                c = 0;
            }
            if src.chance(1, 2) {
                bytes.insert(at, c);
            } else {
                bytes[at] = c;
            }
            let (a, b, c) = all("InvalidBlockCode".into(), at);
            Broken {
                bytes,
                blocks: a,
                frames: b,
                steps: c,
                want_file: f,
                want_ser: ser,
            }
        }
        3 => {
            ctx.count("bad_control_length");
            // a control block before frame k's descriptor
            let di = desc_index(&f, datas[k]);
            let ser = f.serialise();
            let at = ser.ends[di - 1];
            let mut n = src.usize(1, 255);
            if n == 4 {
                n = 5;
            }
            let mut ext = vec![0x21, 0xF9, n as u8];
            ext.extend(gen_bytes(src, n, n));
            ext.push(0);
            let mut bytes = ser.bytes.clone();
            // replace an existing control, or insert
            let (s, e) = if di > 0 && matches!(f.blocks[di - 1], MBlock::Gce(_))
            {
                (ser.ends[di - 2], ser.ends[di - 1])
            } else {
                (at, at)
            };
            bytes.splice(s..e, ext);
            let (a, b, c) = all("MalformedGraphicControlExtension".into(), s);
            Broken {
                bytes,
                blocks: a,
                frames: b,
                steps: c,
                want_file: f,
                want_ser: ser,
            }
        }
        4 | 5 => {
            // image data which ends early or has an invalid code
            let ser = f.serialise();
            let s = ser.ends[datas[k] - 1];
            let e = ser.ends[datas[k]];
            let MBlock::Data(px) = &f.blocks[datas[k]] else {
                unreachable!()
            };
            let min = need_bits(px);
            let mut keep = src.usize(0, px.len() - 1);
            if class == 5 && src.chance(1, 8) {
                // the image is complete, but the stream goes on
                keep = px.len();
            }
            let mut st = gen_strat(src, min, true);
            st.surplus = 0;
            st.junk = 0;
            let mut raw = vec![min];
            let err;
            if class == 4 {
                ctx.count("too_few_pixels");
                // without an end code, bits to fill the last byte could be a
                // code, so keep the end code
                st.end = true;
                let (lz, _) = lzw_encode(&px[..keep], &st);
                put_data_subs(&mut raw, &lz, &st);
                err = "IncompleteImageData";
            } else {
                ctx.count("bad_lzw_code");
                let Some(lz) = bad_lzw(src, &px[..keep], min) else {
                    return Ok(());
                };
                put_data_subs(&mut raw, &lz, &st);
                err = "InvalidLzwData";
            }
            let mut bytes = ser.bytes.clone();
            bytes.splice(s..e, raw);
            let (a, b, c) = all(err.into(), s);
            Broken {
                bytes,
                blocks: a,
                frames: b,
                steps: c,
                want_file: f,
                want_ser: ser,
            }
        }
        6 => {
            ctx.count("two_controls");
            let di = desc_index(&f, datas[k]);
            let g = gen_gce(src, &[]);
            f.blocks.insert(di, MBlock::Gce(g));
            let mut at = di;
            if !matches!(f.blocks[di - 1], MBlock::Gce(_)) {
                let g = gen_gce(src, &[]);
                f.blocks.insert(di, MBlock::Gce(g));
                at += 1;
                // an extension may hide the first control
                if let Some(i) =
                    (0..di).rev().take_while(|i| ext_only(&f.blocks[*i])).last()
                    && i > 0
                    && matches!(f.blocks[i - 1], MBlock::Gce(_))
                {
                    // already a control before: error is at the first inserted
                    at = di;
                }
            }
            let ser = f.serialise();
            let s = ser.ends[at - 1];
            let e = "InvalidBlockSequence".to_string();
            Broken {
                bytes: ser.bytes.clone(),
                blocks: None,
                frames: Some((e.clone(), s)),
                steps: Some((e, s)),
                want_file: f,
                want_ser: ser,
            }
        }
        7 => {
            ctx.count("outside_screen");
            let (p, _) = f.preamble();
            let di = desc_index(&f, datas[k]);
            let MBlock::Desc(d) = &mut f.blocks[di] else {
                unreachable!()
            };
            let by = |base: u16, n: u64| base.saturating_add(1 + n as u16);
            match src.draw(6) {
                // larger than the screen
                4 | 5 if p.w < 65535 && p.h < 65535 => {
                    let (w, h) = (d.w, d.h);
                    if src.chance(1, 2) {
                        d.w = by(p.w, src.draw(3));
                        d.l = src.draw(2) as u16;
                    } else {
                        d.h = by(p.h, src.draw(3));
                        d.t = src.draw(2) as u16;
                    }
                    ctx.note(|| format!("frame {k} was {w}x{h}"));
                    let n = d.pixels();
                    if let MBlock::Data(px) = &mut f.blocks[datas[k]] {
                        px.resize(n, 0);
                    }
                }
                0 => d.l = by(p.w - d.w, src.draw(3)),
                1 => d.t = by(p.h - d.h, src.draw(3)),
                // at least at the edge of the screen
                2 => d.l = src.pick(&[65535, 65534, 32768, p.w]).max(p.w),
                _ => d.t = src.pick(&[65535, 65534, 32768, p.h]).max(p.h),
            }
            let ser = f.serialise();
            let s = ser.ends[datas[k] - 1];
            Broken {
                bytes: ser.bytes.clone(),
                blocks: None,
                frames: None,
                steps: Some(("InvalidFrameDimensions".into(), s)),
                want_file: f,
                want_ser: ser,
            }
        }
        8 => {
            ctx.count("no_table");
            // no global table; frame k has no local table
            f.blocks.retain(|b| !matches!(b, MBlock::Gct(_)));
            if let MBlock::Lsd { flags, .. } = &mut f.blocks[1] {
                *flags &= 0x7F;
            }
            let mut i = 0;
            let mut blocks = Vec::with_capacity(2 * f.blocks.len());
            let mut it = std::mem::take(&mut f.blocks).into_iter().peekable();
            while let Some(b) = it.next() {
                let MBlock::Desc(mut d) = b else {
                    i += matches!(b, MBlock::Data(_)) as usize;
                    blocks.push(b);
                    continue;
                };
                let has = matches!(it.peek(), Some(MBlock::Lct(_)));
                if i == k && has {
                    it.next();
                    d.flags &= 0x7F;
                    blocks.push(MBlock::Desc(d));
                } else if i != k && !has {
                    d.flags |= 0x87;
                    blocks.push(MBlock::Desc(d));
                    blocks.push(MBlock::Lct(gen_table(src, 7)));
                } else {
                    blocks.push(MBlock::Desc(d));
                }
            }
            f.blocks = blocks;
            let ser = f.serialise();
            let data = f.frames()[k].1;
            let s = ser.ends[data - 1];
            Broken {
                bytes: ser.bytes.clone(),
                blocks: None,
                frames: None,
                steps: Some(("MissingColorTable".into(), s)),
                want_file: f,
                want_ser: ser,
            }
        }
        _ => {
            ctx.count("bad_index");
            // a pixel of frame k beyond its table
            let (p, _) = f.preamble();
            let (fr, di) = f.frames()[k].clone();
            let len = fr.lct.as_ref().or(p.gct.as_ref()).unwrap().len() / 3;
            if len == 256 {
                return Ok(());
            }
            let idx = if src.chance(1, 2) {
                len
            } else {
                src.usize(len, 255)
            } as u8;
            if fr.gce.and_then(|g| g.transparent()) == Some(idx) {
                return Ok(());
            }
            if let MBlock::Data(px) = &mut f.blocks[di] {
                let i = src.usize(0, px.len() - 1);
                px[i] = idx;
                let nb = need_bits(px);
                let st = &mut f.strats[k];
                st.min = st.min.max(nb);
            }
            let ser = f.serialise();
            let s = ser.ends[di - 1];
            Broken {
                bytes: ser.bytes.clone(),
                blocks: None,
                frames: None,
                steps: Some(("InvalidColorIndex".into(), s)),
                want_file: f,
                want_ser: ser,
            }
        }
    };
    ctx.nontrivial();
    workload(
        ctx,
        &b.want_file,
        &Ser {
            bytes: b.bytes.clone(),
            ends: b.want_ser.ends.clone(),
            lzw: b.want_ser.lzw,
        },
    );
    let data = Rc::new(b.bytes.clone());
    for mode in MODES {
        let mode = *mode;
        let e = match mode {
            Mode::Blocks => &b.blocks,
            Mode::Frames | Mode::PreFrames => &b.frames,
            Mode::Steps | Mode::Looping => &b.steps,
        };
        let plan = if src.chance(1, 2) {
            ReadPlan::gen_(src, data.len())
        } else {
            ReadPlan::ideal()
        };
        let got = sim_drain(ctx, &data, plan, mode, Limit::Default, 400_000);
        let what = format!("{mode:?}, malformation class {class}");
        match e {
            Some((err, at)) => {
                let want = expected_before(&b.want_file, &b.want_ser, mode, *at);
                check_cut(&what, ctx, &want, *at, err, &got, mode)?
            }
            None => {
                ctx.checked();
                let want: Vec<Item> = expected(&b.want_file, &b.want_ser, mode)
                    .into_iter()
                    .map(|i| i.0)
                    .collect();
                same_items(&what, &got.items, &want)?;
            }
        }
    }
    Ok(())
}

fn ext_only(b: &MBlock) -> bool {
    matches!(
        b,
        MBlock::Comment(_) | MBlock::App(_) | MBlock::Unknown(_, _)
    )
}

/// Items complete before an offset (later frames may not be composable)
fn expected_before(
    f: &MFile,
    ser: &Ser,
    mode: Mode,
    at: usize,
) -> Vec<(Item, usize)> {
    match mode {
        Mode::Steps | Mode::Looping => {
            let (p, _) = f.preamble();
            let fr: Vec<(MFrame, usize)> = f
                .frames()
                .into_iter()
                .map(|(f, i)| (f, ser.ends[i]))
                .filter(|(_, e)| *e <= at)
                .collect();
            let frames: Vec<MFrame> = fr.iter().map(|f| f.0.clone()).collect();
            composite(&p, &frames)
                .into_iter()
                .zip(fr)
                .map(|(s, (_, e))| (Item::Step(s), e))
                .collect()
        }
        _ => expected(f, ser, mode)
            .into_iter()
            .filter(|(_, e)| *e <= at)
            .collect(),
    }
}

fn desc_index(f: &MFile, data: usize) -> usize {
    (0..data)
        .rev()
        .find(|i| matches!(f.blocks[*i], MBlock::Desc(_)))
        .expect("descriptor")
}

/// LZW stream with an undefined code after some good pixels
fn bad_lzw(src: &mut Source, px: &[u8], min: u8) -> Option<Vec<u8>> {
    let clear = 1u32 << min;
    let mut acc: u128 = 0;
    let mut n = 0;
    let mut out = vec![];
    let mut width = min as u32 + 1;
    let mut next = clear + 2;
    let mut first = true;
    let mut put = |code: u32, width: u32| {
        acc |= (code as u128) << n;
        n += width;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    put(clear, width);
    // literals only
    for p in px {
        if next >= 4090 {
            put(clear, width);
            next = clear + 2;
            width = min as u32 + 1;
            first = true;
        }
        put(*p as u32, width);
        if !first {
            next += 1;
        }
        first = false;
        if next == 1 << width && width < 12 {
            width += 1;
        }
    }
    let max = (1u32 << width) - 1;
    let code = if first {
        // no prefix: any code which is not a literal
        clear + 2 + src.draw((max - clear - 1) as u64) as u32
    } else {
        if next + 1 > max {
            return None;
        }
        next + 1 + src.draw((max - next) as u64) as u32
    };
    put(code, width);
    let mut r = Rng::new(7);
    for _ in 0..src.draw(4) {
        put(r.below(1 << width) as u32, width);
    }
    put(0, 7);
    Some(out)
}
