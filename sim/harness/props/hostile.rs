//! Hostile input, termination, limits
use super::decode::{gen_input, mutate};
use super::*;
use crate::alloc;
use crate::rng::Rng;

/// Put extreme sizes into the descriptors
fn extreme(src: &mut Source, bytes: &mut [u8], ends: &[usize]) {
    let v = |src: &mut Source| {
        src.pick(&[0u16, 1, 255, 256, 32767, 32768, 65535]).to_le_bytes()
    };
    if bytes.len() > 13 && src.chance(1, 2) {
        let (a, b) = (v(src), v(src));
        bytes[6..10].copy_from_slice(&[a[0], a[1], b[0], b[1]]);
    }
    for e in ends {
        if *e + 10 <= bytes.len() && bytes[*e] == 0x2C && src.chance(1, 2) {
            let i = src.usize(0, 3);
            let a = v(src);
            bytes[e + 1 + 2 * i..e + 3 + 2 * i].copy_from_slice(&a);
        }
    }
}

/// Hostile LZW data: codes are random or grow as fast as possible
fn bomb(src: &mut Source) -> Vec<u8> {
    let mut b = b"GIF89a".to_vec();
    let (w, h) = match src.draw(3) {
        0 => (src.usize(0, 3), src.usize(0, 3)),
        1 => gen_size(src, 3000),
        _ => (
            src.pick(&[0, 1, 256, 65535, 32768]),
            src.pick(&[0, 1, 256, 65535, 32768]),
        ),
    };
    let (w, h) = ((w as u16).to_le_bytes(), (h as u16).to_le_bytes());
    b.extend([w[0], w[1], h[0], h[1], 0x80, 0, 0, 0, 0, 0, 255, 255, 255]);
    let min = src.pick(&[2, 3, 7, 8, 0, 1, 9, 11, 12, 255]);
    let n_img = src.usize(1, 3);
    for _ in 0..n_img {
        b.extend([0x2C, 0, 0, 0, 0, w[0], w[1], h[0], h[1], 0, min]);
        let codes = match src.weighted(&[6, 1]) {
            0 => src.usize(0, 500),
            _ => src.usize(0, 6000),
        };
        let kind = src.draw(4);
        let seed = src.seed();
        let m = min.clamp(2, 8) as u32;
        let mut r = Rng::new(seed);
        let mut acc = 0u64;
        let mut n = 0;
        let mut data = vec![];
        let mut next = (1u32 << m) + 2;
        let mut width = m + 1;
        let mut put = |c: u32, width: u32| {
            acc |= (c as u64) << n;
            n += width;
            while n >= 8 {
                data.push(acc as u8);
                acc >>= 8;
                n -= 8;
            }
        };
        put(1 << m, width);
        put(0, width);
        for i in 0..codes {
            let c = match kind {
                // each code is one longer than the last
                0 => next.min(4095),
                1 => r.below(1 << width) as u32,
                // longest string again and again
                2 => {
                    if next < 4096 {
                        next
                    } else {
                        4095 - r.below(3) as u32
                    }
                }
                _ => {
                    if i % 97 == 96 {
                        1 << m
                    } else {
                        r.below(next as u64 + 1).min(4095) as u32
                    }
                }
            };
            put(c, width);
            if c == 1 << m {
                next = (1 << m) + 2;
                width = m + 1;
                continue;
            }
            if next < 4096 {
                next += 1;
            }
            if next == 1 << width && width < 12 {
                width += 1;
            }
        }
        put(0, 8);
        for c in data.chunks(255) {
            b.push(c.len() as u8);
            b.extend(c);
        }
        b.push(0);
    }
    b.push(0x3B);
    b
}

fn hostile(src: &mut Source, ctx: &Ctx) -> Vec<u8> {
    let mut o = GenOpts::new();
    o.max_px = 1500;
    o.render = src.chance(1, 2);
    match src.weighted(&[6, 3, 3, 2]) {
        0 => {
            ctx.count("mutated");
            gen_input(src, &o).0
        }
        1 => {
            ctx.count("extreme_sizes");
            let f = gen_file(src, &o);
            let ser = f.serialise();
            let mut b = ser.bytes.clone();
            extreme(src, &mut b, &ser.ends);
            if src.chance(1, 3) {
                mutate(src, &mut b, &ser.ends);
            }
            b
        }
        2 => {
            ctx.count("lzw_bomb");
            bomb(src)
        }
        _ => {
            ctx.count("spliced");
            let a = gen_file(src, &o).serialise();
            let b = gen_file(src, &o).serialise();
            let i = src.pick(&a.ends);
            let j = src.pick(&b.ends);
            let mut v = a.bytes[..i].to_vec();
            v.extend(&b.bytes[j..]);
            if src.chance(1, 2) {
                v.extend(&a.bytes[i..]);
            }
            v
        }
    }
}

/// C08: an error ends iteration
pub fn c08(src: &mut Source, ctx: &Ctx) -> Check {
    let bytes = hostile(src, ctx);
    ctx.event("input", hash_bytes(&bytes), bytes.len() as u64);
    ctx.sample(|| format!("{} bytes", bytes.len()));
    ctx.note(|| dump(&bytes));
    let len = bytes.len();
    let data = Rc::new(bytes);
    for mode in MODES {
        let mode = *mode;
        let mut plan = ReadPlan::gen_(src, len);
        if src.chance(1, 3) {
            let at = src.usize(0, len);
            plan.fail = Some((at, gen_inject(src), src.chance(1, 2)));
        }
        let limit = Limit::Set(Some(src.pick(&[1 << 16, 1 << 12, 100])));
        maybe_log(src, ctx, len);
        ctx.event("session", mode as u64, 0);
        let r = SimReader::new(ctx, data.clone(), plan);
        let st = r.state();
        let mut s = Session::new(r, mode, limit);
        let cap = if mode == Mode::Looping { 20 } else { len + 4 };
        let mut n = 0;
        ctx.checked();
        loop {
            match s.step() {
                None => break,
                Some(Ok(())) => {
                    n += 1;
                    if n > cap {
                        if mode == Mode::Looping {
                            break;
                        }
                        return violation(
                            "endless",
                            format!("{mode:?}: {n} items from {len} bytes"),
                        );
                    }
                }
                Some(Err(e)) => {
                    ctx.count("errors_seen");
                    ctx.nontrivial();
                    ctx.event("error", hash_bytes(e.as_bytes()), n as u64);
                    if let Some(i) = s.step() {
                        return violation(
                            "after_error",
                            format!("{mode:?}: after {e}: {i:?} instead of the end"),
                        );
                    }
                    break;
                }
            }
        }
        log::set_max_level(log::LevelFilter::Off);
        let st = st.borrow();
        let calls = st.calls - st.interrupted;
        let max = 2 * len as u64 + 100;
        if calls > max {
            return violation(
                "reads",
                format!("{mode:?}: {calls} reads for {len} bytes"),
            );
        }
    }
    Ok(())
}

/// C09: no panic, no hang, bounded memory
pub fn c09(src: &mut Source, ctx: &Ctx) -> Check {
    let bytes = hostile(src, ctx);
    ctx.event("input", hash_bytes(&bytes), bytes.len() as u64);
    ctx.sample(|| format!("{} bytes", bytes.len()));
    ctx.note(|| dump(&bytes));
    let len = bytes.len();
    let data = Rc::new(bytes);
    let again = src.usize(1, 6);
    for mode in MODES {
        let mode = *mode;
        let max = src.pick(&[1 << 12, 0, 1, 100, 1 << 16, 1 << 18]);
        let mut plan = ReadPlan::gen_(src, len);
        if src.chance(1, 6) {
            let at = src.usize(0, len);
            plan.fail = Some((at, gen_inject(src), src.chance(1, 2)));
        }
        maybe_log(src, ctx, len);
        ctx.event("session", mode as u64, max as u64);
        let r = SimReader::new(ctx, data.clone(), plan);
        let base = alloc::start();
        let mut s = Session::new(r, mode, Limit::Set(Some(max)));
        let mut ends = 0;
        let mut n = 0;
        let cap = if mode == Mode::Looping { 30 } else { 2000 };
        while ends < again && n < cap {
            match s.step() {
                None => ends += 1,
                Some(Err(_)) => {
                    ctx.count("errors_seen");
                    ctx.nontrivial();
                }
                Some(Ok(())) => n += 1,
            }
        }
        log::set_max_level(log::LevelFilter::Off);
        drop(s);
        let peak = alloc::peak_since(base);
        ctx.checked();
        ctx.event("items", n as u64, ends as u64);
        let bound = (4 << 20) + 32 * max + 64 * len;
        if mode != Mode::Looping && peak > bound {
            return violation(
                "memory",
                format!(
                    "{mode:?}: peak heap {peak} for {len} bytes and limit {max} (bound {bound})"
                ),
            );
        }
    }
    Ok(())
}

/// C10: size limit
pub fn c10(src: &mut Source, ctx: &Ctx) -> Check {
    if src.chance(1, 3) {
        return c10_huge(src, ctx);
    }
    let mut o = GenOpts::new();
    o.max_px = 2000;
    o.frames = 6;
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let frames = f.frames();
    let (p, _) = f.preamble();
    let screen = p.w as usize * p.h as usize;
    let k = src.usize(0, frames.len() - 1);
    let px = frames[k].0.desc.pixels();
    let max = match src.weighted(&[4, 4, 2, 2, 2]) {
        0 => px,
        1 => px - 1,
        2 => screen,
        3 => screen - 1,
        _ => src.usize(0, screen + 2),
    };
    let data = Rc::new(ser.bytes.clone());
    let limit = if src.chance(1, 6) {
        ctx.count("limit_set_twice");
        let first = src.pick(&[Some(0), Some(1 << 20), None, Some(px)]);
        Limit::Twice(first, Some(max))
    } else {
        Limit::Set(Some(max))
    };
    // first image which is too large
    let big = frames.iter().find(|(f, _)| f.desc.pixels() > max).map(|b| b.1);
    ctx.event("limit", max as u64, big.unwrap_or(0) as u64);
    for mode in MODES {
        let mode = *mode;
        let plan = ReadPlan::gen_(src, data.len());
        let r = SimReader::new(ctx, data.clone(), plan);
        let st = r.state();
        ctx.event("session", mode as u64, 0);
        let got = drain(r, Some(st), mode, limit, 400_000);
        let want = expected(&f, &ser, mode);
        let steps = matches!(mode, Mode::Steps | Mode::Looping);
        let what = format!("{mode:?}, limit {max}");
        if steps && screen > max {
            ctx.checked();
            ctx.nontrivial();
            ctx.count("screen_refused");
            same_items(&what, &got.items, &[Item::Err("TooLargeImage".into())])?;
        } else if let Some(d) = big {
            ctx.nontrivial();
            ctx.count("image_refused");
            let desc = (0..d)
                .rev()
                .find(|i| matches!(f.blocks[*i], MBlock::Desc(_)))
                .unwrap();
            let at = ser.ends[desc] - 1;
            check_cut(&what, ctx, &want, at, "TooLargeImage", &got, mode)?;
            if mode != Mode::Looping {
                let pos = *got.pos.last().unwrap();
                if pos > ser.ends[d - 1] {
                    return violation(
                        "position",
                        format!("{what}: pixel data was read before the refusal"),
                    );
                }
            }
        } else {
            ctx.checked();
            ctx.count("all_allowed");
            if mode == Mode::Looping {
                if got.items.len() < want.len() {
                    return violation("missing", format!("{what}: {} items", got.items.len()));
                }
                for (g, w) in got.items.iter().zip(&want) {
                    if *g != w.0 {
                        return violation("content", format!("{what}: {}", short(g)));
                    }
                }
            } else {
                let w: Vec<Item> = want.into_iter().map(|i| i.0).collect();
                same_items(&what, &got.items, &w)?;
            }
        }
    }
    Ok(())
}

/// A huge image is allowed: its descriptor is yielded
fn c10_allowed(
    src: &mut Source,
    ctx: &Ctx,
    (w, h): (u16, u16),
    limit: Limit,
) -> Check {
    let mut f = MFile::default();
    f.blocks.push(MBlock::Header(*b"89a"));
    f.blocks.push(MBlock::Lsd {
        w,
        h,
        flags: 0,
        bg: 0,
        aspect: 0,
    });
    let desc = MDesc {
        l: 0,
        t: 0,
        w,
        h,
        flags: 0,
    };
    f.blocks.push(MBlock::Desc(desc));
    let ser = f.serialise();
    ctx.event("input", hash_bytes(&ser.bytes), ser.bytes.len() as u64);
    ctx.nontrivial();
    ctx.count("huge_descriptor_allowed");
    let plan = ReadPlan::gen_(src, ser.bytes.len());
    let data = Rc::new(ser.bytes);
    let got = sim_drain(ctx, &data, plan, Mode::Blocks, limit, 3);
    ctx.checked();
    let want: Vec<Item> = f.blocks.into_iter().map(Item::Block).collect();
    same_items(&format!("Blocks {w}x{h} {limit:?}"), &got.items, &want)
}

/// Sizes near the default limit and sizes whose product is special
fn c10_huge(src: &mut Source, ctx: &Ctx) -> Check {
    let pairs: &[(u16, u16)] = &[
        (8192, 4096),
        (8192, 4097),
        (8193, 4096),
        (4096, 8192),
        (65535, 512),
        (65535, 513),
        (512, 65535),
        (513, 65535),
        (65535, 65535),
        (32768, 32768),
        (46341, 46341),
        (46340, 46340),
        (65535, 32769),
        (32768, 1024),
        (32768, 1025),
        (256, 256),
        (65535, 1),
        (1, 65535),
        (256, 257),
    ];
    let (w, h) = src.pick(pairs);
    if src.chance(1, 40) {
        // an image without pixels is not too large
        ctx.count("no_pixels");
        let side = if src.chance(1, 2) { (w, 0) } else { (0, h) };
        let max = src.pick(&[0, 1, 255]);
        return c10_allowed(src, ctx, side, Limit::Set(Some(max)));
    }
    let px = w as usize * h as usize;
    let limit = match src.weighted(&[5, 2, 2, 1, 1, 1]) {
        0 => Limit::Default,
        1 => Limit::Set(Some(px)),
        2 => Limit::Set(Some(px - 1)),
        3 => Limit::Set(Some(px & 0xFFFF)),
        4 => Limit::Twice(Some(px), None),
        _ => Limit::Set(None),
    };
    let max = match limit {
        Limit::Default => Some(1 << 25),
        Limit::Set(m) | Limit::Twice(_, m) => m,
    };
    let refused = max.is_some_and(|m| px > m);
    // the image is big, or (steps) the screen is
    let screen = src.chance(1, 2);
    let mode = if screen {
        src.pick(&[Mode::Steps, Mode::Looping])
    } else {
        src.pick(MODES)
    };
    if !refused && (px > 1 << 22 && (screen || px > 500_000_000)) {
        // real memory would be needed
        if !screen {
            return c10_allowed(src, ctx, (w, h), limit);
        }
        if !(px == 1 << 25 && src.chance(1, 60)) {
            return Ok(());
        }
        ctx.count("large_screen_composed");
    }
    // a small frame first
    let mut f = MFile::default();
    f.blocks.push(MBlock::Header(*b"89a"));
    let (sw, sh) = if screen { (w, h) } else { (4, 4) };
    f.blocks.push(MBlock::Lsd {
        w: sw,
        h: sh,
        flags: 0x80,
        bg: 0,
        aspect: 0,
    });
    f.blocks.push(MBlock::Gct(vec![1, 2, 3, 4, 5, 6]));
    // a screen may be only one pixel wide or high
    let side = if screen { 1 } else { 2 };
    let small = MDesc {
        l: 0,
        t: 0,
        w: side,
        h: side,
        flags: 0,
    };
    let small_px = [0, 1, 1, 0][..(side * side) as usize].to_vec();
    let n_small = if screen { 1 } else { src.usize(0, 2) };
    for _ in 0..n_small {
        f.blocks.push(MBlock::Desc(small));
        f.blocks.push(MBlock::Data(small_px.clone()));
        f.strats.push(LzwStrat::plain(2));
    }
    if n_small > 0 && max.is_some_and(|m| m < 4 || (!screen && m < 16)) {
        return Ok(());
    }
    if !screen {
        f.blocks.push(MBlock::Desc(MDesc { w, h, ..small }));
        // not enough pixels, whatever its size
        f.blocks.push(MBlock::Data(vec![0, 1, 1, 0]));
        f.strats.push(LzwStrat::plain(2));
    }
    f.blocks.push(MBlock::Trailer);
    let ser = f.serialise();
    ctx.event("input", hash_bytes(&ser.bytes), ser.bytes.len() as u64);
    ctx.event("limit", max.unwrap_or(0) as u64, mode as u64);
    ctx.sample(|| format!("{mode:?} {w}x{h} {limit:?} screen={screen}"));
    ctx.nontrivial();
    ctx.count(if refused { "huge_refused" } else { "huge_allowed" });
    let data = Rc::new(ser.bytes.clone());
    let plan = ReadPlan::gen_(src, data.len());
    let base = alloc::start();
    let r = SimReader::new(ctx, data, plan);
    let mut s = Session::new(r, mode, limit);
    let mut ok = 0;
    let mut err = None;
    while ok < 20 {
        match s.step() {
            None => break,
            Some(Ok(())) => ok += 1,
            Some(Err(e)) => {
                err = Some(e);
                break;
            }
        }
    }
    drop(s);
    let peak = alloc::peak_since(base);
    ctx.checked();
    let what = format!("{mode:?} {w}x{h} {limit:?} screen={screen}");
    let want = if refused {
        Some("TooLargeImage")
    } else if screen {
        None
    } else {
        Some("IncompleteImageData")
    };
    if err.as_deref() != want {
        return violation("limit", format!("{what}: {err:?}, should be {want:?}"));
    }
    if refused && peak > 1 << 20 {
        return violation("memory", format!("{what}: refused with {peak} bytes used"));
    }
    Ok(())
}
