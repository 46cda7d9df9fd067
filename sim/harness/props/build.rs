//! Blocks and steps built by histories of setter calls
use super::encode::{Enc, GStep, gen_pal, gstep_plain};
use super::*;
use gift::block::*;
use gift::{Encoder, Step};
use pix::{Raster, rgb::SRgba8};

/// Flags of which only some bits are determined
#[derive(Clone, Copy, Debug)]
struct Flags {
    bits: u8,
    known: u8,
}

impl Flags {
    fn set(&mut self, mask: u8, bits: u8) {
        self.bits = (self.bits & !mask) | (bits & mask);
        self.known |= mask;
    }
    fn same(&self, flags: u8) -> bool {
        (flags ^ self.bits) & self.known == 0
    }
}

fn gen_u16(src: &mut Source) -> u16 {
    match src.weighted(&[2, 2, 1]) {
        0 => src.draw(300) as u16,
        1 => src.draw(65536) as u16,
        _ => src.pick(&[255, 256, 257, 32767, 32768, 65535]),
    }
}

/// Length asked for, and bits which say it
fn gen_len(src: &mut Source) -> (u16, u8) {
    let n = match src.weighted(&[4, 2, 1]) {
        0 => src.draw(258) as u16,
        1 => src.pick(&[2, 4, 8, 16, 32, 64, 128, 256]),
        _ => gen_u16(src),
    };
    let mut bits = 0;
    while bits < 7 && (2u32 << bits) < n as u32 {
        bits += 1;
    }
    (n, bits)
}

/// Colour table configuration: value, present, sorted, bits of the size
fn gen_config(src: &mut Source) -> Result<(ColorTableConfig, bool, bool, u8), String> {
    let (n, bits) = gen_len(src);
    let (present, sorted) = (src.chance(2, 3), src.chance(1, 2));
    let c = ColorTableConfig::new(
        if present {
            ColorTableExistence::Present
        } else {
            ColorTableExistence::Absent
        },
        if sorted {
            ColorTableOrdering::Sorted
        } else {
            ColorTableOrdering::NotSorted
        },
        n,
    );
    config_is(&c, present, sorted, bits).map_err(|e| format!("length {n}: {e}"))?;
    Ok((c, present, sorted, bits))
}

fn config_is(c: &ColorTableConfig, present: bool, sorted: bool, bits: u8) -> Result<(), String> {
    let len = if present { 2usize << bits } else { 0 };
    let ok = c.len() == len
        && c.is_empty() == (len == 0)
        && c.size_bytes() == 3 * len
        && (c.existence() == ColorTableExistence::Present) == present
        && (c.ordering() == ColorTableOrdering::Sorted) == sorted;
    if ok {
        Ok(())
    } else {
        Err(format!(
            "{c:?}, should be present {present} sorted {sorted} size {len}"
        ))
    }
}

type Built<T> = Result<T, String>;

/// Values which a getter tells apart are not equal
fn told_apart<T, G>(a: (T, G), b: (T, G)) -> Built<()>
where
    T: Clone + PartialEq + std::fmt::Debug,
    G: PartialEq,
{
    if a.1 != b.1 && a.0 == b.0 {
        return Err(format!("{:?} is equal to {:?}", a.0, b.0));
    }
    if b.0.clone() != b.0 {
        return Err(format!("{:?} is not equal to its clone", b.0));
    }
    Ok(())
}

/// Screen descriptor
fn build_lsd(src: &mut Source, ops: &mut u64) -> Built<(LogicalScreenDesc, u16, u16, Flags, u8, u8)> {
    let mut b = LogicalScreenDesc::default();
    let (mut w, mut h, mut bg, mut aspect) = (0, 0, 0, 0);
    let mut flags = Flags {
        bits: 0,
        known: 0x80,
    };
    let all = |b: &LogicalScreenDesc| {
        let (bg, aspect) = (b.background_color_idx(), b.pixel_aspect_ratio());
        (b.screen_width(), b.screen_height(), b.flags(), bg, aspect)
    };
    for i in 0..src.usize(0, 9) {
        *ops += 1;
        let before = (b, all(&b));
        let op = src.draw(6);
        match op {
            0 => {
                w = gen_u16(src);
                b = b.with_screen_width(w);
            }
            1 => {
                h = gen_u16(src);
                b = b.with_screen_height(h);
            }
            2 => {
                bg = src.byte();
                b = b.with_background_color_idx(bg);
            }
            3 => {
                aspect = src.byte();
                b = b.with_pixel_aspect_ratio(aspect);
            }
            4 => {
                let f = src.byte();
                flags.set(0xFF, f);
                b = b.with_flags(f);
            }
            _ => {
                let (c, present, sorted, bits) = gen_config(src)?;
                b = b.with_color_table_config(c);
                // size of a table which is absent, and colour resolution,
                // are left open
                flags.known = 0;
                flags.set(0x88, (present as u8) << 7 | (sorted as u8) << 3);
                if present {
                    flags.set(7, bits);
                }
            }
        }
        let c = b.color_table_config();
        let f = b.flags();
        if (b.screen_width(), b.screen_height()) != (w, h)
            || (b.background_color_idx(), b.pixel_aspect_ratio()) != (bg, aspect)
            || !flags.same(f)
            || b.color_resolution() != 2 << ((f >> 4) & 7)
        {
            return Err(format!(
                "call {i} ({op}): {b:?}, should be {w}x{h} bg {bg} aspect {aspect} {flags:?}"
            ));
        }
        config_is(&c, f & 0x80 != 0, f & 8 != 0, f & 7)?;
        told_apart(before, (b, all(&b)))?;
        let o = LogicalScreenDesc::default()
            .with_screen_width(w)
            .with_screen_height(h);
        if !b.equal_size(o)
            || b.equal_size(o.with_screen_width(w ^ 1))
            || b.equal_size(o.with_screen_height(h ^ 0x100))
        {
            return Err(format!("call {i}: equal_size of {b:?}"));
        }
    }
    Ok((b, w, h, flags, bg, aspect))
}

/// Image descriptor
fn build_desc(src: &mut Source, ops: &mut u64, size: (u16, u16)) -> Built<(ImageDesc, MDesc, Flags)> {
    let mut b = ImageDesc::default();
    let mut m = MDesc::default();
    let mut flags = Flags {
        bits: 0,
        known: 0xC0,
    };
    let all = |b: &ImageDesc| (b.left(), b.top(), b.width(), b.height(), b.flags());
    let n = src.usize(0, 9);
    for i in 0..n + 2 {
        *ops += 1;
        let before = (b, all(&b));
        // the last calls set the size
        let op = if i < n { src.draw(7) } else { (i - n) as u64 };
        match op {
            0 => {
                m.w = if i < n { gen_u16(src) } else { size.0 };
                b = b.with_width(m.w);
            }
            1 => {
                m.h = if i < n { gen_u16(src) } else { size.1 };
                b = b.with_height(m.h);
            }
            2 => {
                m.l = gen_u16(src);
                b = b.with_left(m.l);
            }
            3 => {
                m.t = gen_u16(src);
                b = b.with_top(m.t);
            }
            4 => {
                let f = src.byte();
                flags.set(0xFF, f);
                b = b.with_flags(f);
            }
            5 => {
                let v = src.chance(1, 2);
                flags.set(0x40, (v as u8) << 6);
                b = b.with_interlaced(v);
            }
            _ => {
                let (c, present, sorted, bits) = gen_config(src)?;
                b = b.with_color_table_config(c);
                flags.known &= 0x58;
                flags.set(0xA0, (present as u8) << 7 | (sorted as u8) << 5);
                if present {
                    flags.set(7, bits);
                }
            }
        }
        let f = b.flags();
        if (b.left(), b.top(), b.width(), b.height()) != (m.l, m.t, m.w, m.h)
            || !flags.same(f)
            || b.interlaced() != (f & 0x40 != 0)
            || b.image_sz() != m.w as usize * m.h as usize
        {
            return Err(format!("call {i} ({op}): {b:?}, should be {m:?} {flags:?}"));
        }
        config_is(&b.color_table_config(), f & 0x80 != 0, f & 0x20 != 0, f & 7)?;
        told_apart(before, (b, all(&b)))?;
    }
    Ok((b, m, flags))
}

fn disposal(n: u8) -> DisposalMethod {
    match n {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        n => DisposalMethod::Reserved(n),
    }
}

/// Graphic control; the index is not determined after it was removed
fn build_gce(src: &mut Source, ops: &mut u64) -> Built<(GraphicControl, MGce, bool)> {
    let mut b = GraphicControl::default();
    let mut m = MGce::default();
    let mut known = true;
    let all = |b: &GraphicControl| (b.flags(), b.delay_time_cs(), b.transparent_color());
    for i in 0..src.usize(0, 9) {
        *ops += 1;
        let before = (b, all(&b));
        let op = src.draw(7);
        match op {
            0 => {
                m.delay = gen_u16(src);
                b.set_delay_time_cs(m.delay);
            }
            1 => {
                let d = src.draw(8) as u8;
                m.flags = (m.flags & !0x1C) | (d << 2);
                b.set_disposal_method(disposal(d));
            }
            2 => {
                let u = src.chance(1, 2);
                m.flags = (m.flags & !2) | ((u as u8) << 1);
                b.set_user_input(u);
            }
            3 => {
                m.trans = src.byte();
                m.flags |= 1;
                known = true;
                b.set_transparent_color(Some(m.trans));
            }
            4 => {
                m.flags &= !1;
                known = false;
                b.set_transparent_color(None);
            }
            5 => {
                m.trans = src.byte();
                known = true;
                b.set_transparent_color_idx(m.trans);
            }
            _ => {
                m.flags = src.byte();
                b.set_flags(m.flags);
                if !known {
                    m.trans = b.transparent_color_idx();
                    known = true;
                }
            }
        }
        if b.flags() != m.flags
            || b.delay_time_cs() != m.delay
            || b.disposal_method() != disposal(m.disposal())
            || b.user_input() != (m.flags & 2 != 0)
            || (known && b.transparent_color_idx() != m.trans)
            || b.transparent_color() != m.transparent()
        {
            return Err(format!("call {i} ({op}): {b:?}, should be {m:?}"));
        }
        told_apart(before, (b, all(&b)))?;
    }
    Ok((b, m, known))
}

/// Call which must panic, as documented
fn refused(what: &str, f: impl FnOnce()) -> Built<()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => Err(format!("{what} is not refused")),
        Err(_) => Ok(()),
    }
}

/// Length which no sub-block can have
fn bad_len(src: &mut Source) -> Option<Vec<u8>> {
    src.chance(1, 10).then(|| {
        let n = match src.draw(4) {
            0 => 0,
            1 => 256,
            2 => 512,
            _ => src.usize(257, 70_000),
        };
        vec![7; n]
    })
}

/// Color tables which are not whole colors
fn bad_tables(src: &mut Source) -> Built<()> {
    let n = src.usize(0, 260) * 3 + src.usize(1, 2);
    let v = vec![1; n];
    refused(&format!("global table of {n} bytes"), || {
        GlobalColorTable::with_colors(&v);
    })?;
    refused(&format!("local table of {n} bytes"), || {
        LocalColorTable::with_colors(&v);
    })
}

/// Extension with sub-blocks
fn build_ext(src: &mut Source, ops: &mut u64) -> Built<(Block, MBlock)> {
    let mut v = gen_subs(src);
    v.truncate(1500);
    *ops += v.len() as u64;
    let bad = bad_len(src);
    let at = src.usize(0, v.len());
    let what = || format!("sub-block of {} bytes", bad.as_ref().map_or(0, |b| b.len()));
    Ok(match src.draw(5) {
        0 => {
            let mut b = Comment::default();
            for i in 0..=v.len() {
                if b.comments()[..] != v[..i] {
                    return Err(format!("{b:?}, should be {:?}", &v[..i]));
                }
                if let (true, Some(bad)) = (i == at, &bad) {
                    refused(&what(), || b.add_comment(bad))?;
                }
                if i < v.len() {
                    b.add_comment(&v[i]);
                }
            }
            (b.into(), MBlock::Comment(v))
        }
        1 => {
            let mut b = Application::default();
            for i in 0..=v.len() {
                if b.app_data()[..] != v[..i] || b.loop_count() != loop_count(&v[..i]) {
                    return Err(format!("{b:?}, should be {:?}", &v[..i]));
                }
                if let (true, Some(bad)) = (i == at, &bad) {
                    refused(&what(), || b.add_app_data(bad))?;
                }
                if i < v.len() {
                    b.add_app_data(&v[i]);
                }
            }
            (b.into(), MBlock::App(v))
        }
        2 => {
            let mut b = PlainText::default();
            for i in 0..=v.len() {
                if b.sub_blocks()[..] != v[..i] {
                    return Err(format!("{b:?}, should be {:?}", &v[..i]));
                }
                if let (true, Some(bad)) = (i == at, &bad) {
                    refused(&what(), || b.add_sub_block(bad))?;
                }
                if i < v.len() {
                    b.add_sub_block(&v[i]);
                }
            }
            (b.into(), MBlock::Plain(v))
        }
        3 => {
            let id = 2 + src.draw(0xF7) as u8;
            let mut b = Unknown::default();
            if !b.ext_id().is_empty() || !b.sub_blocks().is_empty() {
                return Err(format!("{b:?}, should be empty"));
            }
            b.add_sub_block(&[id]);
            for i in 0..=v.len() {
                if b.ext_id() != [id] || b.sub_blocks()[..] != v[..i] {
                    return Err(format!("{b:?}, should be {id} {:?}", &v[..i]));
                }
                if let (true, Some(bad)) = (i == at, &bad) {
                    refused(&what(), || b.add_sub_block(bad))?;
                }
                if i < v.len() {
                    b.add_sub_block(&v[i]);
                }
            }
            (b.into(), MBlock::Unknown(id, v))
        }
        _ => {
            let n = gen_loop_count(src);
            let b = Application::with_loop_count(n);
            if b.loop_count() != Some(n) {
                return Err(format!("{b:?}, should be a loop count of {n}"));
            }
            let v = b.app_data().clone();
            if loop_count(&v) != Some(n) {
                return Err(format!("{v:?} is not a loop count of {n}"));
            }
            (b.into(), MBlock::App(v))
        }
    })
}

/// Pixels put into image data bit by bit
fn build_data(src: &mut Source, ops: &mut u64, px: &[u8]) -> Built<ImageData> {
    let n = src.pick(&[0, 1, px.len(), px.len() + 9]);
    let mut b = ImageData::new(n);
    if src.chance(1, 4) {
        b.data_mut().extend_from_slice(&[1, 2, 3]);
        b.data_mut().clear();
    }
    let mut i = 0;
    while i < px.len() {
        *ops += 1;
        let k = src.usize(1, px.len() - i);
        b.data_mut().extend_from_slice(&px[i..i + k]);
        i += k;
        if b.data() != &px[..i] {
            return Err(format!("image data after {i} pixels"));
        }
    }
    Ok(b)
}

/// One block of the file: bits of the flags which are determined
fn masked(b: &MBlock, known: u8, trans: bool) -> MBlock {
    match b {
        MBlock::Lsd {
            w,
            h,
            flags,
            bg,
            aspect,
        } => MBlock::Lsd {
            w: *w,
            h: *h,
            flags: flags & known,
            bg: *bg,
            aspect: *aspect,
        },
        MBlock::Desc(d) => MBlock::Desc(MDesc {
            flags: d.flags & known,
            ..*d
        }),
        MBlock::Gce(g) => MBlock::Gce(MGce {
            trans: if trans { g.trans } else { 0 },
            ..*g
        }),
        b => b.clone(),
    }
}

/// C21: setters
pub fn c21(src: &mut Source, ctx: &Ctx) -> Check {
    let mut ops = 0;
    let r = if src.chance(1, 5) {
        ctx.count("step");
        step_history(src, ctx, &mut ops)
    } else {
        ctx.count("file_of_built_blocks");
        file_history(src, ctx, &mut ops)
    };
    ctx.event("calls", ops, 0);
    if ops > 3 {
        ctx.nontrivial();
    }
    r
}

fn file_history(src: &mut Source, ctx: &Ctx, ops: &mut u64) -> Check {
    match build_file(src, ops) {
        Ok((blocks, want)) => write_and_read(src, ctx, &blocks, &want),
        Err(e) => violation("getter", e),
    }
}

/// Blocks, and the model of each with what is determined
type Want = Vec<(MBlock, u8, bool)>;

fn build_file(src: &mut Source, ops: &mut u64) -> Built<(Vec<Block>, Want)> {
    if src.chance(1, 20) {
        bad_tables(src)?;
    }
    let mut v: Vec<Block> = vec![];
    let mut m: Want = vec![];
    let version = src.pick(&[*b"89a", *b"87a"]);
    let b = Header::with_version(version);
    if b.version() != version || Header::default().version() != *b"89a" {
        return Err(format!("{b:?}"));
    }
    v.push(b.into());
    m.push((MBlock::Header(version), 0xFF, true));
    let (b, w, h, flags, bg, aspect) = build_lsd(src, ops)?;
    v.push(b.into());
    m.push((
        MBlock::Lsd {
            w,
            h,
            flags: flags.bits,
            bg,
            aspect,
        },
        flags.known,
        true,
    ));
    if flags.bits & 0x80 != 0 {
        let t = gen_table(src, flags.bits & 7);
        let b = GlobalColorTable::with_colors(&t);
        if b.colors() != &t[..] || b.len() != t.len() / 3 || b.is_empty() {
            return Err(format!("{b:?}"));
        }
        v.push(b.into());
        m.push((MBlock::Gct(t), 0xFF, true));
    }
    for _ in 0..src.usize(1, 3) {
        for _ in 0..src.usize(0, 2) {
            let (b, x) = build_ext(src, ops)?;
            v.push(b);
            m.push((x, 0xFF, true));
        }
        let g = if src.chance(3, 4) {
            let (b, x, known) = build_gce(src, ops)?;
            v.push(b.into());
            m.push((MBlock::Gce(x), 0xFF, known));
            Some((b, x))
        } else {
            None
        };
        let (fw, fh) = gen_size(src, 200);
        let (b, d, flags) = build_desc(src, ops, (fw as u16, fh as u16))?;
        v.push(b.into());
        m.push((
            MBlock::Desc(MDesc {
                flags: flags.bits,
                ..d
            }),
            flags.known,
            true,
        ));
        let mut lct = None;
        if flags.bits & 0x80 != 0 {
            let t = gen_table(src, flags.bits & 7);
            let b = LocalColorTable::with_colors(&t);
            if b.colors() != &t[..] || b.len() != t.len() / 3 || b.is_empty() {
                return Err(format!("{b:?}"));
            }
            lct = Some(b.clone());
            v.push(b.into());
            m.push((MBlock::Lct(t), 0xFF, true));
        }
        let px = gen_pixels(src, fw * fh, 256, fw);
        let data = build_data(src, ops, &px)?;
        let f = Frame::new(g.map(|g| g.0), b, lct, data);
        let r = f.region();
        let x = g.map(|g| g.1).unwrap_or_default();
        if (f.left(), f.top(), f.width(), f.height()) != (d.l, d.t, d.w, d.h)
            || (r.left(), r.top()) != (d.l.into(), d.t.into())
            || (r.width(), r.height()) != (d.w.into(), d.h.into())
            || f.disposal_method() != disposal(x.disposal())
            || f.transparent_color() != x.transparent()
        {
            return Err(format!("{f:?}"));
        }
        v.push(f.image_data.into());
        m.push((MBlock::Data(px), 0xFF, true));
    }
    v.push(Trailer::default().into());
    m.push((MBlock::Trailer, 0xFF, true));
    Ok((v, m))
}

fn write_and_read(src: &mut Source, ctx: &Ctx, blocks: &[Block], want: &Want) -> Check {
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 500));
    let st = w.state();
    let mut enc = Encoder::new(w).into_block_enc();
    for b in blocks {
        if let Err(e) = enc.encode(b.clone()) {
            return violation("error", err_text(&e));
        }
    }
    drop(enc);
    let bytes = st.borrow().sink.clone();
    ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
    ctx.note(|| dump(&bytes));
    ctx.checked();
    let p = match parse(&bytes) {
        Ok(p) => p,
        Err(e) => return violation("format", format!("not conforming: {e}")),
    };
    let items = |v: &[MBlock]| -> Vec<Item> {
        v.iter()
            .zip(want)
            .map(|(b, w)| Item::Block(masked(b, w.1, w.2)))
            .collect()
    };
    let model: Vec<MBlock> = want.iter().map(|w| w.0.clone()).collect();
    if p.blocks.len() != model.len() {
        return violation(
            "blocks",
            format!("{} blocks written, should be {}", p.blocks.len(), model.len()),
        );
    }
    same_items("written", &items(&p.blocks), &items(&model))?;
    let data = Rc::new(bytes);
    let plan = ReadPlan::gen_(src, data.len());
    let got = sim_drain(ctx, &data, plan, Mode::Blocks, Limit::Default, 400_000);
    ctx.checked();
    let all: Vec<Item> = p.blocks.into_iter().map(Item::Block).collect();
    same_items("read back", &got.items, &all)
}

fn step_history(src: &mut Source, ctx: &Ctx, ops: &mut u64) -> Check {
    let (w, h) = gen_size(src, 100);
    let n = src.usize(1, 256);
    let pal = gen_pal(src, n);
    let px = gen_pixels(src, w * h, n, w);
    let mut s = GStep {
        w,
        h,
        px,
        pal,
        delay: 0,
        disposal: 0,
        trans: None,
    };
    let mut g: Step = gstep_plain(&s);
    // a step of true colours cannot be written yet, but has a raster
    let color = src.chance(1, 4).then(|| {
        ctx.count("true_colour_step");
        let b: Vec<u8> = (0..4).flat_map(|k| s.px.iter().map(move |p| p ^ k)).collect();
        let r = Raster::<SRgba8>::with_u8_buffer(w as u32, h as u32, b.clone());
        g = Step::with_true_color(r);
        b
    });
    for i in 0..src.usize(1, 10) {
        *ops += 1;
        let op = src.draw(4);
        match op {
            0 => {
                let d = src.chance(3, 4).then(|| gen_u16(src));
                s.delay = d.unwrap_or(0);
                g = g.with_delay_time_cs(d);
            }
            1 => {
                s.disposal = src.draw(8) as u8;
                g = g.with_disposal_method(disposal(s.disposal));
            }
            2 => {
                s.trans = src.chance(3, 4).then(|| src.byte());
                g = g.with_transparent_color(s.trans);
            }
            _ => g = g.clone(),
        }
        ctx.checked();
        if g.transparent_color() != s.trans || g.delay_time_cs().unwrap_or(0) != s.delay {
            return violation(
                "getter",
                format!(
                    "call {i} ({op}): delay {:?} transparent {:?}, should be {} {:?}",
                    g.delay_time_cs(),
                    g.transparent_color(),
                    s.delay,
                    s.trans
                ),
            );
        }
        if let Some(b) = &color {
            let r = g.raster();
            if (r.width() as usize, r.height() as usize) != (s.w, s.h) || r.as_u8_slice() != &b[..] {
                return violation("raster", format!("call {i} ({op}) changed the raster"));
            }
        }
    }
    if color.is_some() {
        return Ok(());
    }
    let w = SimWriter::new(ctx, WritePlan::gen_(src, 500));
    let st = w.state();
    let mut enc = Enc::new(0, w, None);
    if let Err(e) = enc.op(&super::encode::Op::Step(g)) {
        return violation("error", err_text(&e));
    }
    drop(enc);
    let bytes = st.borrow().sink.clone();
    ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
    ctx.note(|| format!("{s:?} {}", dump(&bytes)));
    ctx.checked();
    super::encode::check_file(&bytes, &[s], None, None)
}
