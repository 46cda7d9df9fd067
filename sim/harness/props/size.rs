//! How large encoded images get
use super::encode::{Enc, GStep, Op, gen_pal, gstep_plain};
use super::*;

/// C22: compression
pub fn c22(src: &mut Source, ctx: &Ctx) -> Check {
    let (w, h) = match src.weighted(&[60, 30, 10, 3]) {
        0 => gen_size(src, 2000),
        1 => (src.usize(30, 150), src.usize(30, 150)),
        2 => {
            ctx.count("large");
            (src.usize(150, 500), src.usize(150, 400))
        }
        _ => {
            ctx.count("extreme_side");
            let a = src.pick(&[65535, 32768, 4096]);
            if src.chance(1, 2) { (a, 1) } else { (1, a) }
        }
    };
    let vals = match src.weighted(&[2, 2, 1]) {
        0 => src.pick(&[1, 2, 4, 16, 64, 128, 256]),
        1 => src.usize(1, 256),
        _ => 256,
    };
    let n = src.usize(1, 3);
    let images: Vec<Vec<u8>> =
        (0..n).map(|_| gen_pixels(src, w * h, vals, w)).collect();
    let kind = src.draw(3);
    ctx.count(["step_encoder", "frame_encoder", "block_encoder"][kind as usize]);
    let wr = SimWriter::new(ctx, WritePlan::gen_(src, 2000));
    let st = wr.state();
    let mut enc = Enc::new(kind, wr, None);
    let mut op = |o: Op| enc.op(&o).map_err(|e| err_text(&e));
    let r = match kind {
        0 => {
            let pal = gen_pal(src, vals);
            images.iter().try_for_each(|px| {
                op(Op::Step(gstep_plain(&GStep {
                    w,
                    h,
                    px: px.clone(),
                    pal: pal.clone(),
                    delay: 0,
                    disposal: 0,
                    trans: None,
                })))
            })
        }
        _ => {
            let mut f = MFile::default();
            f.blocks.push(MBlock::Header(*b"89a"));
            let (w, h) = (w as u16, h as u16);
            f.blocks.push(MBlock::Lsd {
                w,
                h,
                flags: 0x87,
                bg: 0,
                aspect: 0,
            });
            f.blocks.push(MBlock::Gct(gen_table(src, 7)));
            for px in &images {
                f.blocks.push(MBlock::Desc(MDesc {
                    w,
                    h,
                    ..Default::default()
                }));
                f.blocks.push(MBlock::Data(px.clone()));
            }
            f.blocks.push(MBlock::Trailer);
            if kind == 1 {
                op(Op::Preamble(gpreamble(&f.preamble().0)))
                    .and_then(|()| {
                        f.frames()
                            .iter()
                            .try_for_each(|f| op(Op::Frame(gframe(&f.0))))
                    })
                    .and_then(|()| op(Op::Trailer))
            } else {
                f.blocks.iter().try_for_each(|b| op(Op::Block(gblock(b))))
            }
        }
    };
    drop(enc);
    if let Err(e) = r {
        return violation("error", e);
    }
    let bytes = st.borrow().sink.clone();
    ctx.event("output", hash_bytes(&bytes), bytes.len() as u64);
    ctx.sample(|| format!("{n} images of {w}x{h}, {vals} values, {} bytes", bytes.len()));
    ctx.checked();
    let p = match parse(&bytes) {
        Ok(p) => p,
        Err(e) => return violation("format", format!("not conforming: {e}")),
    };
    let mut k = 0;
    let mut start = 0;
    for (b, end) in p.blocks.iter().zip(&p.ends) {
        if let MBlock::Data(d) = b {
            let Some(px) = images.get(k) else {
                return violation("images", format!("more than {n} images"));
            };
            k += 1;
            if d != px {
                return violation("pixels", format!("image {k} has other pixels"));
            }
            let size = end - start;
            let (plain, stats) = lzw_encode(px, &LzwStrat::plain(8));
            if stats.clears > 1 {
                ctx.count("table_filled");
            }
            if plain.len() * 4 < px.len() {
                ctx.count("compressible");
                ctx.nontrivial();
            }
            if plain.len() > px.len() {
                ctx.count("incompressible");
                ctx.nontrivial();
            }
            let limit = plain.len() + plain.len() / 4 + 64;
            if size > limit {
                return violation(
                    "size",
                    format!(
                        "image {k}: {} pixels take {size} bytes, plain LZW takes {}",
                        px.len(),
                        plain.len()
                    ),
                );
            }
        }
        start = *end;
    }
    // nothing but the images and the blocks they need
    let rest = bytes.len()
        - p.blocks
            .iter()
            .zip(p.ends.iter().scan(0, |s, e| {
                let n = e - *s;
                *s = *e;
                Some(n)
            }))
            .filter(|(b, _)| matches!(b, MBlock::Data(_)))
            .map(|(_, n)| n)
            .sum::<usize>();
    if rest > 14 + 768 + n * (19 + 768) {
        return violation("size", format!("{rest} bytes besides the images"));
    }
    Ok(())
}
