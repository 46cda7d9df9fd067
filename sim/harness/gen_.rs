//! Generators for conforming files and step sequences
use crate::model::*;
use crate::rng::Rng;
use crate::tape::Source;

#[derive(Clone, Debug)]
pub struct GenOpts {
    /// Maximum frames
    pub frames: usize,
    /// Maximum pixels on the screen
    pub max_px: usize,
    /// Must be possible to composite (frames inside the screen, tables, ...)
    pub render: bool,
    /// Extensions between frames
    pub exts: bool,
    /// Rich LZW strategies
    pub rich: bool,
    /// Loop extension: None = maybe
    pub loop_ext: Option<bool>,
    /// Printable comments only
    pub ascii: bool,
    /// One in this many files is large in some way (0: none)
    pub scale: u64,
}

impl GenOpts {
    pub fn new() -> Self {
        GenOpts {
            frames: 5,
            max_px: 6000,
            render: true,
            exts: true,
            rich: true,
            loop_ext: None,
            ascii: false,
            scale: 400,
        }
    }
}

pub fn gen_dim(src: &mut Source) -> usize {
    match src.weighted(&[10, 6, 3, 1, 1]) {
        0 => src.usize(1, 8),
        1 => src.usize(1, 24),
        2 => src.usize(1, 90),
        3 => src.pick(&[127, 128, 129, 255, 256, 257]),
        _ => src.usize(1, 600),
    }
}

pub fn gen_size(src: &mut Source, max_px: usize) -> (usize, usize) {
    let w = gen_dim(src).min(max_px);
    let h = gen_dim(src).min((max_px / w).max(1));
    (w, h)
}

/// Fill pixels
pub fn gen_pixels(src: &mut Source, n: usize, vals: usize, w: usize) -> Vec<u8> {
    let kind = src.weighted(&[3, 6, 3, 3, 2, 2, 2, 1, 1, 2]);
    let arg = src.draw(vals as u64) as usize;
    let seed = src.seed();
    fill(kind, arg, seed, n, vals, w)
}

pub fn fill(
    kind: usize,
    arg: usize,
    seed: u64,
    n: usize,
    vals: usize,
    w: usize,
) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let w = w.max(1);
    match kind {
        // solid
        0 => vec![arg as u8; n],
        // noise over all values
        1 => (0..n).map(|_| r.below(vals as u64) as u8).collect(),
        // runs
        2 => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let c = r.below(vals as u64) as u8;
                let k = 1 + r.below(40) as usize;
                for _ in 0..k.min(n - v.len()) {
                    v.push(c);
                }
            }
            v
        }
        // ramp
        3 => (0..n).map(|i| ((i + arg) % vals) as u8).collect(),
        // columns / checker
        4 => (0..n)
            .map(|i| (((i % w) ^ (i / w)) % vals) as u8)
            .collect(),
        // sparse noise on a ground
        5 => (0..n)
            .map(|_| {
                if r.below(8) == 0 {
                    r.below(vals as u64) as u8
                } else {
                    arg as u8
                }
            })
            .collect(),
        // slow gradient
        7 => (0..n).map(|i| (i * vals / n.max(1)) as u8).collect(),
        // flat up to the last few pixels
        8 if n > 0 => {
            let k = n - 1 - r.below(n.min(3) as u64) as usize;
            (0..n)
                .map(|i| if i < k { 0 } else { (vals - 1) as u8 })
                .collect()
        }
        // parts of different kinds, one after another
        9 => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let k = 1 + r.below((n - v.len()) as u64) as usize;
                let kind = r.below(9) as usize;
                let arg = r.below(vals as u64) as usize;
                v.extend(fill(kind, arg, r.next_u64(), k, vals, w));
            }
            v
        }
        // repeated pattern
        _ => {
            let k = 1 + r.below(12) as usize;
            let pat: Vec<u8> =
                (0..k).map(|_| r.below(vals as u64) as u8).collect();
            (0..n).map(|i| pat[i % k]).collect()
        }
    }
}

/// Bits needed for the largest value
pub fn need_bits(px: &[u8]) -> u8 {
    let m = px.iter().copied().max().unwrap_or(0);
    let mut b = 2;
    while (1u32 << b) <= m as u32 {
        b += 1;
    }
    b
}

pub fn gen_strat(src: &mut Source, min: u8, rich: bool) -> LzwStrat {
    let mut st = LzwStrat::plain(min);
    if !rich || src.chance(1, 3) {
        return st;
    }
    st.seed = src.seed();
    st.sub = src.pick(&[0, 0, 1, 2, 3, 7, 128, 254, 256, 256, 257]);
    match src.weighted(&[4, 2, 2]) {
        0 => (),
        1 => st.cut = src.pick(&[8, 64, 255]),
        _ => st.max_match = src.usize(1, 5),
    }
    match src.weighted(&[4, 2, 2]) {
        0 => (),
        1 => st.clear = src.pick(&[4, 40, 400]),
        _ => {
            st.defer = src.pick(&[None, Some(1), Some(2), Some(50), Some(3000)])
        }
    }
    if src.chance(1, 6) {
        st.lead_clear = false;
    }
    match src.weighted(&[5, 1, 1, 1]) {
        0 => (),
        1 => st.end = false,
        2 => st.junk = src.usize(1, 300),
        _ => st.surplus = src.pick(&[1, 2, 100, 5000]),
    }
    st
}

pub fn gen_bytes(src: &mut Source, lo: usize, hi: usize) -> Vec<u8> {
    let n = src.usize(lo, hi);
    let seed = src.seed();
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.next_u64() as u8).collect()
}

fn gen_ascii(src: &mut Source, hi: usize) -> Vec<u8> {
    let n = match src.chance(1, 6) {
        true => hi,
        false => src.usize(1, hi),
    };
    let seed = src.seed();
    let mut r = Rng::new(seed);
    let set = b"abcdefghijklmnopqrstuvwxyz0123456789 .,:#-\n\n\t<>\"'";
    let mut v: Vec<u8> = (0..n)
        .map(|_| set[r.below(set.len() as u64) as usize])
        .collect();
    if src.chance(1, 3) {
        // one line
        v.iter_mut().filter(|c| **c == b'\n').for_each(|c| *c = b'_');
    }
    if src.chance(1, 10) {
        // other alphabets, and other encodings
        let i = src.usize(0, n - 1);
        let other: &[&[u8]] = &["é".as_bytes(), "→木".as_bytes(), b"\xFF", b"\xA9", b"\xC3"];
        let c = src.pick(other);
        v.splice(i..i, c.iter().copied());
        v.truncate(255);
    }
    v
}

pub fn gen_subs(src: &mut Source) -> Vec<Vec<u8>> {
    if src.chance(1, 150) {
        // as long as an embedded profile or XMP packet
        let mut n = src.pick(&[20, 70, 129, 256, 257, 300, 700]);
        let len = src.pick(&[1, 1, 9, 255, 0]);
        if len == 1 && src.chance(1, 60) {
            n += 65_400;
        }
        let mut r = Rng::new(src.seed());
        return (0..n)
            .map(|_| {
                let k = if len == 0 { 1 + r.below(255) } else { len };
                (0..k).map(|_| r.next_u64() as u8).collect()
            })
            .collect();
    }
    let n = match src.weighted(&[4, 20, 12, 4, 4, 1]) {
        5 => src.usize(5, 18),
        n => n,
    };
    (0..n)
        .map(|_| match src.weighted(&[6, 2, 1, 1]) {
            0 => gen_bytes(src, 1, 12),
            1 => gen_bytes(src, 1, 255),
            2 => gen_bytes(src, 255, 255),
            _ => vec![src.pick(&[0, 0x21, 0x2C, 0x3B, 0xFF])],
        })
        .collect()
}

/// Extension which is not plain text and not a loop count
pub fn gen_ext(src: &mut Source, ascii: bool) -> MBlock {
    match src.weighted(&[4, 3, 2, 2]) {
        0 => {
            if ascii {
                let n = match src.weighted(&[60, 1]) {
                    0 => src.usize(1, 3),
                    _ => src.pick(&[9, 33, 260]),
                };
                let max = if src.chance(1, 8) { 255 } else { 40 };
                MBlock::Comment((0..n).map(|_| gen_ascii(src, max)).collect())
            } else {
                MBlock::Comment(gen_subs(src))
            }
        }
        1 => {
            let mut id = 2 + src.draw(0xF7) as u8; // 02..=F8
            if src.chance(1, 8) {
                id = src.pick(&[0x00, 0xFA, 0xFB, 0xFC, 0xFD]);
            }
            MBlock::Unknown(id, gen_subs(src))
        }
        2 => {
            let mut v = gen_subs(src);
            match src.weighted(&[12, 1, 1]) {
                0 => v.insert(0, b"XMP DataXMP".to_vec()),
                1 => v.insert(0, b"NETSCAPE".to_vec()),
                // not even an identifier
                _ => (),
            }
            MBlock::App(v)
        }
        // nearly a loop extension
        _ => {
            let (id, data): (&[u8], Vec<u8>) = match src.draw(6) {
                0 => (b"NETSCAPE2.0", vec![2, 1, 2, 3, 4]),
                1 => (b"NETSCAPE2.1", vec![1, 5, 0]),
                2 => (b"NETSCAPE2.0", vec![1, 5]),
                3 => (b"ANIMEXTS1.0", vec![1, 5, 0, 0]),
                4 => (b"ANIMEXTS1.0", vec![0, 5, 0]),
                _ => (b"netscape2.0", vec![1, 5, 0]),
            };
            MBlock::App(vec![id.to_vec(), data])
        }
    }
}

pub fn gen_table(src: &mut Source, bits: u8) -> Vec<u8> {
    let n = 3 * (2usize << bits);
    let seed = src.seed();
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.next_u64() as u8).collect()
}

pub fn gen_loop_ext(src: &mut Source, count: u16) -> MBlock {
    let id = src.pick(&[&b"NETSCAPE2.0"[..], &b"ANIMEXTS1.0"[..]]);
    let c = count.to_le_bytes();
    MBlock::App(vec![id.to_vec(), vec![1, c[0], c[1]]])
}

pub fn gen_loop_count(src: &mut Source) -> u16 {
    match src.weighted(&[3, 4, 2, 1]) {
        0 => 0,
        1 => src.usize(1, 6) as u16,
        2 => src.pick(&[255, 256, 257, 511, 512, 1024, 65535, 32768]),
        _ => src.draw(65536) as u16,
    }
}

pub fn gen_gce(src: &mut Source, px: &[u8]) -> MGce {
    let disposal = src.weighted(&[3, 3, 4, 4, 1, 1, 1, 1]) as u8;
    let mut flags = disposal << 2;
    if src.chance(1, 8) {
        flags |= 2;
    }
    if src.chance(1, 10) {
        flags |= (src.draw(8) as u8) << 5;
    }
    let mut trans = 0;
    if src.chance(1, 2) {
        flags |= 1;
        trans = match src.weighted(&[6, 1]) {
            0 if !px.is_empty() => px[src.usize(0, px.len() - 1)],
            _ => src.byte(),
        };
    } else if src.chance(1, 4) {
        // index without the flag
        trans = src.byte();
    }
    let delay = match src.weighted(&[4, 6, 2, 1]) {
        0 => 0,
        1 => src.usize(1, 100) as u16,
        2 => src.pick(&[
            255, 256, 257, 65535, 32767, 1000, 127, 128, 512, 999, 4096, 6000,
            9999, 10_000, 32768, 65534,
        ]),
        _ => src.draw(65536) as u16,
    };
    MGce {
        flags,
        delay,
        trans,
    }
}

/// Generate a conforming file
pub fn gen_file(src: &mut Source, o: &GenOpts) -> MFile {
    let mut f = MFile::default();
    let version = if src.chance(1, 6) { *b"87a" } else { *b"89a" };
    f.blocks.push(MBlock::Header(version));
    let big = match o.scale {
        0 => 0,
        n if src.chance(1, n) => src.weighted(&[0, 60, 30, 20, 1]),
        _ => 0,
    };
    let (w, h) = match big {
        2 => gen_long(src),
        3 => (src.usize(200, 400), src.usize(164, 330)),
        4 => (src.usize(700, 1500), src.usize(500, 1000)),
        _ => gen_size(src, o.max_px),
    };
    let gct = !src.chance(1, 5);
    let bits = src.draw(8) as u8;
    let mut flags = bits;
    if gct {
        flags |= 0x80;
    }
    if src.chance(1, 3) {
        flags |= (src.draw(16) as u8) << 3;
    }
    let (bg, aspect) = if src.chance(1, 3) {
        (src.byte(), src.byte())
    } else {
        (0, 0)
    };
    // a screen which is not drawn can have any size
    let room = if !o.render && src.chance(1, 3) {
        let (x, y) = (0xFFFF - w, 0xFFFF - h);
        (gen_room(src, x), gen_room(src, y))
    } else {
        (0, 0)
    };
    f.blocks.push(MBlock::Lsd {
        w: (w + room.0) as u16,
        h: (h + room.1) as u16,
        flags,
        bg,
        aspect,
    });
    if gct {
        let t = gen_table(src, bits);
        f.blocks.push(MBlock::Gct(t));
    }
    // preamble extensions
    let at = f.blocks.len();
    if o.exts && src.chance(1, 2) {
        let n = match src.weighted(&[300, 1]) {
            0 => src.usize(1, 3),
            _ => src.pick(&[8, 17, 33, 65, 129, 260]),
        };
        for _ in 0..n {
            let b = gen_ext(src, o.ascii);
            f.blocks.push(b);
        }
    }
    let lp = match o.loop_ext {
        Some(b) => b,
        None => src.chance(1, 3),
    };
    if lp {
        let c = gen_loop_count(src);
        let b = gen_loop_ext(src, c);
        let i = if src.chance(1, 3) {
            src.usize(at, f.blocks.len())
        } else {
            at
        };
        f.blocks.insert(i, b);
    }
    let n = match src.weighted(&[3, 3, 4, 1]) {
        0 => 1,
        1 => 2,
        2 => src.usize(1, 5),
        _ => src.usize(1, o.frames),
    }
    .min(o.frames)
    .min(2_000_000 / (w * h))
    .max(1);
    let first = f.blocks.len();
    for _ in 0..n {
        gen_frame(src, o, &mut f, (w, h), room, gct.then_some(bits));
    }
    if big == 1 {
        repeat_frames(src, &mut f, first, w * h);
    }
    if o.exts && src.chance(1, 4) {
        let b = gen_ext(src, o.ascii);
        f.blocks.push(b);
    }
    f.blocks.push(MBlock::Trailer);
    f
}

/// Size with a long side
fn gen_long(src: &mut Source) -> (usize, usize) {
    let n = src.pick(&[1000, 4096, 32767, 32768, 40_000, 65535]);
    let m = src.usize(1, (70_000 / n).min(3));
    if src.chance(1, 2) { (n, m) } else { (m, n) }
}

/// Room on the screen besides a frame
fn gen_room(src: &mut Source, max: usize) -> usize {
    let n = match src.weighted(&[2, 1, 1]) {
        0 => src.usize(0, 600),
        1 => max,
        _ => src.usize(0, max),
    };
    n.min(max)
}

/// Make a long animation from a short one
fn repeat_frames(src: &mut Source, f: &mut MFile, first: usize, px: usize) {
    let n = src.pick(&[20, 65, 130, 257, 300, 520, 1030, 5000, 66_000]);
    let blocks = f.blocks.split_off(first);
    let strats = std::mem::take(&mut f.strats);
    let mut sz = 0;
    for b in &blocks {
        sz += match b {
            MBlock::Lct(c) => c.len() + 20,
            MBlock::Data(d) => d.len() + 40,
            MBlock::App(v) | MBlock::Comment(v) | MBlock::Plain(v) | MBlock::Unknown(_, v) => {
                v.iter().map(|v| v.len() + 1).sum::<usize>() + 20
            }
            _ => 20,
        };
    }
    for s in &strats {
        sz += s.junk + s.surplus;
    }
    let per = strats.len();
    let k = (n / per)
        .min(1_500_000 / sz)
        .min(3_000_000 / (px * per))
        .max(1);
    for _ in 0..k {
        f.blocks.extend(blocks.iter().cloned());
        f.strats.extend(strats.iter().cloned());
    }
}

/// Generate one frame with its surroundings
pub fn gen_frame(
    src: &mut Source,
    o: &GenOpts,
    f: &mut MFile,
    (w, h): (usize, usize),
    room: (usize, usize),
    gct: Option<u8>,
) {
    if o.exts && src.chance(1, 4) {
        // plain text group
        if src.chance(1, 3) {
            if src.chance(1, 2) {
                let g = gen_gce(src, &[]);
                f.blocks.push(MBlock::Gce(g));
            }
            let mut v = gen_subs(src);
            v.insert(0, vec![0, 0, 0, 0, 8, 0, 8, 0, 8, 8, 1, 0]);
            f.blocks.push(MBlock::Plain(v));
        } else {
            let b = gen_ext(src, o.ascii);
            f.blocks.push(b);
        }
    }
    // rectangle
    let (l, t, fw, fh) = if src.chance(1, 2) {
        let fw = src.usize(1, w);
        let fh = src.usize(1, h);
        let (l, t) = if src.chance(1, 6) {
            (w - fw, h - fh)
        } else {
            (src.usize(0, w - fw), src.usize(0, h - fh))
        };
        (l, t, fw, fh)
    } else {
        (0, 0, w, h)
    };
    // nothing to draw
    let (fw, fh) = if !o.render && src.chance(1, 60) {
        src.pick(&[(0, fh), (fw, 0), (0, 0)])
    } else {
        (fw, fh)
    };
    let (l, t) = match room {
        (0, 0) => (l, t),
        (x, y) => (l + src.usize(0, x), t + src.usize(0, y)),
    };
    let mut flags = 0;
    if src.chance(1, 4) {
        flags |= 0x40;
    }
    if src.chance(1, 10) {
        // sort flag and reserved bits
        flags |= (src.draw(8) as u8) << 3;
    }
    let need = gct.is_none() && o.render;
    let lct = if need || src.chance(1, 3) {
        let bits = src.draw(8) as u8;
        flags |= 0x80 | bits;
        Some(bits)
    } else {
        if src.chance(1, 10) {
            // size bits without a table
            flags |= src.draw(8) as u8;
        }
        None
    };
    let vals = match lct.or(gct) {
        Some(b) if o.render => 2usize << b,
        _ => 256,
    };
    let vals = match src.weighted(&[3, 2]) {
        0 => vals,
        _ => src.usize(1, vals),
    };
    let px = gen_pixels(src, fw * fh, vals, fw);
    if src.chance(2, 3) {
        let g = gen_gce(src, &px);
        f.blocks.push(MBlock::Gce(g));
        if o.exts && src.chance(1, 8) {
            let b = gen_ext(src, o.ascii);
            f.blocks.push(b);
        }
    }
    f.blocks.push(MBlock::Desc(MDesc {
        l: l as u16,
        t: t as u16,
        w: fw as u16,
        h: fh as u16,
        flags,
    }));
    if let Some(bits) = lct {
        let c = gen_table(src, bits);
        f.blocks.push(MBlock::Lct(c));
    }
    let nb = need_bits(&px);
    let min = if src.chance(1, 3) {
        src.usize(nb as usize, 8) as u8
    } else {
        nb
    };
    let st = gen_strat(src, min, o.rich);
    f.strats.push(st);
    f.blocks.push(MBlock::Data(px));
}

/// A read fault offset, biased to block boundaries
pub fn gen_offset(src: &mut Source, ser: &Ser) -> usize {
    let len = ser.bytes.len();
    match src.weighted(&[3, 4]) {
        0 => src.usize(0, len),
        _ => {
            let i = src.usize(0, ser.ends.len() - 1);
            let e = ser.ends[i] as i64;
            let d = src.pick(&[0i64, -1, 1, -2, 2, 3]);
            (e + d).clamp(0, len as i64) as usize
        }
    }
}
