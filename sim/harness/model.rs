//! Reference model of the GIF format: blocks, serialiser, parser, LZW codec
//! and compositor.  Written from the GIF89a text, independent of the library.
use crate::rng::Rng;
use std::collections::HashMap;

/// Block of a file, all fields as stored
#[derive(Clone, PartialEq, Eq)]
pub enum MBlock {
    Header([u8; 3]),
    Lsd {
        w: u16,
        h: u16,
        flags: u8,
        bg: u8,
        aspect: u8,
    },
    Gct(Vec<u8>),
    Gce(MGce),
    Comment(Vec<Vec<u8>>),
    App(Vec<Vec<u8>>),
    Plain(Vec<Vec<u8>>),
    Unknown(u8, Vec<Vec<u8>>),
    Desc(MDesc),
    Lct(Vec<u8>),
    /// Pixels in stored order
    Data(Vec<u8>),
    Trailer,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct MGce {
    pub flags: u8,
    pub delay: u16,
    pub trans: u8,
}

impl MGce {
    pub fn disposal(&self) -> u8 {
        (self.flags >> 2) & 7
    }
    pub fn transparent(&self) -> Option<u8> {
        (self.flags & 1 != 0).then_some(self.trans)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct MDesc {
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
    pub flags: u8,
}

impl MDesc {
    pub fn pixels(&self) -> usize {
        self.w as usize * self.h as usize
    }
    pub fn interlaced(&self) -> bool {
        self.flags & 0x40 != 0
    }
    pub fn lct_len(&self) -> usize {
        if self.flags & 0x80 != 0 {
            2 << (self.flags & 7)
        } else {
            0
        }
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for v in b.iter().take(48) {
        s.push_str(&format!("{v:02x}"));
    }
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

fn subs(v: &[Vec<u8>]) -> String {
    v.iter().map(|b| hex(b)).collect::<Vec<_>>().join("|")
}

impl std::fmt::Debug for MBlock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            MBlock::Header(v) => {
                write!(f, "Header({})", String::from_utf8_lossy(v))
            }
            MBlock::Lsd {
                w,
                h,
                flags,
                bg,
                aspect,
            } => write!(f, "Screen({w}x{h} flags={flags:02x} {bg} {aspect})"),
            MBlock::Gct(c) => write!(f, "GlobalTable({})", hex(c)),
            MBlock::Gce(g) => write!(f, "{g:?}"),
            MBlock::Comment(s) => write!(f, "Comment({})", subs(s)),
            MBlock::App(s) => write!(f, "App({})", subs(s)),
            MBlock::Plain(s) => write!(f, "Plain({})", subs(s)),
            MBlock::Unknown(n, s) => write!(f, "Unknown({n:02x} {})", subs(s)),
            MBlock::Desc(d) => write!(f, "{d:?}"),
            MBlock::Lct(c) => write!(f, "LocalTable({})", hex(c)),
            MBlock::Data(d) => write!(f, "Data({})", hex(d)),
            MBlock::Trailer => write!(f, "Trailer"),
        }
    }
}

/// Frame as grouped from blocks
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MFrame {
    pub gce: Option<MGce>,
    pub desc: MDesc,
    pub lct: Option<Vec<u8>>,
    pub data: Vec<u8>,
}

/// Preamble of a file
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct MPreamble {
    pub version: [u8; 3],
    pub w: u16,
    pub h: u16,
    pub flags: u8,
    pub bg: u8,
    pub aspect: u8,
    pub gct: Option<Vec<u8>>,
    pub loop_ext: Option<Vec<Vec<u8>>>,
    pub comments: Vec<Vec<Vec<u8>>>,
}

/// Composited animation step
#[derive(Clone, PartialEq, Eq)]
pub struct MStep {
    pub w: u32,
    pub h: u32,
    pub rgba: Vec<u8>,
    pub delay: u16,
    pub trans: Option<u8>,
}

impl std::fmt::Debug for MStep {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Step({}x{} delay={} trans={:?} {})",
            self.w,
            self.h,
            self.delay,
            self.trans,
            hex(&self.rgba)
        )
    }
}

/// Loop count of an application block
pub fn loop_count(app: &[Vec<u8>]) -> Option<u16> {
    if app.len() == 2
        && (app[0] == b"NETSCAPE2.0" || app[0] == b"ANIMEXTS1.0")
        && app[1].len() == 3
        && app[1][0] == 1
    {
        Some(app[1][1] as u16 + 256 * app[1][2] as u16)
    } else {
        None
    }
}

/// How a peer encoder makes its LZW stream
#[derive(Clone, Debug, PartialEq)]
pub struct LzwStrat {
    /// Minimum code size
    pub min: u8,
    /// Start with a clear code
    pub lead_clear: bool,
    /// Sub-seed for random matches and clears
    pub seed: u64,
    /// Probability (of 256) to cut a match short
    pub cut: u64,
    /// Longest match allowed
    pub max_match: usize,
    /// Probability (of 1024) of a clear before a code
    pub clear: u64,
    /// Codes to go on with a full table before the clear (None: never)
    pub defer: Option<u64>,
    /// Write an end code
    pub end: bool,
    /// Bytes after the end code
    pub junk: usize,
    /// Number of pixels beyond the image
    pub surplus: usize,
    /// Sub-block size policy: 0 = 255, 1 = 1, n = fixed n, 256.. = random
    pub sub: usize,
}

impl LzwStrat {
    pub fn plain(min: u8) -> Self {
        LzwStrat {
            min,
            lead_clear: true,
            seed: 0,
            cut: 0,
            max_match: usize::MAX,
            clear: 0,
            defer: Some(0),
            end: true,
            junk: 0,
            surplus: 0,
            sub: 0,
        }
    }
}

struct BitOut {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitOut {
    fn put(&mut self, code: u32, width: u32) {
        self.acc |= (code as u64) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn finish(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.out.push(self.acc as u8);
        }
        self.out
    }
}

/// Statistics about a made LZW stream
#[derive(Clone, Copy, Debug, Default)]
pub struct LzwStats {
    pub codes: u64,
    pub clears: u64,
    pub full_codes: u64,
    pub kwkwk: u64,
}

/// Encode pixels with a strategy.  The code width follows the table a reader
/// has built so far, as the format demands.
pub fn lzw_encode(px: &[u8], st: &LzwStrat) -> (Vec<u8>, LzwStats) {
    let clear = 1u32 << st.min;
    let end = clear + 1;
    let mut rng = Rng::new(st.seed);
    let mut stats = LzwStats::default();
    let mut o = BitOut {
        out: vec![],
        acc: 0,
        n: 0,
    };
    // dictionary of (prefix code, byte) -> code
    let mut dict: HashMap<(u32, u8), u32> = HashMap::new();
    let mut next = end + 1; // next code the reader will define
    let mut width = st.min as u32 + 1;
    let mut prev: Option<u32> = None;
    let mut full = 0u64;
    if st.lead_clear {
        o.put(clear, width);
        stats.clears += 1;
    }
    let mut i = 0;
    while i < px.len() {
        // clear?
        let want_clear = match st.defer {
            Some(d) if next >= 4096 && full >= d => true,
            _ => st.clear > 0 && rng.below(1024) < st.clear,
        };
        if want_clear {
            o.put(clear, width);
            stats.clears += 1;
            dict.clear();
            next = end + 1;
            width = st.min as u32 + 1;
            prev = None;
            full = 0;
        }
        // the entry which the reader defines on the next code; it may be used
        // by that same code
        let pending = match prev {
            Some(p) if next < 4096 => {
                let key = (p, px[i]);
                if let std::collections::hash_map::Entry::Vacant(e) =
                    dict.entry(key)
                {
                    e.insert(next);
                }
                true
            }
            _ => false,
        };
        let mut code = px[i] as u32;
        let mut len = 1;
        let cut = st.cut > 0 && rng.below(256) < st.cut;
        let max = if cut {
            1 + rng.below(4) as usize
        } else {
            st.max_match.max(1)
        };
        while i + len < px.len() && len < max {
            match dict.get(&(code, px[i + len])) {
                Some(c) => {
                    code = *c;
                    len += 1;
                }
                None => break,
            }
        }
        if code == next {
            stats.kwkwk += 1;
        }
        o.put(code, width);
        stats.codes += 1;
        if pending {
            next += 1;
        } else if prev.is_some() {
            full += 1;
            stats.full_codes += 1;
        }
        if next == 1 << width && width < 12 {
            width += 1;
        }
        prev = Some(code);
        i += len;
    }
    if st.end {
        o.put(end, width);
    }
    let mut out = o.finish();
    if st.end {
        for _ in 0..st.junk {
            out.push(rng.next_u64() as u8);
        }
    }
    (out, stats)
}

/// Decode an LZW stream: pixels, and whether an end code was found
pub fn lzw_decode(min: u8, data: &[u8]) -> Result<(Vec<u8>, bool), String> {
    let clear = 1usize << min;
    let end = clear + 1;
    let mut prefix: Vec<usize> = vec![usize::MAX; clear + 2];
    let mut last: Vec<u8> = (0..clear + 2).map(|i| i as u8).collect();
    let mut first: Vec<u8> = last.clone();
    let mut width = min as u32 + 1;
    let mut prev: Option<usize> = None;
    let mut out = vec![];
    let mut bit = 0usize;
    let total = data.len() * 8;
    loop {
        if bit + width as usize > total {
            return Ok((out, false));
        }
        let mut code = 0usize;
        for k in 0..width as usize {
            let b = bit + k;
            code |= ((data[b / 8] >> (b % 8)) as usize & 1) << k;
        }
        bit += width as usize;
        if code == clear {
            prefix.truncate(clear + 2);
            last.truncate(clear + 2);
            first.truncate(clear + 2);
            width = min as u32 + 1;
            prev = None;
            continue;
        }
        if code == end {
            return Ok((out, true));
        }
        match prev {
            None => {
                if code >= clear {
                    return Err(format!("first code {code} is no literal"));
                }
            }
            Some(p) => {
                if code > prefix.len() || (code == prefix.len() && code >= 4096)
                {
                    return Err(format!("code {code} not defined"));
                }
                if prefix.len() < 4096 {
                    let c = if code == prefix.len() {
                        first[p]
                    } else {
                        first[code]
                    };
                    prefix.push(p);
                    last.push(c);
                    let f = first[p];
                    first.push(f);
                }
            }
        }
        let start = out.len();
        let mut c = code;
        while c != usize::MAX {
            out.push(last[c]);
            c = prefix[c];
        }
        out[start..].reverse();
        if prefix.len() == 1 << width && width < 12 {
            width += 1;
        }
        prev = Some(code);
    }
}

/// A file made of blocks, with the strategy for each image
#[derive(Clone, Debug, Default)]
pub struct MFile {
    pub blocks: Vec<MBlock>,
    /// One per Data block, in order
    pub strats: Vec<LzwStrat>,
}

/// Serialised file
#[derive(Clone, Debug, Default)]
pub struct Ser {
    pub bytes: Vec<u8>,
    /// End offset of each block
    pub ends: Vec<usize>,
    pub lzw: LzwStats,
}

pub fn put_subs(out: &mut Vec<u8>, v: &[Vec<u8>]) {
    for b in v {
        assert!(!b.is_empty() && b.len() < 256);
        out.push(b.len() as u8);
        out.extend_from_slice(b);
    }
    out.push(0);
}

/// Split bytes into sub-blocks
pub fn put_data_subs(out: &mut Vec<u8>, data: &[u8], st: &LzwStrat) {
    let mut rng = Rng::new(st.seed ^ 0x5bd1);
    let mut i = 0;
    while i < data.len() {
        let n = match st.sub {
            0 => 255,
            n if n < 256 => n,
            256 => 1 + rng.below(255) as usize,
            _ => 1 + rng.below(4) as usize,
        };
        let n = n.min(data.len() - i);
        out.push(n as u8);
        out.extend_from_slice(&data[i..i + n]);
        i += n;
    }
    out.push(0);
}

impl MFile {
    pub fn serialise(&self) -> Ser {
        let mut s = Ser::default();
        let mut n_data = 0;
        for b in &self.blocks {
            let o = &mut s.bytes;
            match b {
                MBlock::Header(v) => {
                    o.extend_from_slice(b"GIF");
                    o.extend_from_slice(v);
                }
                MBlock::Lsd {
                    w,
                    h,
                    flags,
                    bg,
                    aspect,
                } => {
                    o.extend_from_slice(&w.to_le_bytes());
                    o.extend_from_slice(&h.to_le_bytes());
                    o.extend_from_slice(&[*flags, *bg, *aspect]);
                }
                MBlock::Gct(c) | MBlock::Lct(c) => o.extend_from_slice(c),
                MBlock::Gce(g) => {
                    let d = g.delay.to_le_bytes();
                    o.extend_from_slice(&[
                        0x21, 0xF9, 4, g.flags, d[0], d[1], g.trans, 0,
                    ]);
                }
                MBlock::Comment(v) => {
                    o.extend_from_slice(&[0x21, 0xFE]);
                    put_subs(o, v);
                }
                MBlock::App(v) => {
                    o.extend_from_slice(&[0x21, 0xFF]);
                    put_subs(o, v);
                }
                MBlock::Plain(v) => {
                    o.extend_from_slice(&[0x21, 0x01]);
                    put_subs(o, v);
                }
                MBlock::Unknown(id, v) => {
                    o.extend_from_slice(&[0x21, *id]);
                    put_subs(o, v);
                }
                MBlock::Desc(d) => {
                    o.push(0x2C);
                    for v in [d.l, d.t, d.w, d.h] {
                        o.extend_from_slice(&v.to_le_bytes());
                    }
                    o.push(d.flags);
                }
                MBlock::Data(px) => {
                    let st = &self.strats[n_data];
                    n_data += 1;
                    o.push(st.min);
                    let (lz, stats) = if st.surplus > 0 {
                        let mut rng = Rng::new(st.seed ^ 77);
                        let mut p = px.clone();
                        for _ in 0..st.surplus {
                            p.push(rng.below(1 << st.min) as u8);
                        }
                        lzw_encode(&p, st)
                    } else {
                        lzw_encode(px, st)
                    };
                    s.lzw.codes += stats.codes;
                    s.lzw.clears += stats.clears;
                    s.lzw.full_codes += stats.full_codes;
                    s.lzw.kwkwk += stats.kwkwk;
                    put_data_subs(o, &lz, st);
                }
                MBlock::Trailer => o.push(0x3B),
            }
            s.ends.push(s.bytes.len());
        }
        s
    }

    /// Group into frames; gives index of the data block for each
    pub fn frames(&self) -> Vec<(MFrame, usize)> {
        group_frames(&self.blocks)
    }

    pub fn preamble(&self) -> (MPreamble, usize) {
        group_preamble(&self.blocks)
    }

    pub fn pixels(&self) -> usize {
        self.blocks
            .iter()
            .map(|b| match b {
                MBlock::Data(d) => d.len(),
                _ => 0,
            })
            .sum()
    }

    pub fn summary(&self) -> String {
        let (p, _) = self.preamble();
        format!(
            "{}x{} frames={} blocks={} px={}",
            p.w,
            p.h,
            self.frames().len(),
            self.blocks.len(),
            self.pixels()
        )
    }
}

pub fn group_frames(blocks: &[MBlock]) -> Vec<(MFrame, usize)> {
    let mut v = vec![];
    let mut gce = None;
    let mut desc = None;
    let mut lct = None;
    for (i, b) in blocks.iter().enumerate() {
        match b {
            MBlock::Gce(g) => gce = Some(*g),
            MBlock::Plain(_) => gce = None,
            MBlock::Desc(d) => desc = Some(*d),
            MBlock::Lct(c) => lct = Some(c.clone()),
            MBlock::Data(d) => v.push((
                MFrame {
                    gce: gce.take(),
                    desc: desc.take().expect("desc"),
                    lct: lct.take(),
                    data: d.clone(),
                },
                i,
            )),
            _ => (),
        }
    }
    v
}

/// Preamble, and the index of the first frame block
pub fn group_preamble(blocks: &[MBlock]) -> (MPreamble, usize) {
    let mut p = MPreamble::default();
    for (i, b) in blocks.iter().enumerate() {
        match b {
            MBlock::Header(v) => p.version = *v,
            MBlock::Lsd {
                w,
                h,
                flags,
                bg,
                aspect,
            } => {
                p.w = *w;
                p.h = *h;
                p.flags = *flags;
                p.bg = *bg;
                p.aspect = *aspect;
            }
            MBlock::Gct(c) => p.gct = Some(c.clone()),
            MBlock::App(a) if loop_count(a).is_some() => {
                p.loop_ext = Some(a.clone())
            }
            MBlock::Comment(c) => p.comments.push(c.clone()),
            MBlock::Gce(_) | MBlock::Desc(_) => return (p, i),
            _ => (),
        }
    }
    (p, blocks.len())
}

/// Row number on the screen for each stored row
pub fn row_order(h: usize, interlaced: bool) -> Vec<usize> {
    if !interlaced {
        return (0..h).collect();
    }
    let mut v = vec![];
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut y = start;
        while y < h {
            v.push(y);
            y += step;
        }
    }
    v
}

/// Composite frames (which must be conforming) to steps
pub fn composite(pre: &MPreamble, frames: &[MFrame]) -> Vec<MStep> {
    let (cw, ch) = (pre.w as usize, pre.h as usize);
    let mut canvas = vec![[0u8; 4]; cw * ch];
    let mut steps = vec![];
    for f in frames {
        let saved = canvas.clone();
        let tbl = f.lct.as_ref().or(pre.gct.as_ref()).expect("table");
        let trans = f.gce.and_then(|g| g.transparent());
        let w = f.desc.w as usize;
        let h = f.desc.h as usize;
        for (stored, y) in row_order(h, f.desc.interlaced()).iter().enumerate()
        {
            for x in 0..w {
                let idx = f.data[stored * w + x];
                if Some(idx) == trans {
                    continue;
                }
                let i = 3 * idx as usize;
                let at =
                    (y + f.desc.t as usize) * cw + x + f.desc.l as usize;
                canvas[at] = [tbl[i], tbl[i + 1], tbl[i + 2], 255];
            }
        }
        steps.push(MStep {
            w: cw as u32,
            h: ch as u32,
            rgba: canvas.concat(),
            delay: f.gce.map(|g| g.delay).unwrap_or(0),
            trans,
        });
        match f.gce.map(|g| g.disposal()).unwrap_or(0) {
            2 => {
                for y in 0..h {
                    for x in 0..w {
                        let at = (y + f.desc.t as usize) * cw
                            + x
                            + f.desc.l as usize;
                        canvas[at] = [0; 4];
                    }
                }
            }
            3 => canvas = saved,
            _ => (),
        }
    }
    steps
}

/// Parse a complete file strictly
pub struct Parsed {
    pub blocks: Vec<MBlock>,
    pub ends: Vec<usize>,
    /// Minimum code size per image
    pub mins: Vec<u8>,
}

struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.p + n > self.b.len() {
            return Err(format!("file ends at {}", self.b.len()));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        let b = self.take(2)?;
        Ok(u16::from_le_bytes([b[0], b[1]]))
    }
    fn subs(&mut self) -> Result<Vec<Vec<u8>>, String> {
        let mut v = vec![];
        loop {
            let n = self.u8()? as usize;
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(n)?.to_vec());
        }
    }
}

pub fn parse(bytes: &[u8]) -> Result<Parsed, String> {
    let mut r = Rd { b: bytes, p: 0 };
    let mut p = Parsed {
        blocks: vec![],
        ends: vec![],
        mins: vec![],
    };
    if r.take(3)? != b"GIF" {
        return Err("no signature".into());
    }
    let v = r.take(3)?;
    if v != b"87a" && v != b"89a" {
        return Err("bad version".into());
    }
    p.blocks.push(MBlock::Header([v[0], v[1], v[2]]));
    p.ends.push(r.p);
    let (w, h) = (r.u16()?, r.u16()?);
    let (flags, bg, aspect) = (r.u8()?, r.u8()?, r.u8()?);
    p.blocks.push(MBlock::Lsd {
        w,
        h,
        flags,
        bg,
        aspect,
    });
    p.ends.push(r.p);
    if flags & 0x80 != 0 {
        let n = 3 * (2usize << (flags & 7));
        p.blocks.push(MBlock::Gct(r.take(n)?.to_vec()));
        p.ends.push(r.p);
    }
    loop {
        match r.u8()? {
            0x3B => {
                p.blocks.push(MBlock::Trailer);
                p.ends.push(r.p);
                if r.p != bytes.len() {
                    return Err(format!(
                        "{} bytes after the trailer",
                        bytes.len() - r.p
                    ));
                }
                return Ok(p);
            }
            0x21 => {
                let id = r.u8()?;
                let s = r.subs()?;
                p.blocks.push(match id {
                    0xF9 => {
                        if s.len() != 1 || s[0].len() != 4 {
                            return Err("bad graphic control".into());
                        }
                        let b = &s[0];
                        MBlock::Gce(MGce {
                            flags: b[0],
                            delay: u16::from_le_bytes([b[1], b[2]]),
                            trans: b[3],
                        })
                    }
                    0xFE => MBlock::Comment(s),
                    0xFF => MBlock::App(s),
                    0x01 => MBlock::Plain(s),
                    n => MBlock::Unknown(n, s),
                });
                p.ends.push(r.p);
            }
            0x2C => {
                let (l, t, w, h) = (r.u16()?, r.u16()?, r.u16()?, r.u16()?);
                let flags = r.u8()?;
                let d = MDesc { l, t, w, h, flags };
                p.blocks.push(MBlock::Desc(d));
                p.ends.push(r.p);
                let n = d.lct_len();
                if n > 0 {
                    p.blocks.push(MBlock::Lct(r.take(3 * n)?.to_vec()));
                    p.ends.push(r.p);
                }
                let min = r.u8()?;
                if !(2..=8).contains(&min) {
                    return Err(format!("minimum code size {min}"));
                }
                let data = r.subs()?.concat();
                let (px, _) = lzw_decode(min, &data)?;
                if px.len() != d.pixels() {
                    return Err(format!(
                        "{} pixels for a {}x{} image",
                        px.len(),
                        w,
                        h
                    ));
                }
                p.mins.push(min);
                p.blocks.push(MBlock::Data(px));
                p.ends.push(r.p);
            }
            c => return Err(format!("block code {c:02x} at {}", r.p - 1)),
        }
    }
}
