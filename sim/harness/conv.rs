//! Conversions between library values and model values, and drains
use crate::io::{RState, Token};
use crate::model::*;
use gift::block::*;
use gift::{Decoder, Error, Step};
use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

/// Error as comparable text, with the identity of injected errors
pub fn err_text(e: &Error) -> String {
    match e {
        Error::Io(e) => io_text(e),
        e if e.to_string().is_empty() => format!("{e:?} without a text"),
        Error::TryFromInt(_) => "TryFromInt".to_string(),
        e => format!("{e:?}"),
    }
}

pub fn io_text(e: &std::io::Error) -> String {
    let tok = e
        .get_ref()
        .and_then(|p| p.downcast_ref::<Token>())
        .map(|t| t.0);
    format!("Io({:?}, token={:?}, os={:?})", e.kind(), tok, e.raw_os_error())
}

pub fn mgce(g: GraphicControl) -> MGce {
    MGce {
        flags: g.flags(),
        delay: g.delay_time_cs(),
        trans: g.transparent_color_idx(),
    }
}

pub fn mdesc(d: &ImageDesc) -> MDesc {
    MDesc {
        l: d.left(),
        t: d.top(),
        w: d.width(),
        h: d.height(),
        flags: d.flags(),
    }
}

pub fn mblock(b: &Block) -> MBlock {
    match b {
        Block::Header(b) => MBlock::Header(b.version()),
        Block::LogicalScreenDesc(b) => MBlock::Lsd {
            w: b.screen_width(),
            h: b.screen_height(),
            flags: b.flags(),
            bg: b.background_color_idx(),
            aspect: b.pixel_aspect_ratio(),
        },
        Block::GlobalColorTable(b) => MBlock::Gct(b.colors().to_vec()),
        Block::PlainText(b) => MBlock::Plain(b.sub_blocks().to_vec()),
        Block::GraphicControl(b) => MBlock::Gce(mgce(*b)),
        Block::Comment(b) => MBlock::Comment(b.comments().to_vec()),
        Block::Application(b) => MBlock::App(b.app_data().to_vec()),
        Block::Unknown(b) => {
            let id = b.ext_id();
            MBlock::Unknown(
                if id.len() == 1 { id[0] } else { 0xF9 },
                b.sub_blocks().to_vec(),
            )
        }
        Block::ImageDesc(b) => MBlock::Desc(mdesc(b)),
        Block::LocalColorTable(b) => MBlock::Lct(b.colors().to_vec()),
        Block::ImageData(b) => MBlock::Data(b.data().to_vec()),
        Block::Trailer(_) => MBlock::Trailer,
    }
}

pub fn mframe(f: &Frame) -> MFrame {
    MFrame {
        gce: f.graphic_control_ext.map(mgce),
        desc: mdesc(&f.image_desc),
        lct: f.local_color_table.as_ref().map(|t| t.colors().to_vec()),
        data: f.image_data.data().to_vec(),
    }
}

pub fn mpreamble(p: &Preamble) -> MPreamble {
    let d = p.logical_screen_desc;
    MPreamble {
        version: p.header.version(),
        w: p.screen_width(),
        h: p.screen_height(),
        flags: d.flags(),
        bg: d.background_color_idx(),
        aspect: d.pixel_aspect_ratio(),
        gct: p.global_color_table.as_ref().map(|t| t.colors().to_vec()),
        loop_ext: p.loop_count_ext.as_ref().map(|a| a.app_data().to_vec()),
        comments: p.comments.iter().map(|c| c.comments().to_vec()).collect(),
    }
}

pub fn mstep(s: &Step) -> MStep {
    let r = s.raster();
    MStep {
        w: r.width(),
        h: r.height(),
        rgba: r.as_u8_slice().to_vec(),
        delay: s.delay_time_cs().unwrap_or(0),
        trans: s.transparent_color(),
    }
}

/// Model block to library block
pub fn gblock(b: &MBlock) -> Block {
    match b {
        MBlock::Header(v) => Header::with_version(*v).into(),
        MBlock::Lsd {
            w,
            h,
            flags,
            bg,
            aspect,
        } => LogicalScreenDesc::default()
            .with_screen_width(*w)
            .with_screen_height(*h)
            .with_flags(*flags)
            .with_background_color_idx(*bg)
            .with_pixel_aspect_ratio(*aspect)
            .into(),
        MBlock::Gct(c) => GlobalColorTable::with_colors(c).into(),
        MBlock::Gce(g) => ggce(g).into(),
        MBlock::Comment(v) => {
            let mut b = Comment::default();
            v.iter().for_each(|s| b.add_comment(s));
            b.into()
        }
        MBlock::App(v) => {
            let mut b = Application::default();
            v.iter().for_each(|s| b.add_app_data(s));
            b.into()
        }
        MBlock::Plain(v) => {
            let mut b = PlainText::default();
            v.iter().for_each(|s| b.add_sub_block(s));
            b.into()
        }
        MBlock::Unknown(id, v) => {
            let mut b = Unknown::default();
            b.add_sub_block(&[*id]);
            v.iter().for_each(|s| b.add_sub_block(s));
            b.into()
        }
        MBlock::Desc(d) => gdesc(d).into(),
        MBlock::Lct(c) => LocalColorTable::with_colors(c).into(),
        MBlock::Data(d) => gdata(d).into(),
        MBlock::Trailer => Trailer::default().into(),
    }
}

pub fn ggce(g: &MGce) -> GraphicControl {
    let mut b = GraphicControl::default();
    b.set_flags(g.flags);
    b.set_delay_time_cs(g.delay);
    b.set_transparent_color_idx(g.trans);
    b
}

pub fn gdesc(d: &MDesc) -> ImageDesc {
    ImageDesc::default()
        .with_left(d.l)
        .with_top(d.t)
        .with_width(d.w)
        .with_height(d.h)
        .with_flags(d.flags)
}

pub fn gdata(d: &[u8]) -> ImageData {
    let mut b = ImageData::new(d.len());
    b.data_mut().extend_from_slice(d);
    b
}

pub fn gframe(f: &MFrame) -> Frame {
    Frame::new(
        f.gce.as_ref().map(ggce),
        gdesc(&f.desc),
        f.lct.as_ref().map(|c| LocalColorTable::with_colors(c)),
        gdata(&f.data),
    )
}

pub fn gpreamble(p: &MPreamble) -> Preamble {
    Preamble {
        header: Header::with_version(p.version),
        logical_screen_desc: LogicalScreenDesc::default()
            .with_screen_width(p.w)
            .with_screen_height(p.h)
            .with_flags(p.flags)
            .with_background_color_idx(p.bg)
            .with_pixel_aspect_ratio(p.aspect),
        global_color_table: p
            .gct
            .as_ref()
            .map(|c| GlobalColorTable::with_colors(c)),
        loop_count_ext: p.loop_ext.as_ref().map(|v| {
            let mut b = Application::default();
            v.iter().for_each(|s| b.add_app_data(s));
            b
        }),
        comments: p
            .comments
            .iter()
            .map(|v| {
                let mut b = Comment::default();
                v.iter().for_each(|s| b.add_comment(s));
                b
            })
            .collect(),
    }
}

/// Which iterator is used
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Blocks,
    Frames,
    /// Preamble first, then frames
    PreFrames,
    Steps,
    Looping,
}

pub const MODES: &[Mode] = &[
    Mode::Blocks,
    Mode::Frames,
    Mode::Steps,
    Mode::PreFrames,
    Mode::Looping,
];

/// Item yielded by any iterator
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Block(MBlock),
    Frame(MFrame),
    Preamble(MPreamble),
    NoPreamble,
    Step(MStep),
    Err(String),
}

impl Item {
    pub fn is_err(&self) -> bool {
        matches!(self, Item::Err(_))
    }
}

/// What was seen in a drain
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub items: Vec<Item>,
    /// Reader position after each item
    pub pos: Vec<usize>,
    /// Reader asked-for offset after each item
    pub asked: Vec<usize>,
    /// The iterator ended (None) before the cap
    pub ended: bool,
}

impl Obs {
    pub fn error(&self) -> Option<&str> {
        self.items.iter().find_map(|i| match i {
            Item::Err(e) => Some(e.as_str()),
            _ => None,
        })
    }
}

/// Limit for the decoder
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Limit {
    Default,
    Set(Option<usize>),
    /// Set twice: the last one counts
    Twice(Option<usize>, Option<usize>),
}

fn decoder<R: Read>(r: R, limit: Limit) -> Decoder<R> {
    match limit {
        Limit::Default => Decoder::new(r),
        Limit::Set(l) => Decoder::new(r).max_image_sz(l),
        Limit::Twice(a, b) => Decoder::new(r).max_image_sz(a).max_image_sz(b),
    }
}

/// A decode session which can be advanced one item at a time
pub enum Session<R: Read> {
    Blocks(gift::decode::Blocks<R>),
    Frames(gift::decode::Frames<R>),
    PreFrames(gift::decode::Frames<R>, u8),
    Steps(gift::decode::Steps<R>),
}

impl<R: Read> Session<R> {
    pub fn new(r: R, mode: Mode, limit: Limit) -> Self {
        let d = decoder(r, limit);
        match mode {
            Mode::Blocks => Session::Blocks(d.into_blocks()),
            Mode::Frames => Session::Frames(d.into_frames()),
            Mode::PreFrames => Session::PreFrames(d.into_frames(), 0),
            Mode::Steps => Session::Steps(d.into_steps()),
            Mode::Looping => Session::Steps(d.into_iter()),
        }
    }

    pub fn next(&mut self) -> Option<Item> {
        match self {
            Session::Blocks(b) => b.next().map(|r| match r {
                Ok(b) => Item::Block(mblock(&b)),
                Err(e) => Item::Err(err_text(&e)),
            }),
            Session::PreFrames(f, n) if *n == 0 => {
                *n = 1;
                Some(match f.preamble() {
                    Ok(Some(p)) => Item::Preamble(mpreamble(&p)),
                    Ok(None) => Item::NoPreamble,
                    Err(e) => {
                        *n = 2;
                        Item::Err(err_text(&e))
                    }
                })
            }
            // a failed preamble ends the session
            Session::PreFrames(_, 2) => None,
            Session::Frames(f) | Session::PreFrames(f, _) => {
                f.next().map(|r| match r {
                    Ok(f) => Item::Frame(mframe(&f)),
                    Err(e) => Item::Err(err_text(&e)),
                })
            }
            Session::Steps(s) => s.next().map(|r| match r {
                Ok(s) => Item::Step(mstep(&s)),
                Err(e) => Item::Err(err_text(&e)),
            }),
        }
    }

    /// Advance without converting the item: Some(is error)
    pub fn step(&mut self) -> Option<Result<(), String>> {
        match self {
            Session::Blocks(b) => {
                b.next().map(|r| r.map(|_| ()).map_err(|e| err_text(&e)))
            }
            Session::Frames(f) => {
                f.next().map(|r| r.map(|_| ()).map_err(|e| err_text(&e)))
            }
            Session::PreFrames(_, _) => self.next().map(|i| match i {
                Item::Err(e) => Err(e),
                _ => Ok(()),
            }),
            Session::Steps(s) => {
                s.next().map(|r| r.map(|_| ()).map_err(|e| err_text(&e)))
            }
        }
    }
}

/// Drain up to `cap` items
pub fn drain<R: Read>(
    r: R,
    st: Option<Rc<RefCell<RState>>>,
    mode: Mode,
    limit: Limit,
    cap: usize,
) -> Obs {
    let mut s = Session::new(r, mode, limit);
    let mut o = Obs::default();
    let mut sz = 0;
    while o.items.len() < cap {
        match s.next() {
            Some(i) => {
                if let (Mode::Looping, Item::Step(s)) = (mode, &i) {
                    // may go on for ever
                    sz += s.rgba.len() + 200;
                    if sz > 16 << 20 {
                        break;
                    }
                }
                o.items.push(i);
                if let Some(st) = &st {
                    o.pos.push(st.borrow().pos);
                    o.asked.push(st.borrow().asked);
                }
            }
            None => {
                o.ended = true;
                break;
            }
        }
    }
    o
}
