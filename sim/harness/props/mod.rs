//! Properties: workload, faults and oracle of each
use crate::conv::*;
use crate::ctx::{Check, Ctx, violation};
use crate::gen_::*;
use crate::io::*;
use crate::model::*;
use crate::tape::Source;
use std::rc::Rc;

mod build;
mod cli;
mod decode;
mod encode;
mod examples;
mod hostile;
mod loops;
mod memory;
mod size;
mod stream;
mod threads;

pub struct Prop {
    pub id: &'static str,
    pub num: u64,
    pub run: fn(&mut Source, &Ctx) -> Check,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const REAL_LIB: &str = "the gift crate (all of it, from /repo's working tree, with overflow checks and debug assertions) and the pix crate";
const STUB_READ: &str = "reader (SimReader), peer encoder, reference LZW codec, parser and compositor, log sink, global allocator wrapper";
const STUB_WRITE: &str = "writer (SimWriter), reference parser, LZW decoder and compositor, global allocator wrapper";

const RULE_READ: &str = "a run counts if at least one simulated fault or irregular delivery (short read, interrupt, error, cut, stall) hit the decoder while it was working; runs with the same sequence of events (reader calls with offsets and sizes, input digest, outcomes) count once";
const RULE_CASE: &str = "a run counts if its workload reached the condition the property is about (see faults_and_conditions); runs with the same sequence of events (input digest, calls with offsets and sizes, outcomes) count once";

const ASSUME: &[&str] = &[
    "the reference model (serialiser, parser, LZW codec, compositor) is right; it is written from the GIF89a text and cross-checked against itself and the library on every run",
    "sampled search: holds for the runs made, not for all inputs",
];

pub fn all() -> &'static [Prop] {
    &[
        Prop {
            id: "C01",
            num: 1,
            run: decode::c01,
            quick: 600_000,
            thorough: 24_000_000,
            rule: RULE_READ,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C02",
            num: 2,
            run: decode::c02,
            quick: 300_000,
            thorough: 12_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C03",
            num: 3,
            run: decode::c03,
            quick: 200_000,
            thorough: 8_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C04",
            num: 4,
            run: decode::c04,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C05",
            num: 5,
            run: loops::c05,
            quick: 300_000,
            thorough: 12_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C06",
            num: 6,
            run: decode::c06,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_READ,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C07",
            num: 7,
            run: decode::c07,
            quick: 600_000,
            thorough: 24_000_000,
            rule: RULE_READ,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C08",
            num: 8,
            run: hostile::c08,
            quick: 40_000,
            thorough: 1_600_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C09",
            num: 9,
            run: hostile::c09,
            quick: 40_000,
            thorough: 1_600_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: &[
                "memory bound checked: 4 MiB + 32 bytes per pixel of the limit + 64 bytes per input byte",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
        Prop {
            id: "C10",
            num: 10,
            run: hostile::c10,
            quick: 150_000,
            thorough: 6_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C11",
            num: 11,
            run: stream::c11,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_READ,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C12",
            num: 12,
            run: decode::c12,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: ASSUME,
        },
        Prop {
            id: "C13",
            num: 13,
            run: encode::c13,
            quick: 200_000,
            thorough: 8_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C14",
            num: 14,
            run: encode::c14,
            quick: 600_000,
            thorough: 24_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C15",
            num: 15,
            run: encode::c15,
            quick: 800_000,
            thorough: 32_000_000,
            rule: "a run counts if at least one short write, interrupt, refused write or hard error hit the encoder; runs with the same sequence of events (writer calls with offsets and sizes, outcomes) count once",
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C16",
            num: 16,
            run: encode::c16,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C17",
            num: 17,
            run: encode::c17,
            quick: 300_000,
            thorough: 12_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C18",
            num: 18,
            run: threads::c18,
            quick: 50_000,
            thorough: 2_000_000,
            rule: "every run has two or more sessions; runs with the same sessions and the same sequence of scheduling decisions (turns, grants at I/O calls, migrations, nested turns) count once",
            real: REAL_LIB,
            stubs: "reader and writer with scheduling points, scheduler which lets one thread run at a time, reference model",
            assumptions: &[
                "threads are switched at read and write calls and at item boundaries only; the library has no unsafe code, so between these points threads could only meet in safe shared state",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
        Prop {
            id: "C19",
            num: 19,
            run: cli::c19,
            quick: 10_000,
            thorough: 500_000,
            rule: "every run executes the command at least once; runs with the same files and the same sequence of system calls (kind, file, offset) and exit status count once",
            real: "the gift command as built by cargo (main.rs, gift, argh, termcolor, env_logger, std), as a process",
            stubs: "open, read and write of the C library (preloaded shim), input files from the simulated peer, reference model",
            assumptions: &[
                "faults in the bytes after the last line of the output (a colour reset) are not judged: the standard library ignores errors when it flushes standard output at exit",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
        Prop {
            id: "C20",
            num: 20,
            run: memory::c20,
            quick: 8_000,
            thorough: 320_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_READ,
            assumptions: &[
                "memory bound checked: live heap after an item is dropped may grow by at most 16 KiB + 8 bytes per pixel of the largest frame + 16 per pixel of the screen over its value after the first items",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
        Prop {
            id: "C21",
            num: 21,
            run: build::c21,
            quick: 800_000,
            thorough: 32_000_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: ASSUME,
        },
        Prop {
            id: "C22",
            num: 22,
            run: size::c22,
            quick: 40_000,
            thorough: 1_600_000,
            rule: RULE_CASE,
            real: REAL_LIB,
            stubs: STUB_WRITE,
            assumptions: &[
                "size bound checked: 1.25 times plain LZW with 8-bit literals, plus 64 bytes, for each image",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
        Prop {
            id: "C23",
            num: 23,
            run: examples::c23,
            quick: 20_000,
            thorough: 800_000,
            rule: "every run executes an example program at least once; runs with the same files and the same sequence of system calls (kind, file, offset) and exit status count once",
            real: "the example programs as built by cargo (with gift, pix and std), as processes",
            stubs: "open, read and write of the C library (preloaded shim), input files from the simulated peer, reference model",
            assumptions: &[
                "what the decoding examples print for an item is taken from the library's own Debug format, in the simulator's process and from a slice",
                "sampled search: holds for the runs made, not for all inputs",
            ],
        },
    ]
}

/// Hash of bytes for the digest
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in b {
        h = (h ^ *v as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

/// Items of a conforming file with the offset where each is complete.
/// Not for looping.
pub fn expected(f: &MFile, ser: &Ser, mode: Mode) -> Vec<(Item, usize)> {
    match mode {
        Mode::Blocks => f
            .blocks
            .iter()
            .zip(&ser.ends)
            .map(|(b, e)| (Item::Block(b.clone()), *e))
            .collect(),
        Mode::Frames => f
            .frames()
            .into_iter()
            .map(|(fr, i)| (Item::Frame(fr), ser.ends[i]))
            .collect(),
        Mode::PreFrames => {
            let (p, i) = f.preamble();
            let mut v = vec![(Item::Preamble(p), ser.ends[i])];
            v.extend(expected(f, ser, Mode::Frames));
            v
        }
        Mode::Steps | Mode::Looping => {
            let (p, _) = f.preamble();
            let fr = f.frames();
            let ends: Vec<usize> = fr.iter().map(|(_, i)| ser.ends[*i]).collect();
            let frames: Vec<MFrame> = fr.into_iter().map(|(f, _)| f).collect();
            composite(&p, &frames)
                .into_iter()
                .zip(ends)
                .map(|(s, e)| (Item::Step(s), e))
                .collect()
        }
    }
}

/// Compare items seen with items wanted
pub fn same_items(what: &str, got: &[Item], want: &[Item]) -> Check {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return violation(
                "content",
                format!("{what}: item {i} is {}, should be {}", short(g), short(w)),
            );
        }
    }
    if got.len() < want.len() {
        return violation(
            "missing",
            format!(
                "{what}: ended after {} items, should go on with {}",
                got.len(),
                short(&want[got.len()])
            ),
        );
    }
    if got.len() > want.len() {
        return violation(
            "extra",
            format!(
                "{what}: {} items, item {} should not be there: {}",
                got.len(),
                want.len(),
                short(&got[want.len()])
            ),
        );
    }
    Ok(())
}

pub fn short(i: &Item) -> String {
    let s = format!("{i:?}");
    if s.len() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

/// Check a drain against the complete items before an error.
pub fn check_cut(
    what: &str,
    ctx: &Ctx,
    want: &[(Item, usize)],
    at: usize,
    err: &str,
    obs: &Obs,
    mode: Mode,
) -> Check {
    ctx.checked();
    if !obs.ended {
        return violation("endless", format!("{what}: does not end"));
    }
    if mode == Mode::Looping {
        return check_loop_err(what, want, err, obs);
    }
    let mut w: Vec<Item> = want
        .iter()
        .take_while(|(_, e)| *e <= at)
        .map(|(i, _)| i.clone())
        .collect();
    if mode == Mode::PreFrames
        && w.is_empty()
        && want.first().is_some_and(|(_, e)| at + 10 >= *e)
        && let [Item::Preamble(_), Item::Err(_)] = &obs.items[..]
    {
        // the preamble may be known before all of the block which ends it
        w.push(want[0].0.clone());
    }
    w.push(Item::Err(err.to_string()));
    same_items(what, &obs.items, &w)
}

/// Looping iteration must report the error, and play nothing wrong before it
pub fn check_loop_err(
    what: &str,
    want: &[(Item, usize)],
    err: &str,
    obs: &Obs,
) -> Check {
    let n = obs.items.len();
    if n == 0 || obs.items[n - 1] != Item::Err(err.to_string()) {
        return violation(
            "loop_error",
            format!(
                "{what}: last item is {}, should be error {err}",
                obs.items.last().map(short).unwrap_or("(none)".into())
            ),
        );
    }
    for (i, g) in obs.items[..n - 1].iter().enumerate() {
        if want.get(i).map(|w| &w.0) != Some(g) {
            return violation(
                "content",
                format!("{what}: item {i} before the error is {}", short(g)),
            );
        }
    }
    Ok(())
}

/// Drain with the simulated reader
pub fn sim_drain(
    ctx: &Ctx,
    data: &Rc<Vec<u8>>,
    plan: ReadPlan,
    mode: Mode,
    limit: Limit,
    cap: usize,
) -> Obs {
    let r = SimReader::new(ctx, data.clone(), plan);
    let st = r.state();
    ctx.event("session", mode as u64, data.len() as u64);
    let o = drain(r, Some(st), mode, limit, cap);
    for i in &o.items {
        if let Item::Err(e) = i {
            ctx.event("error", hash_bytes(e.as_bytes()), 0);
            ctx.note(|| format!("  -> error {e}"));
        }
    }
    ctx.event("items", o.items.len() as u64, o.ended as u64);
    o
}

/// Input for the trace
pub fn dump(bytes: &[u8]) -> String {
    let mut s = format!("input {} bytes:", bytes.len());
    for b in bytes.iter().take(600) {
        s.push_str(&format!(" {b:02x}"));
    }
    s
}

/// Maybe turn logging on (costly for large images)
pub fn maybe_log(src: &mut Source, ctx: &Ctx, px: usize) {
    if px < 600 && src.chance(1, 8) {
        use log::LevelFilter::*;
        log::set_max_level(src.pick(&[Trace, Debug, Info, Warn, Error]));
        ctx.count("logging_on");
    }
}

/// Note the workload
pub fn workload(ctx: &Ctx, f: &MFile, ser: &Ser) {
    ctx.event("input", hash_bytes(&ser.bytes), ser.bytes.len() as u64);
    ctx.sample(|| format!("{} bytes={}", f.summary(), ser.bytes.len()));
    ctx.note(|| dump(&ser.bytes));
    for (b, e) in f.blocks.iter().zip(&ser.ends) {
        ctx.note(|| {
            let s = format!("  block to {e}: {b:?}");
            s.chars().take(200).collect()
        });
    }
    if ser.lzw.full_codes > 0 {
        ctx.count("lzw_table_full");
    }
    if ser.lzw.full_codes > 61_000 {
        ctx.count("lzw_deferred_over_65536");
    }
    if ser.lzw.kwkwk > 0 {
        ctx.count("lzw_code_used_at_once");
    }
}
