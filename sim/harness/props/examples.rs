//! The example programs, run as processes with their system calls under
//! control
use super::cli::*;
use super::*;
use gift::Decoder;
use std::ffi::OsString;

const ALL: [&str; 6] = [
    "dec_block",
    "dec_frame",
    "dec_raster",
    "enc_block",
    "enc_raster",
    "dots",
];

/// C23: example programs
pub fn c23(src: &mut Source, ctx: &Ctx) -> Check {
    let exe = src.pick(&ALL);
    ctx.count(exe);
    ctx.nontrivial();
    let built = |e: &&&str| {
        let p = format!("{}/target/cli/debug/examples/{e}", root());
        std::path::Path::new(&p).exists()
    };
    if !built(&&exe) {
        ALL.iter().find(built).expect("examples were not built");
        ctx.count("absent");
        return Ok(());
    }
    if exe.starts_with("dec") {
        reading(src, ctx, exe)
    } else {
        writing(src, ctx, exe)
    }
}

/// Lines which an example should print
struct Lines {
    text: Vec<u8>,
    /// Should it succeed?
    ok: bool,
    /// There are more
    more: bool,
}

fn lines(exe: &str, bytes: &[u8]) -> Lines {
    let mut out = vec![];
    let mut more = false;
    let mut pixels = 0;
    let mut put = |l: String, px: usize| {
        out.extend_from_slice(l.as_bytes());
        out.push(b'\n');
        pixels += px;
        more = out.len() > 400_000 || pixels > 1_000_000;
        !more
    };
    let dec = Decoder::new(bytes);
    let mut ok = true;
    match exe {
        "dec_block" => {
            for b in dec.into_blocks() {
                ok = b.is_ok();
                if !ok || !put(format!("block: {:?}", b.unwrap()), 0) {
                    break;
                }
            }
        }
        "dec_frame" => {
            let mut dec = dec.into_frames();
            match dec.preamble() {
                Ok(p) => {
                    put(format!("preamble: {p:?}"), 0);
                    for f in dec {
                        ok = f.is_ok();
                        if !ok || !put(format!("frame: {:?}", f.unwrap()), 0) {
                            break;
                        }
                    }
                }
                Err(_) => ok = false,
            }
        }
        _ => {
            for s in dec {
                ok = s.is_ok();
                if !ok {
                    break;
                }
                let s = s.unwrap();
                let (w, h) = (s.raster().width(), s.raster().height());
                if !put(format!("raster: {w}x{h}"), (w * h) as usize) {
                    break;
                }
            }
        }
    }
    Lines {
        text: out,
        ok,
        more,
    }
}

fn fails(r: &Ran, why: &str) -> Check {
    if let Some(s) = r.signal {
        return violation("signal", format!("ended by signal {s}"));
    }
    if r.code == Some(0) {
        return violation("silent", format!("success, but {why}"));
    }
    if squeeze(&text(&r.err)).is_empty() {
        return violation("message", format!("no message, but {why}"));
    }
    Ok(())
}

fn works(r: &Ran) -> Check {
    if r.code != Some(0) {
        return violation(
            "failure",
            format!("exit {:?} {:?}: {}", r.code, r.signal, text(&r.err)),
        );
    }
    Ok(())
}

fn reading(src: &mut Source, ctx: &Ctx, mut exe: &str) -> Check {
    let mut f = gen_input(src, 0);
    // rendering a large screen is slow without optimisation
    let (pre, _) = f.file.preamble();
    if pre.w as usize * pre.h as usize > 300_000 {
        exe = "dec_frame";
    }
    // the lines are long
    if f.bytes.len() > 30_000 {
        f.bytes.truncate(30_000);
        f.bad = Some("truncated");
    }
    let what = src.weighted(&[4, 4, 3, 3]);
    if what == 1 && f.bad.is_none() {
        spoil(src, &mut f);
    }
    ctx.count(f.bad.unwrap_or("whole"));
    let dir = Scratch::new();
    let dir = &dir.0;
    let path = std::path::Path::new(dir).join(&f.name);
    let there = match f.bad {
        Some("missing") => false,
        Some("directory") => {
            std::fs::create_dir(&path).expect("directory");
            false
        }
        _ => {
            std::fs::write(&path, &f.bytes).expect("input file");
            true
        }
    };
    ctx.event("input", hash_bytes(&f.bytes), f.bytes.len() as u64);
    ctx.note(|| format!("{exe} {:?} {:?} {}", f.name, f.bad, dump(&f.bytes)));
    let Lines {
        text: want,
        ok,
        more,
    } = lines(exe, if there { &f.bytes } else { &[] });
    let mut plan = Plan::gen_(src, 1);
    plan.log = None;
    if f.bytes.len() > 3000 && plan.rchunk > 0 {
        plan.rchunk = plan.rchunk.max(1000);
    }
    if want.len() > 3000 && plan.wchunk > 0 {
        plan.wchunk = plan.wchunk.max(1000);
    }
    // long output is cut off by a fault
    let mut cut = None;
    if more || (what == 3 && !want.is_empty()) {
        let at = src.usize(0, want.len() - 1);
        cut = Some(at);
        plan.wfail = Some((at, src.pick(&[28, 32, 5, 27, 11])));
    } else if what == 2 && there {
        if src.chance(1, 4) {
            plan.ofail = Some((0, src.pick(&[13, 2, 24, 5, 40])));
        } else {
            let at = src.usize(0, f.bytes.len().max(1) - 1);
            plan.rfail = Some((0, at, src.pick(&[5, 116, 110, 11, 21])));
        }
    }
    ctx.sample(|| {
        format!("{exe} {} bytes {} {plan:?}", f.bytes.len(), f.bad.unwrap_or("-"))
    });
    ctx.note(|| format!("plan {plan:?}"));
    let r = run_exe(
        ctx,
        &format!("examples/{exe}"),
        dir,
        &plan,
        std::slice::from_ref(&f.name),
    );
    ctx.checked();
    if let Some(at) = cut {
        fails(&r, "the output failed")?;
        if r.out[..] != want[..at] {
            return violation("output", "other output ahead of the fault".into());
        }
        return Ok(());
    }
    if plan.ofail.is_some() {
        fails(&r, "the file could not be opened")?;
        return if r.out.is_empty() {
            Ok(())
        } else {
            violation("output", "output without input".into())
        };
    }
    if let Some((_, at, _)) = plan.rfail {
        fails(&r, "a read failed")?;
        // the items ahead of the fault
        let want = lines(exe, &f.bytes[..at]).text;
        if r.out != want {
            return violation(
                "output",
                format!("{:?} should be {:?}", text(&r.out), text(&want)),
            );
        }
        return Ok(());
    }
    if ok {
        works(&r)?;
    } else {
        fails(&r, "the file is bad")?;
    }
    if r.out != want {
        return violation(
            "output",
            format!("{:?} should be {:?}", text(&r.out), text(&want)),
        );
    }
    // the model knows how many there are
    if f.bad.is_none() {
        let n = match exe {
            "dec_block" => f.file.blocks.len(),
            "dec_frame" => 1 + f.file.frames().len(),
            _ => return Ok(()),
        };
        let got = r.out.split(|b| *b == b'\n').count() - 1;
        if n != got {
            return violation("output", format!("{got} lines, should be {n}"));
        }
    }
    Ok(())
}

fn writing(src: &mut Source, ctx: &Ctx, exe: &str) -> Check {
    let what = src.weighted(&[3, 6, 1, 1]);
    let mut plan = Plan::gen_(src, 1);
    plan.log = None;
    plan.tofile = true;
    let name = match exe {
        "enc_block" => "test.gif",
        "enc_raster" => "enc_raster.gif",
        _ => "dots.gif",
    };
    let dir = Scratch::new();
    let dir = &dir.0;
    let path = std::path::Path::new(dir).join(name);
    let exe = &format!("examples/{exe}");
    let run = |plan: &Plan| {
        let r = run_exe(ctx, exe, dir, plan, &[] as &[OsString]);
        let out = std::fs::read(&path).unwrap_or_default();
        ctx.event("output", hash_bytes(&out), out.len() as u64);
        ctx.checked();
        (r, out)
    };
    // what it writes without a fault
    let ideal = Plan {
        tofile: true,
        ..Default::default()
    };
    let (r, want) = run(&ideal);
    works(&r)?;
    content(name, &want)?;
    if what == 3 {
        // a longer file is there already
        ctx.count("overwritten");
        let mut old = want.clone();
        old.extend(std::iter::repeat_n(0xAA, src.usize(1, 300)));
        std::fs::write(&path, &old).expect("old file");
    } else {
        let _ = std::fs::remove_file(&path);
    }
    if what == 2 {
        plan.cfail = Some(src.pick(&[13, 30, 28, 21]));
    } else if what == 1 {
        let at = src.usize(0, want.len() - 1);
        plan.wfail = Some((at, src.pick(&[28, 5, 27, 122])));
    }
    ctx.sample(|| format!("{exe} {plan:?}"));
    ctx.note(|| format!("{exe} plan {plan:?}"));
    let (r, out) = run(&plan);
    if plan.cfail.is_some() {
        return fails(&r, "the file could not be made");
    }
    if let Some((at, e)) = plan.wfail {
        if out[..] != want[..at] {
            return violation("output", format!("not the first {at} bytes"));
        }
        let m = format!("writing failed at {at} of {} with {e}", want.len());
        if r.code == Some(0) {
            return violation("unreported-write", m);
        }
        return fails(&r, &m);
    }
    works(&r)?;
    if out != want {
        return violation("output", "other output with short writes".into());
    }
    Ok(())
}

/// What should be in the file
fn content(name: &str, bytes: &[u8]) -> Check {
    let p = match parse(bytes) {
        Ok(p) => p,
        Err(e) => return violation("format", format!("not conforming: {e}")),
    };
    let f = MFile {
        blocks: p.blocks,
        ..Default::default()
    };
    let (pre, _) = f.preamble();
    let frames: Vec<MFrame> = f.frames().into_iter().map(|f| f.0).collect();
    let steps = composite(&pre, &frames);
    let lp = pre.loop_ext.as_ref().and_then(|a| loop_count(a));
    let sz = (pre.w, pre.h, steps.len(), lp);
    let px = |s: usize, x: usize, y: usize| -> [u8; 4] {
        let i = (y * pre.w as usize + x) * 4;
        steps[s].rgba[i..i + 4].try_into().expect("pixel")
    };
    let bad = |what: &str| violation("content", format!("{name}: {what}"));
    match name {
        "test.gif" | "enc_raster.gif" => {
            if sz != (4, 4, 1, None) {
                return bad(&format!("{sz:?}"));
            }
            for y in 0..4 {
                for x in 0..4 {
                    let want = match (name, x == y, x + y == 3) {
                        ("test.gif", false, false) => [0, 0, 0, 255],
                        ("test.gif", ..) => [255, 255, 255, 255],
                        (_, true, _) => [255, 255, 0, 255],
                        _ => [255, 0, 0, 255],
                    };
                    if px(0, x, y) != want {
                        return bad(&format!("pixel {x},{y}"));
                    }
                }
            }
        }
        _ => {
            if sz != (32, 32, 2, Some(0)) {
                return bad(&format!("{sz:?}"));
            }
            if steps.iter().any(|s| s.delay != 200) {
                return bad("delay");
            }
            for s in 0..2 {
                for (x, y) in [(0, 0), (31, 31), (16, 5), (5, 16)] {
                    if px(s, x, y) != [0, 0, 0, 255] {
                        return bad("ground");
                    }
                }
                for (x, y) in [(12, 11), (20, 11), (11, 20), (20, 20)] {
                    let [r, g, b, _] = px(s, x, y);
                    if r < 200 || !(150..=220).contains(&g) || b > 60 {
                        return bad("amber dot");
                    }
                }
            }
            let [r, g, b, _] = px(0, 16, 16);
            if r < 200 || g > 60 || b > 60 {
                return bad("red dot");
            }
            if px(1, 16, 16) != [0, 0, 0, 255] {
                return bad("red dot stays");
            }
        }
    }
    Ok(())
}
