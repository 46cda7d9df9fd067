//! Streaming: no read-ahead, no waiting
use super::*;

/// C11
pub fn c11(src: &mut Source, ctx: &Ctx) -> Check {
    match src.weighted(&[3, 4, 3]) {
        0 => positions(src, ctx),
        1 => stalled(src, ctx),
        _ => several(src, ctx),
    }
}

fn gen_stream_file(src: &mut Source) -> (MFile, Ser) {
    let mut o = GenOpts::new();
    o.max_px = if src.chance(1, 8) { 3000 } else { 200 };
    let f = gen_file(src, &o);
    let ser = f.serialise();
    (f, ser)
}

const ONCE: &[Mode] = &[Mode::Blocks, Mode::Frames, Mode::Steps, Mode::PreFrames];

/// Everything has arrived (and more): nothing past an item may be taken
fn positions(src: &mut Source, ctx: &Ctx) -> Check {
    let (f, ser) = gen_stream_file(src);
    workload(ctx, &f, &ser);
    let mode = src.pick(ONCE);
    let want = expected(&f, &ser, mode);
    let mut bytes = ser.bytes.clone();
    let tail = gen_bytes(src, 0, 600);
    bytes.extend(&tail);
    let data = Rc::new(bytes);
    let plan = if src.chance(1, 2) {
        ReadPlan::gen_(src, data.len())
    } else {
        ReadPlan::ideal()
    };
    ctx.count("positions");
    ctx.nontrivial();
    let r = SimReader::new(ctx, data.clone(), plan);
    let st = r.state();
    let mut s = Session::new(r, mode, Limit::Default);
    for (i, (w, end)) in want.iter().enumerate() {
        let got = s.next();
        ctx.checked();
        if got.as_ref() != Some(w) {
            return violation(
                "content",
                format!("{mode:?}: item {i} is {got:?}, should be {}", short(w)),
            );
        }
        let pos = st.borrow().pos;
        if pos > *end {
            return violation(
                "read_ahead",
                format!("{mode:?}: item {i} ends at {end}, but {pos} bytes were consumed"),
            );
        }
    }
    if let Some(g) = s.next() {
        return violation("extra", format!("{mode:?}: {}", short(&g)));
    }
    let pos = st.borrow().pos;
    if pos != ser.bytes.len() {
        return violation(
            "position",
            format!(
                "{mode:?}: at {pos} when done, the file ends at {}",
                ser.bytes.len()
            ),
        );
    }
    Ok(())
}

/// Only the first bytes have arrived
fn stalled(src: &mut Source, ctx: &Ctx) -> Check {
    let (f, ser) = gen_stream_file(src);
    workload(ctx, &f, &ser);
    let mode = src.pick(ONCE);
    let want = expected(&f, &ser, mode);
    let data = Rc::new(ser.bytes.clone());
    let n = src.usize(1, 4);
    for _ in 0..n {
        let at = if src.chance(3, 4) {
            want[src.usize(0, want.len() - 1)].1
        } else {
            gen_offset(src, &ser)
        };
        let mut plan = if src.chance(1, 2) {
            ReadPlan::gen_(src, data.len())
        } else {
            ReadPlan::ideal()
        };
        plan.stall = Some(at);
        ctx.count("stall");
        ctx.nontrivial();
        ctx.event("stall", at as u64, mode as u64);
        let r = SimReader::new(ctx, data.clone(), plan);
        let mut s = Session::new(r, mode, Limit::Default);
        for (i, (w, e)) in want.iter().enumerate() {
            if *e > at {
                break;
            }
            ctx.checked();
            let got = s.next();
            if got.as_ref() != Some(w) {
                return violation(
                    "content",
                    format!("{mode:?} stalled at {at}: item {i} is {got:?}"),
                );
            }
        }
        if at == data.len() && s.next().is_some() {
            return violation("extra", format!("{mode:?}: item after the end"));
        }
    }
    Ok(())
}

/// Several files and other data on one stream
fn several(src: &mut Source, ctx: &Ctx) -> Check {
    let n = src.usize(1, 3);
    let mut bytes = vec![];
    let mut parts = vec![];
    for _ in 0..n {
        let (f, ser) = gen_stream_file(src);
        let start = bytes.len();
        bytes.extend(&ser.bytes);
        let gap = if src.chance(1, 3) {
            gen_bytes(src, 1, 300)
        } else {
            vec![]
        };
        bytes.extend(&gap);
        parts.push((f, ser, start, gap));
    }
    ctx.event("input", hash_bytes(&bytes), bytes.len() as u64);
    ctx.sample(|| format!("{n} files on one stream of {} bytes", bytes.len()));
    ctx.count("several_files");
    ctx.nontrivial();
    let data = Rc::new(bytes);
    let plan = ReadPlan::gen_(src, data.len());
    let mut r = SimReader::new(ctx, data.clone(), plan);
    let st = r.state();
    for (i, (f, ser, start, gap)) in parts.iter().enumerate() {
        let mode = src.pick(MODES);
        ctx.checked();
        if mode == Mode::Looping {
            // reads all of it when made
            let _ = Session::new(&mut r, mode, Limit::Default);
        } else {
            let o = drain(&mut r, None, mode, Limit::Default, 400_000);
            let want: Vec<Item> =
                expected(f, ser, mode).into_iter().map(|i| i.0).collect();
            same_items(&format!("file {i} as {mode:?}"), &o.items, &want)?;
        }
        let pos = st.borrow().pos;
        if pos != start + ser.bytes.len() {
            return violation(
                "position",
                format!(
                    "file {i} as {mode:?}: at {pos} when done, it ends at {}",
                    start + ser.bytes.len()
                ),
            );
        }
        let mut b = vec![0; gap.len()];
        if std::io::Read::read_exact(&mut r, &mut b).is_err() || &b != gap {
            return violation("tail", format!("data after file {i} is damaged"));
        }
    }
    Ok(())
}
