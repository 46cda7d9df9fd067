//! Looping playback
use super::*;

/// C05
pub fn c05(src: &mut Source, ctx: &Ctx) -> Check {
    let mut o = GenOpts::new();
    o.frames = 4;
    o.max_px = if src.chance(1, 6) { 600 } else { 30 };
    o.rich = false;
    o.loop_ext = Some(!src.chance(1, 6));
    let f = gen_file(src, &o);
    let ser = f.serialise();
    workload(ctx, &f, &ser);
    let (p, _) = f.preamble();
    let once: Vec<Item> = expected(&f, &ser, Mode::Steps)
        .into_iter()
        .map(|i| i.0)
        .collect();
    let k = once.len();
    let lc = p.loop_ext.as_ref().and_then(|a| loop_count(a));
    let total: Option<usize> = match lc {
        None => Some(k),
        Some(0) => None,
        Some(n) => Some((1 + n as usize) * k),
    };
    match lc {
        None => ctx.count("no_loop"),
        Some(0) => ctx.count("loop_forever"),
        Some(n) if n > 255 => ctx.count("loop_over_255"),
        Some(_) => ctx.count("loop_small"),
    }
    if lc.is_some() {
        ctx.nontrivial();
    }
    let px = p.w as usize * p.h as usize;
    let full = px <= 30 && src.chance(1, 6);
    let cap = match total {
        Some(t) if t <= 3000 && t * px <= 4_000_000 => t + 1,
        Some(t) if full && t <= 150_000 => t + 1,
        Some(t) => t.min(2000.min(2 * k + 4_000_000 / px)),
        None if full && k == 1 && src.chance(1, 20) => 66_000,
        None => 3 * k + 700.min(4_000_000 / px),
    };
    let plan = ReadPlan::gen_(src, ser.bytes.len());
    let data = Rc::new(ser.bytes.clone());
    let r = SimReader::new(ctx, data, plan);
    let mut s = Session::new(r, Mode::Looping, Limit::Default);
    ctx.event("loop", lc.map(|n| n as u64 + 1).unwrap_or(0), k as u64);
    for i in 0..cap {
        let got = s.next();
        let want = match total {
            Some(t) if i >= t => None,
            _ => Some(&once[i % k]),
        };
        if got.as_ref() != want {
            return violation(
                "loop",
                format!(
                    "loop count {lc:?}, {k} steps: item {i} is {}, should be {}",
                    got.as_ref().map(short).unwrap_or("(end)".into()),
                    want.map(short).unwrap_or("(end)".into())
                ),
            );
        }
    }
    ctx.checked();
    ctx.add("items_played", cap as u64);
    if total.is_some_and(|t| cap > t) {
        // ended for good
        ctx.count("played_to_the_end");
        for _ in 0..3 {
            if let Some(i) = s.next() {
                return violation(
                    "loop",
                    format!("loop count {lc:?}: goes on after its end: {}", short(&i)),
                );
            }
        }
    }
    Ok(())
}
