//! The gift command, run as a process with its system calls under control
use super::*;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

unsafe extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

/// System call faults
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub seed: u64,
    pub rchunk: u64,
    pub wchunk: u64,
    pub rintr: u64,
    pub wintr: u64,
    pub rfail: Option<(usize, usize, i32)>,
    pub ofail: Option<(usize, i32)>,
    pub ointr: Option<(usize, u64)>,
    pub wfail: Option<(usize, i32)>,
    pub log: Option<&'static str>,
    /// Output is a file made by the program
    pub tofile: bool,
    pub cfail: Option<i32>,
}

impl Plan {
    fn text(&self) -> String {
        let mut s = format!(
            "trace trace\nseed {}\nrchunk {}\nwchunk {}\nrintr {}\nwintr {}\n",
            self.seed, self.rchunk, self.wchunk, self.rintr, self.wintr
        );
        if let Some((f, o, e)) = self.rfail {
            s.push_str(&format!("rfail {f} {o} {e}\n"));
        }
        if let Some((f, e)) = self.ofail {
            s.push_str(&format!("ofail {f} {e}\n"));
        }
        if let Some((f, n)) = self.ointr {
            s.push_str(&format!("ointr {f} {n}\n"));
        }
        if let Some((o, e)) = self.wfail {
            s.push_str(&format!("wfail {o} {e}\n"));
        }
        if self.tofile {
            s.push_str("tofile 1\n");
        }
        if let Some(e) = self.cfail {
            s.push_str(&format!("cfail {e}\n"));
        }
        s
    }
    /// Short and interrupted calls
    pub fn gen_(src: &mut Source, n: usize) -> Self {
        Plan {
            seed: src.draw(1 << 30),
            rchunk: src.pick(&[0, 1, 3, 10, 100, 1000, 9000]),
            wchunk: src.pick(&[0, 1, 3, 10, 100]),
            rintr: src.pick(&[0, 2, 5, 20]),
            wintr: src.pick(&[0, 2, 5, 20]),
            ointr: src
                .chance(1, 6)
                .then(|| (src.usize(0, n - 1), src.draw(3) + 1)),
            log: src.chance(1, 12).then(|| {
                src.pick(&["trace", "debug", "info", "warn", "error", "gift=debug"])
            }),
            ..Default::default()
        }
    }
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

pub fn root() -> String {
    std::env::var("GSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Scratch directory, removed at the end of the run
pub struct Scratch(pub String);

impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var("GSIM_SCRATCH")
            .unwrap_or_else(|_| format!("{}/out", root()));
        let d = format!("{base}/cli.{}", std::process::id());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run_cli(ctx: &Ctx, dir: &str, plan: &Plan, files: &[OsString]) -> Ran {
    run_exe(ctx, "gift", dir, plan, files)
}

/// Run a program in a directory
pub fn run_exe(
    ctx: &Ctx,
    exe: &str,
    dir: &str,
    plan: &Plan,
    files: &[OsString],
) -> Ran {
    let exe = format!("{}/target/cli/debug/{exe}", root());
    let shim = format!("{}/target/shim.so", root());
    std::fs::write(format!("{dir}/plan"), plan.text()).expect("plan");
    let _ = std::fs::remove_file(format!("{dir}/trace"));
    let mut c = Command::new(exe);
    c.args(files)
        .current_dir(dir)
        .env_clear()
        .env("LD_PRELOAD", shim)
        .env("GSIM_PLAN", "plan")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if let Some(l) = plan.log {
        ctx.count("logging_on");
        c.env("RUST_LOG", l);
    }
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[20, 21]);
            setrlimit(4, &[0, 0]);
            Ok(())
        });
    }
    let o = c.output().expect("run program");
    let trace =
        std::fs::read_to_string(format!("{dir}/trace")).unwrap_or_default();
    assert!(trace.starts_with("start"), "shim is not active");
    for l in trace.lines().skip(1) {
        let mut i = l.split(' ');
        let tag = match i.next().unwrap_or("") {
            "read" => "cli_read",
            "read_short" => "cli_read_short",
            "read_interrupted" => "cli_read_interrupted",
            "read_fail" => "cli_read_error",
            "write" => "cli_write",
            "write_short" => "cli_write_short",
            "write_interrupted" => "cli_write_interrupted",
            "write_fail" => "cli_write_error",
            "create" => "cli_create",
            "create_fail" => "cli_create_error",
            "open" => "cli_open",
            "open_fail" => "cli_open_error",
            "open_interrupted" => "cli_open_interrupted",
            _ => "cli_other",
        };
        ctx.count(tag);
        let n: Vec<u64> = i.map(|v| v.parse().unwrap_or(0)).collect();
        ctx.event(tag, n.first().copied().unwrap_or(0), n.get(1).copied().unwrap_or(0));
    }
    ctx.event("exit", o.status.code().unwrap_or(-1) as u64, o.stdout.len() as u64);
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: o.stdout,
        err: o.stderr,
    }
}

/// Text without colour escapes
fn plain(out: &[u8]) -> String {
    let s = String::from_utf8_lossy(out);
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            r.push(c);
        }
    }
    r
}

pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Check the listing of one file; lines used
fn listing(lines: &[&str], name: &str, f: &MFile) -> Result<usize, String> {
    let (pre, _) = f.preamble();
    let frames = f.frames();
    let mut n = 0;
    let mut line = || {
        let l = lines.get(n).copied();
        n += 1;
        l.ok_or_else(|| "listing ends too soon".to_string())
    };
    let title = line()?;
    if !title.contains(name) {
        return Err(format!("{title:?} should name {name:?}"));
    }
    let l = line()?;
    let head = format!(
        "GIF{}, frames: {}",
        String::from_utf8_lossy(&pre.version),
        frames.len()
    );
    let Some(mut rest) = l.strip_prefix(&head) else {
        return Err(format!("{l:?} should begin with {head:?}"));
    };
    if rest.starts_with(|c: char| c.is_ascii_digit()) {
        return Err(format!("{l:?} should begin with {head:?}"));
    }
    let mut rep = None;
    if let Some(r) = rest.strip_prefix(", repeat: ") {
        let k = r.find(char::is_whitespace).unwrap_or(r.len());
        rep = Some(r[..k].to_string());
        rest = &r[k..];
    }
    let want = pre.loop_ext.as_ref().and_then(|a| loop_count(a)).map(|c| {
        if c == 0 {
            "∞".to_string()
        } else {
            c.to_string()
        }
    });
    if rep != want {
        return Err(format!("repeat {rep:?}, should be {want:?}"));
    }
    let mut comment = String::new();
    let mut l = rest;
    while let Some(c) = l.trim_start().strip_prefix('#') {
        comment.push_str(c);
        l = line()?;
    }
    if l.trim().is_empty() {
        l = line()?;
    }
    let mut want = String::new();
    let mut utf8 = true;
    for c in &pre.comments {
        for s in c {
            utf8 &= std::str::from_utf8(s).is_ok();
            want.push_str(&String::from_utf8_lossy(s));
        }
    }
    if !utf8 {
        // how to show bytes which are no text is left open
        comment.retain(|c| c.is_ascii());
        want.retain(|c| c.is_ascii());
    }
    if squeeze(&comment) != squeeze(&want) {
        return Err(format!("comments {comment:?}, should be {want:?}"));
    }
    if !l.trim_start().starts_with("Fr#") {
        return Err(format!("{l:?} should be the heading"));
    }
    for (i, (fr, _)) in frames.iter().enumerate() {
        let l = line()?;
        let (il, t) = match l.strip_prefix('i') {
            Some(t) => (true, t),
            None => (false, l),
        };
        let t: Vec<&str> = t.split_whitespace().collect();
        let g = fr.gce;
        let disp = match g.map(|g| g.disposal()) {
            None => "-",
            Some(0) => "none",
            Some(1) => "keep",
            Some(2) => "bg",
            Some(3) => "prev",
            _ => "res",
        };
        let clr = match (&fr.lct, &pre.gct) {
            (Some(t), _) => format!("{}", t.len() / 3),
            (None, Some(t)) => format!("{}g", t.len() / 3),
            _ => "0g".to_string(),
        };
        let trn = match g.and_then(|g| g.transparent()) {
            Some(t) => t.to_string(),
            None => "-".to_string(),
        };
        let d = &fr.desc;
        let want = [
            i.to_string(),
            format!("{:.2}", g.map_or(0, |g| g.delay) as f64 / 100.0),
            disp.to_string(),
            format!("{}x{}", d.w, d.h),
            format!("{},{}", d.l, d.t),
            clr,
            trn,
        ];
        if t != want || il != d.interlaced() {
            return Err(format!(
                "row {l:?} should be {want:?}, interlaced {}",
                d.interlaced()
            ));
        }
    }
    Ok(n)
}

/// Check the listings of files
fn listings(out: &[u8], files: &[&Input], more: bool) -> Check {
    let text = plain(out);
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    for (i, f) in files.iter().enumerate() {
        match listing(&lines[at..], &f.tag, &f.file) {
            Ok(n) => at += n,
            Err(e) => return violation("listing", format!("file {i}: {e}")),
        }
    }
    if !more && lines[at..].iter().any(|l| !l.trim().is_empty()) {
        return violation("listing", format!("surplus output {:?}", &lines[at..]));
    }
    Ok(())
}

/// A file on the command line
pub struct Input {
    pub name: OsString,
    /// Part of the name which needs no quotes
    tag: String,
    pub file: MFile,
    pub bytes: Vec<u8>,
    /// What is wrong with it
    pub bad: Option<&'static str>,
}

pub fn gen_input(src: &mut Source, i: usize) -> Input {
    let mut o = GenOpts::new();
    o.ascii = true;
    o.render = src.chance(1, 2);
    match src.weighted(&[8, 2, 1]) {
        0 => o.max_px = 200,
        1 => o.max_px = 20_000,
        _ => {
            o.max_px = 4;
            o.frames = 1100;
        }
    }
    let file = gen_file(src, &o);
    let bytes = file.serialise().bytes;
    let mut tag = format!("in{i}.");
    let mut name = tag.clone().into_bytes();
    name.extend(match src.weighted(&[6, 1, 1, 1, 1]) {
        0 => {
            tag.push_str("gif");
            b"gif".to_vec()
        }
        1 => b" a \"b\" 'c'.gif".to_vec(),
        2 => b"#, frames: 3".to_vec(),
        3 => "héé→.gif".as_bytes().to_vec(),
        _ => b"-x\\n\t.gif".to_vec(),
    });
    Input {
        name: OsString::from_vec(name),
        tag,
        file,
        bytes,
        bad: None,
    }
}

pub fn spoil(src: &mut Source, f: &mut Input) {
    let n = f.bytes.len();
    f.bad = Some(match src.weighted(&[3, 3, 2, 1, 1, 1, 2]) {
        0 => {
            let at = src.usize(0, n - 1);
            f.bytes.truncate(at);
            "truncated"
        }
        1 => {
            // also by an empty name
            if src.chance(1, 4) {
                f.name = OsString::new();
            }
            "missing"
        }
        2 => {
            f.bytes[src.draw(3) as usize] ^= 0x20;
            "signature"
        }
        3 => {
            f.bytes[n - 1] = src.pick(&[0x00, 0x3A, 0xFF, 0x20]);
            "unknown_block"
        }
        4 => {
            f.bytes[src.pick(&[3, 4, 5])] = b'x';
            "version"
        }
        5 => "directory",
        _ => {
            // break one frame
            let at = f.file.serialise().ends;
            let (k, px) = {
                let v = f.file.frames();
                let (m, k) = &v[src.usize(0, v.len() - 1)];
                (*k, m.desc.pixels())
            };
            let (s, e) = (at[k - 1], at[k]);
            let code = match src.draw(4) {
                // no pixels at all
                0 if px > 0 => {
                    f.bytes.splice(s..e, [2, 1, 0x2C, 0]);
                    "incomplete"
                }
                // a code which is not defined
                1 if px > 0 => {
                    f.bytes.splice(s..e, [2, 2, 0x3C, 0, 0]);
                    "bad_code"
                }
                // two controls
                2 => {
                    let d = (0..k)
                        .rev()
                        .find(|i| matches!(f.file.blocks[*i], MBlock::Desc(_)))
                        .unwrap_or(0);
                    let g = [0x21, 0xF9, 4, 0, 0, 0, 0, 0];
                    f.bytes.splice(at[d - 1]..at[d - 1], [g, g].concat());
                    "two_controls"
                }
                // control with a wrong length
                _ => {
                    f.bytes.splice(n - 1..n - 1, [0x21, 0xF9, 3, 0, 0, 0, 0]);
                    "bad_control"
                }
            };
            code
        }
    });
}

/// C19: the gift command
pub fn c19(src: &mut Source, ctx: &Ctx) -> Check {
    let n = match src.weighted(&[40, 4, 1]) {
        0 => src.usize(1, 4),
        1 => src.usize(5, 10),
        _ => return no_files(src, ctx),
    };
    let mut files: Vec<Input> = (0..n).map(|i| gen_input(src, i)).collect();
    let what = src.weighted(&[4, 4, 3, 5, 2]);
    let k = src.usize(0, n - 1);
    if what == 1 {
        spoil(src, &mut files[k]);
        ctx.count(files[k].bad.unwrap_or(""));
    }
    let dir = Scratch::new();
    let dir = &dir.0;
    for f in &files {
        let p = std::path::Path::new(dir).join(&f.name);
        match f.bad {
            Some("missing") => Ok(()),
            Some("directory") => std::fs::create_dir(&p),
            _ => std::fs::write(&p, &f.bytes),
        }
        .expect("input file");
        ctx.event("input", hash_bytes(&f.bytes), f.bytes.len() as u64);
        ctx.note(|| format!("{:?} {:?} {}", f.name, f.bad, dump(&f.bytes)));
    }
    // in the order given, some more than once
    let mut order: Vec<usize> = (0..n).collect();
    if src.chance(1, 8) {
        ctx.count("listed_twice");
        let again = src.usize(0, n - 1);
        order.insert(src.usize(0, n), again);
    }
    if src.chance(1, 8) {
        order.rotate_left(1);
    }
    let names: Vec<OsString> = order.iter().map(|i| files[*i].name.clone()).collect();
    let mut plan = Plan::gen_(src, n);
    // one call for every few bytes of a large file is slow
    if files.iter().map(|f| f.bytes.len()).sum::<usize>() > 100_000 && plan.rchunk > 0 {
        plan.rchunk = plan.rchunk.max(1000);
    }
    // logging every code of large files is slow
    if files.iter().any(|f| f.bytes.len() >= 1500) {
        plan.log = None;
    }
    let bad = match what {
        1 => Some(k),
        2 => {
            if src.chance(1, 4) {
                plan.ofail = Some((k, src.pick(&[13, 2, 24, 5, 40])));
            } else {
                let at = src.usize(0, files[k].bytes.len() - 1);
                plan.rfail = Some((k, at, src.pick(&[5, 116, 110, 11, 21])));
            }
            Some(k)
        }
        _ => None,
    };
    ctx.nontrivial();
    ctx.sample(|| {
        format!(
            "{n} files of {:?} bytes, {} {plan:?}",
            files.iter().map(|f| f.bytes.len()).collect::<Vec<_>>(),
            files[k].bad.unwrap_or("-")
        )
    });
    let all: Vec<&Input> = order.iter().map(|i| &files[*i]).collect();
    // the first one which fails
    let bad = bad.and_then(|k| order.iter().position(|i| *i == k));
    // output of the undisturbed command
    let mut ideal = None;
    if what == 3 {
        let r = run_cli(ctx, dir, &Plan::default(), &names);
        ctx.checked();
        if r.code != Some(0) {
            return violation(
                "failure",
                format!("exit {:?} without a fault: {}", r.code, text(&r.err)),
            );
        }
        listings(&r.out, &all, false)?;
        let end = r.out.iter().rposition(|b| *b == b'\n').unwrap_or(0);
        let at = if src.chance(1, 3) {
            // at the end of a line
            let nl: Vec<usize> = (0..=end).filter(|i| r.out[*i] == b'\n').collect();
            let p = nl[src.usize(0, nl.len() - 1)];
            (p + src.pick(&[0, 1])).min(end)
        } else {
            src.usize(0, end)
        };
        plan.wfail = Some((at, src.pick(&[28, 32, 5, 27, 11])));
        ideal = Some(r.out);
    }
    ctx.note(|| format!("plan {plan:?}"));
    let r = run_cli(ctx, dir, &plan, &names);
    ctx.checked();
    if let Some(s) = r.signal {
        return violation("signal", format!("ended by signal {s}"));
    }
    if let (Some(ideal), Some((at, e))) = (&ideal, plan.wfail) {
        if r.code == Some(0) {
            return violation(
                "silent",
                format!("success, but output failed at {at} of {} with {e}", ideal.len()),
            );
        }
        if r.out[..] != ideal[..at] {
            return violation(
                "output",
                format!("{} bytes of output are not the first {at}", r.out.len()),
            );
        }
    } else if let Some(k) = bad {
        if r.code == Some(0) {
            return violation("silent", format!("success, but file {k} is bad"));
        }
        listings(&r.out, &all[..k], true)?;
    } else {
        if r.code != Some(0) {
            return violation(
                "failure",
                format!("exit {:?} without a hard fault: {}", r.code, text(&r.err)),
            );
        }
        return listings(&r.out, &all, false);
    }
    if squeeze(&text(&r.err)).is_empty() {
        return violation("message", "failure without a message".into());
    }
    Ok(())
}

/// Nothing to list
fn no_files(src: &mut Source, ctx: &Ctx) -> Check {
    let dir = Scratch::new();
    let plan = Plan::gen_(src, 1);
    ctx.count("no_files");
    let r = run_cli(ctx, &dir.0, &plan, &[]);
    ctx.checked();
    if r.code != Some(0) {
        return violation("failure", format!("exit {:?}: {}", r.code, text(&r.err)));
    }
    listings(&r.out, &[], false)
}

pub fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(300).collect()
}
