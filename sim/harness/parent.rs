//! Search over many runs with worker processes; evidence; replay
use crate::alloc;
use crate::props::{self, Prop};
use crate::run::{self, ReplayFile, Verdict};
use crate::tape::Source;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

const HEAP_BUDGET: usize = 3 << 30;
/// CPU seconds for one run before it counts as hanging
const HANG_CPU: f64 = 20.0;
/// CPU seconds before a run on its own is taken to hang
const CONFIRM: u64 = 60;
/// Seconds for one run which does not use the processor
const STUCK: u64 = 90;
/// Same for a run on its own
const BLOCKED: u64 = 40;

fn root() -> String {
    std::env::var("GSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("current_exe")
}

pub fn list() -> i32 {
    for p in props::all() {
        println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
    }
    0
}

fn find(id: &str) -> Option<&'static Prop> {
    props::all().iter().find(|p| p.id == id)
}

/// Totals over runs
#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    checks: u64,
    events: u64,
    digest_sum: u64,
    counts: BTreeMap<String, u64>,
    digests: HashSet<u64>,
    nt_digests: HashSet<u64>,
    samples: Vec<(u64, String)>,
    /// Longest run: milliseconds, index
    slowest: (u64, u64),
}

/// Search a stripe of runs
pub fn worker(a: &[&str]) -> i32 {
    let [prop, seed, w, n_w, n, dir, deadline] = a else {
        return 2;
    };
    let p = find(prop).expect("property");
    let seed: u64 = seed.parse().unwrap();
    let w: u64 = w.parse().unwrap();
    let n_w: u64 = n_w.parse().unwrap();
    let n: u64 = n.parse().unwrap();
    let deadline: f64 = deadline.parse().unwrap();
    let t0 = Instant::now();
    alloc::set_budget(HEAP_BUDGET);
    let progress = std::fs::File::create(format!("{dir}/progress.{w}")).unwrap();
    let mut t = Totals::default();
    let mut status = "done".to_string();
    let mut idx = w;
    let mut k = 0u64;
    while idx < n {
        let _ = progress.write_at(&(idx + 1).to_le_bytes(), 0);
        if k % 16 == 0 {
            if let Ok(s) = std::fs::read_to_string(format!("{dir}/stop"))
                && s.trim().parse::<u64>().is_ok_and(|v| idx > v)
            {
                status = "stopped".into();
                break;
            }
            if t0.elapsed().as_secs_f64() > deadline {
                status = "deadline".into();
                break;
            }
        }
        k += 1;
        let t1 = Instant::now();
        let o = run::run(p, Source::search(run::run_seed(p, seed, idx)), false);
        t.slowest = t.slowest.max((t1.elapsed().as_millis() as u64, idx));
        t.runs += 1;
        t.checks += o.inner.checks;
        t.events += o.inner.events;
        t.digest_sum = t.digest_sum.wrapping_add(
            crate::rng::mix(&[o.inner.digest, idx, o.tape.len() as u64]),
        );
        t.digests.insert(o.inner.digest);
        if o.inner.nontrivial {
            t.nontrivial += 1;
            t.nt_digests.insert(o.inner.digest);
            if t.samples.len() < 2 {
                t.samples.push((idx, o.inner.sample.clone()));
            }
        }
        for (k, v) in &o.inner.counts {
            *t.counts.entry(k.to_string()).or_insert(0) += v;
        }
        match o.verdict {
            Verdict::Held => (),
            Verdict::Violated(v) => {
                let r = ReplayFile {
                    prop: p.id.to_string(),
                    kind: "tape".into(),
                    class: v.class,
                    message: v.msg,
                    seed,
                    run: idx,
                    stripe: (w, n_w),
                    tape: o.tape,
                    trace: vec![],
                };
                r.write(&format!("{dir}/viol.{w}")).unwrap();
                status = "violation".into();
                break;
            }
            Verdict::Broken(m) => {
                status = format!("broken run {idx}: {m}");
                break;
            }
        }
        idx += n_w;
    }
    let mut s = String::new();
    s.push_str(&format!("status {}\n", status.replace('\n', " ")));
    s.push_str(&format!("runs {}\n", t.runs));
    s.push_str(&format!("nontrivial {}\n", t.nontrivial));
    s.push_str(&format!("checks {}\n", t.checks));
    s.push_str(&format!("events {}\n", t.events));
    s.push_str(&format!("digest {}\n", t.digest_sum));
    s.push_str(&format!("slowest {} {}\n", t.slowest.0, t.slowest.1));
    for (k, v) in &t.counts {
        s.push_str(&format!("count {k} {v}\n"));
    }
    for (i, v) in &t.samples {
        s.push_str(&format!("sample {i} {}\n", v.replace('\n', " ")));
    }
    let put = |name: &str, set: &HashSet<u64>| {
        let mut b = Vec::with_capacity(set.len() * 8);
        for v in set {
            b.extend_from_slice(&v.to_le_bytes());
        }
        std::fs::write(format!("{dir}/{name}.{w}"), b).unwrap();
    };
    put("digests", &t.digests);
    put("ntdigests", &t.nt_digests);
    std::fs::write(format!("{dir}/result.{w}"), s).unwrap();
    0
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

struct W {
    child: Child,
    idx: u64,
    cpu_at: f64,
    wall_at: Instant,
    done: bool,
}

/// How the search ended
struct Found {
    seed: u64,
    run: u64,
    stripe: (u64, u64),
    class: String,
    message: String,
    tape: Option<Vec<u64>>,
}

struct Search {
    totals: Totals,
    found: Option<Found>,
    broken: Option<String>,
    capped: bool,
}

fn progress_of(dir: &str, w: usize) -> u64 {
    let mut b = [0; 8];
    match std::fs::File::open(format!("{dir}/progress.{w}")) {
        Ok(f) => match f.read_at(&mut b, 0) {
            Ok(8) => u64::from_le_bytes(b),
            _ => 0,
        },
        Err(_) => 0,
    }
}

fn search(p: &Prop, seed: u64, n: u64, n_w: usize, dir: &str, cap: f64) -> Search {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch dir");
    let mut ws: Vec<W> = (0..n_w)
        .map(|w| {
            let child = Command::new(me())
                .args([
                    "worker",
                    p.id,
                    &seed.to_string(),
                    &w.to_string(),
                    &n_w.to_string(),
                    &n.to_string(),
                    dir,
                    &cap.to_string(),
                ])
                .env("GSIM_SCRATCH", dir)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            W {
                child,
                idx: 0,
                cpu_at: 0.0,
                wall_at: Instant::now(),
                done: false,
            }
        })
        .collect();
    let mut found: Vec<Found> = vec![];
    let mut broken = None;
    let mut capped = false;
    loop {
        let mut alive = false;
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if !st.success() {
                        let idx = progress_of(dir, i);
                        if idx == 0 {
                            broken = Some(format!("worker {i}: {st}"));
                        } else {
                            let class = match st.signal() {
                                Some(6) => "abort".to_string(),
                                Some(n) => format!("signal{n}"),
                                None => "exit".to_string(),
                            };
                            found.push(Found {
                                seed,
                                run: idx - 1,
                                stripe: (i as u64, n_w as u64),
                                class,
                                message: format!("process ended: {st}"),
                                tape: None,
                            });
                        }
                    }
                    if std::path::Path::new(&format!("{dir}/viol.{i}")).exists()
                    {
                        let r = ReplayFile::read(&format!("{dir}/viol.{i}"))
                            .expect("violation file");
                        found.push(Found {
                            seed,
                            run: r.run,
                            stripe: r.stripe,
                            class: r.class,
                            message: r.message,
                            tape: Some(r.tape),
                        });
                    }
                }
                Ok(None) => {
                    alive = true;
                    let idx = progress_of(dir, i);
                    let cpu = cpu_secs(w.child.id()).unwrap_or(w.cpu_at);
                    if idx != w.idx {
                        w.idx = idx;
                        w.cpu_at = cpu;
                        w.wall_at = Instant::now();
                    } else if cpu - w.cpu_at > HANG_CPU && idx > 0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        found.push(Found {
                            seed,
                            run: idx - 1,
                            stripe: (i as u64, n_w as u64),
                            class: "hang".into(),
                            message: format!(
                                "run used {HANG_CPU} s of processor time"
                            ),
                            tape: None,
                        });
                    } else if w.wall_at.elapsed() > Duration::from_secs(STUCK) {
                        // waits for something which does not come
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        if idx == 0 {
                            broken = Some(format!("worker {i} does not start"));
                        } else {
                            found.push(Found {
                                seed,
                                run: idx - 1,
                                stripe: (i as u64, n_w as u64),
                                class: "hang".into(),
                                message: format!("run blocked for {STUCK} s"),
                                tape: None,
                            });
                        }
                    }
                }
                Err(e) => {
                    broken = Some(format!("worker {i}: {e}"));
                    w.done = true;
                }
            }
        }
        if let Some(m) = found.iter().map(|f| f.run).min() {
            let _ = std::fs::write(format!("{dir}/stop"), m.to_string());
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut t = Totals::default();
    for w in 0..n_w {
        let Ok(s) = std::fs::read_to_string(format!("{dir}/result.{w}")) else {
            continue;
        };
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let num = v.parse::<u64>().unwrap_or(0);
            match k {
                "status" => {
                    if v.starts_with("broken") {
                        broken = Some(v.to_string());
                    }
                    if v == "deadline" {
                        capped = true;
                    }
                }
                "runs" => t.runs += num,
                "nontrivial" => t.nontrivial += num,
                "checks" => t.checks += num,
                "events" => t.events += num,
                "digest" => t.digest_sum = t.digest_sum.wrapping_add(num),
                "count" => {
                    if let Some((k, v)) = v.split_once(' ') {
                        *t.counts.entry(k.to_string()).or_insert(0) +=
                            v.parse::<u64>().unwrap_or(0);
                    }
                }
                "slowest" => {
                    if let Some((m, i)) = v.split_once(' ') {
                        let m = m.parse().unwrap_or(0);
                        t.slowest = t.slowest.max((m, i.parse().unwrap_or(0)));
                    }
                }
                "sample" => {
                    if let Some((i, v)) = v.split_once(' ') {
                        t.samples.push((i.parse().unwrap_or(0), v.to_string()));
                    }
                }
                _ => (),
            }
        }
        for (name, set) in [
            ("digests", &mut t.digests),
            ("ntdigests", &mut t.nt_digests),
        ] {
            if let Ok(b) = std::fs::read(format!("{dir}/{name}.{w}")) {
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    t.samples.sort();
    found.sort_by_key(|f| f.run);
    Search {
        totals: t,
        found: found.into_iter().next(),
        broken,
        capped,
    }
}

/// Run one tape in this process.  Exit 0: held, 10: violation, 11: broken
pub fn exec(prop: &str, tape: &str) -> i32 {
    let p = find(prop).expect("property");
    let r = ReplayFile::read(tape).expect("tape");
    alloc::set_budget(HEAP_BUDGET);
    let o = run::run(p, Source::replay(&r.tape), false);
    match o.verdict {
        Verdict::Held => 0,
        Verdict::Violated(v) => {
            println!("{}\n{}", v.class, v.msg.replace('\n', " / "));
            10
        }
        Verdict::Broken(m) => {
            println!("{m}");
            11
        }
    }
}

/// Record the tape of a run which may not return
pub fn record(prop: &str, seed: &str, idx: &str, file: &str) -> i32 {
    let p = find(prop).expect("property");
    let seed: u64 = seed.parse().unwrap();
    let idx: u64 = idx.parse().unwrap();
    alloc::set_budget(HEAP_BUDGET);
    let mut src = Source::search(run::run_seed(p, seed, idx));
    src.tee(file);
    let _ = run::run(p, src, false);
    0
}

/// Run a command with a limit on processor time
fn limited(cmd: &mut Command, secs: u64) -> std::io::Result<std::process::Output> {
    unsafe {
        cmd.pre_exec(move || {
            setrlimit(0, &[secs, secs + 1]);
            Ok(())
        });
    }
    let mut child = cmd
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()?;
    // what is printed is short enough for the pipe
    let t0 = Instant::now();
    let (mut cpu, mut at) = (0.0, Instant::now());
    loop {
        if child.try_wait()?.is_some() {
            return child.wait_with_output();
        }
        let now = cpu_secs(child.id()).unwrap_or(cpu);
        if now > cpu + 0.03 {
            (cpu, at) = (now, Instant::now());
        }
        if t0.elapsed() > Duration::from_secs(secs + 70)
            || at.elapsed() > Duration::from_secs(BLOCKED)
        {
            let _ = child.kill();
            return child.wait_with_output();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Class of the result of a tape run in its own process
fn class_of(p: &Prop, tape: &[u64], dir: &str, secs: u64) -> Option<(String, String)> {
    let file = format!("{dir}/cand");
    let r = ReplayFile {
        prop: p.id.into(),
        kind: "tape".into(),
        class: String::new(),
        message: String::new(),
        seed: 0,
        run: 0,
        stripe: (0, 1),
        tape: tape.to_vec(),
        trace: vec![],
    };
    r.write(&file).ok()?;
    let o = limited(Command::new(me()).args(["exec", p.id, &file]).env("GSIM_SCRATCH", dir), secs).ok()?;
    match (o.status.code(), o.status.signal()) {
        (Some(10), _) => {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            let (c, m) = s.split_once('\n').unwrap_or((&s, ""));
            Some((c.to_string(), m.trim().to_string()))
        }
        (Some(_), _) => None,
        (None, Some(6)) => Some(("abort".into(), "process aborted".into())),
        (None, Some(24)) | (None, Some(9)) => {
            Some(("hang".into(), format!("used {secs} s of processor time")))
        }
        (None, Some(n)) => Some((format!("signal{n}"), "signal".into())),
        _ => None,
    }
}

/// Shrink in this process (violations which return)
pub fn shrink_file(prop: &str, class: &str, tape: &str, out: &str) -> i32 {
    let p = find(prop).expect("property");
    let mut r = ReplayFile::read(tape).expect("tape");
    alloc::set_budget(HEAP_BUDGET);
    let t0 = Instant::now();
    let best = run::shrink(&r.tape, 4000, |t| {
        if t0.elapsed() > Duration::from_secs(30) {
            return None;
        }
        let o = run::run(p, Source::replay(t), false);
        match o.verdict {
            Verdict::Violated(v) if v.class == class => Some(o.tape),
            _ => None,
        }
    });
    let o = run::run(p, Source::replay(&best), true);
    if let Verdict::Violated(v) = o.verdict {
        r.class = v.class;
        r.message = v.msg;
        r.tape = best;
        r.trace = o.inner.lines;
        r.trace.insert(0, format!("workload: {}", o.inner.sample));
        if r.write(out).is_ok() {
            return 0;
        }
    }
    3
}

/// Replay a whole stripe up to a run, in one process
fn stripe_class(p: &Prop, f: &ReplayFile) -> Option<(String, String)> {
    let mut idx = f.stripe.0;
    alloc::set_budget(HEAP_BUDGET);
    while idx <= f.run {
        let o = run::run(p, Source::search(run::run_seed(p, f.seed, idx)), false);
        if let Verdict::Violated(v) = o.verdict {
            return Some((v.class, v.msg));
        }
        idx += f.stripe.1;
    }
    None
}

pub fn replay(file: &str) -> i32 {
    let Ok(f) = ReplayFile::read(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Some(p) = find(&f.prop) else {
        eprintln!("unknown property {}", f.prop);
        return 2;
    };
    let got = if f.kind == "stripe" {
        stripe_class(p, &f)
    } else {
        let dir = format!("{}/out/replay.{}", root(), std::process::id());
        let _ = std::fs::create_dir_all(&dir);
        let c = class_of(p, &f.tape, &dir, CONFIRM);
        let _ = std::fs::remove_dir_all(&dir);
        c
    };
    match got {
        Some((c, m)) => {
            println!("class {c}: {m}");
            println!("VIOLATION property={} replay={file}", f.prop);
            1
        }
        None => {
            println!("no violation: {file}");
            0
        }
    }
}

/// Turn a finding into a replay file
fn report(p: &Prop, f: Found, dir: &str) -> Option<(String, String, String)> {
    let out = format!("{}/out/replay", root());
    let _ = std::fs::create_dir_all(&out);
    let path = format!("{out}/{}-seed{}-run{}.txt", p.id, f.seed, f.run);
    let mut r = ReplayFile {
        prop: p.id.into(),
        kind: "tape".into(),
        class: f.class.clone(),
        message: f.message.clone(),
        seed: f.seed,
        run: f.run,
        stripe: f.stripe,
        tape: vec![],
        trace: vec![],
    };
    let crashed = f.tape.is_none();
    r.tape = match f.tape {
        Some(t) => t,
        None => {
            let file = format!("{dir}/recorded");
            let _ = limited(
                Command::new(me()).args([
                    "record",
                    p.id,
                    &f.seed.to_string(),
                    &f.run.to_string(),
                    &file,
                ])
                .env("GSIM_SCRATCH", dir),
                20,
            );
            std::fs::read(&file)
                .unwrap_or_default()
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect()
        }
    };
    let _ = r.write(&path);
    let secs = if f.class == "hang" { 20 } else { 30 };
    let alone = class_of(p, &r.tape, dir, CONFIRM);
    if let Some((class, msg)) = alone {
        r.class = class.clone();
        r.message = msg;
        let _ = r.write(&path);
        if crashed {
            let t0 = Instant::now();
            let budget = if class == "hang" { 12 } else { 200 };
            let mut best_msg = r.message.clone();
            let best = run::shrink(&r.tape, budget, |t| {
                if t0.elapsed() > Duration::from_secs(60) {
                    return None;
                }
                match class_of(p, t, dir, secs) {
                    Some((c, m)) if c == class => {
                        best_msg = m;
                        Some(t.to_vec())
                    }
                    _ => None,
                }
            });
            // a slow run is not a hang
            if class != "hang" || class_of(p, &best, dir, CONFIRM).is_some_and(|(c, _)| c == class) {
                r.tape = best;
                r.message = best_msg;
                let _ = r.write(&path);
            }
        } else {
            let small = format!("{dir}/small");
            let o = limited(
                Command::new(me()).args([
                    "shrink", p.id, &class, &path, &small,
                ])
                .env("GSIM_SCRATCH", dir),
                120,
            );
            if let Ok(o) = o
                && o.status.success()
                && let Ok(s) = ReplayFile::read(&small)
                && class_of(p, &s.tape, dir, 30)
                    .is_some_and(|(c, _)| c == class)
            {
                r = s;
                let _ = r.write(&path);
            }
        }
    } else if f.class == "hang" {
        // slow machine
        return None;
    } else {
        // depends on the runs before it in the same process
        r.kind = "stripe".into();
        r.trace =
            vec!["this run alone holds; the replay repeats the stripe".into()];
        let _ = r.write(&path);
    }
    Some((path, r.class, r.message))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(v: &[String]) -> String {
    let v: Vec<String> = v.iter().map(|s| json_str(s)).collect();
    format!("[{}]", v.join(", "))
}

pub fn workers() -> usize {
    let n = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    env_u64("GSIM_WORKERS", n.clamp(1, 8) as u64) as usize
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let Some(p) = find(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = tier == "thorough";
    let n = env_u64("GSIM_RUNS", if thorough { p.thorough } else { p.quick });
    let cap = env_u64("GSIM_CAP", if thorough { 750 } else { 300 }) as f64;
    let dir = format!("{}/out/{}.{}", root(), p.id, std::process::id());
    let t0 = Instant::now();
    let n_w = workers();
    let mut violations = vec![];
    let mut code = 0;
    let mut s;
    loop {
        s = search(p, seed, n, n_w, &dir, cap);
        let Some(f) = s.found.take() else { break };
        let run = f.run;
        if let Some((path, class, msg)) = report(p, f, &dir) {
            println!("class {class}: {msg}");
            println!("VIOLATION property={} replay={}", p.id, path);
            violations.push(format!("{class}: {msg} (replay {path})"));
            code = 1;
            break;
        }
        eprintln!("run {run} was stuck, but not again: slow machine");
        if t0.elapsed().as_secs_f64() > 250.0 {
            eprintln!("error of the check: cannot finish the search");
            code = 2;
            break;
        }
    }
    let t = &s.totals;
    let wall = t0.elapsed().as_secs_f64();
    if code != 0 {
    } else if let Some(b) = &s.broken {
        eprintln!("error of the check: {b}");
        code = 2;
    } else if t.runs == 0 {
        eprintln!("error of the check: no runs");
        code = 2;
    }
    let _ = std::fs::remove_dir_all(&dir);
    // evidence
    let counts: Vec<String> = t
        .counts
        .iter()
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let samples: Vec<String> = t
        .samples
        .iter()
        .take(8)
        .map(|(i, s)| format!("run {i}: {s}"))
        .collect();
    // not the same number under a second name
    let oracle = if t.checks == t.runs {
        String::new()
    } else {
        format!("  \"oracle_evaluations\": {},\n", t.checks)
    };
    let e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n{}  \"runs_planned\": {n},\n  \"stopped_by_time_cap\": {},\n  \"nontrivial_runs\": {},\n  \"distinct_histories\": {},\n  \"runs_per_hour\": {:.0},\n  \"simulated_events\": {},\n  \"simulated_time\": {},\n  \"faults_and_conditions\": {{{}}},\n  \"combined_digest\": {},\n  \"workers\": {n_w},\n  \"real_code\": {},\n  \"stubs\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        t.runs,
        t.nt_digests.len(),
        json_str(p.rule),
        json_list(&samples),
        oracle,
        s.capped,
        t.nontrivial,
        t.digests.len(),
        t.runs as f64 / wall * 3600.0,
        t.events,
        json_str("the code under test has no clock; time is counted in simulated events (I/O calls, scheduler grants, session steps)"),
        counts.join(", "),
        json_str(&format!("{:016x}", t.digest_sum)),
        json_str(p.real),
        json_str(p.stubs),
        json_list(&p.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall,
        violations.len(),
    );
    let ev = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&ev);
    if std::fs::write(format!("{ev}/{}.json", p.id), e).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    if t.counts.contains_key("known_finding") {
        for (_, what) in run::known(p.id) {
            println!("KNOWN-FINDING: property={} {what}", p.id);
        }
    }
    println!(
        "{} {}: runs={} checks={} distinct={} events={} wall={:.1}s slowest={}ms (run {}){}",
        p.id,
        tier,
        t.runs,
        t.checks,
        t.nt_digests.len(),
        t.events,
        wall,
        t.slowest.0,
        t.slowest.1,
        if s.capped { " (time cap)" } else { "" }
    );
    code
}

/// Determinism: same seeds give the same digests, whatever the worker count
pub fn selftest(n: &str) -> i32 {
    let n: u64 = n.parse().unwrap_or(200);
    let dir = format!("{}/out/selftest.{}", root(), std::process::id());
    let mut bad = 0;
    for p in props::all() {
        let mut sums = vec![];
        for (seed, w) in [(1, 1), (1, 8), (1, 3), (7, 8), (7, 2)] {
            let s = search(p, seed, n, w, &dir, 600.0);
            if s.found.is_some() || s.broken.is_some() {
                println!("{}: seed {seed}: not quiet {:?}", p.id, s.broken);
                bad += 1;
            }
            sums.push((seed, s.totals.digest_sum, s.totals.runs));
        }
        let ok = sums[0].1 == sums[1].1
            && sums[1].1 == sums[2].1
            && sums[3].1 == sums[4].1
            && sums[0].1 != sums[3].1;
        println!("{} {} {:?}", p.id, if ok { "same" } else { "DIFFERENT" }, sums);
        if !ok {
            bad += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    (bad > 0) as i32
}
