//! Deterministic simulation of the gift library and command
mod alloc;
mod conv;
mod ctx;
mod gen_;
mod io;
mod model;
mod parent;
mod props;
mod rng;
mod run;
mod tape;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// Log sink which formats every record and throws it away
struct NullLog;

impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Sink(usize);
        impl Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut s = Sink(0);
        let _ = write!(s, "{}", r.args());
    }
    fn flush(&self) {}
}

static LOG: NullLog = NullLog;

fn main() {
    let _ = log::set_logger(&LOG);
    log::set_max_level(log::LevelFilter::Off);
    run::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", prop, tier] => parent::check(prop, tier),
        ["worker", rest @ ..] => parent::worker(rest),
        ["exec", prop, tape] => parent::exec(prop, tape),
        ["record", prop, seed, idx, file] => {
            parent::record(prop, seed, idx, file)
        }
        ["shrink", prop, class, tape, out] => {
            parent::shrink_file(prop, class, tape, out)
        }
        ["replay", file] => parent::replay(file),
        ["selftest", n] => parent::selftest(n),
        ["list"] => parent::list(),
        _ => {
            eprintln!("usage: giftsim check PROP TIER | replay FILE | selftest N | list");
            2
        }
    };
    std::process::exit(code);
}
