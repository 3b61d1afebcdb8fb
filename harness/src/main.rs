#![allow(dead_code)]
//! `harness gen <suite> <seed> <n>` writes scenarios, `harness run <suite> <scenarios> <trace>` executes
//! them on the real code and writes one event per public call.
mod gen;
mod proj;
mod rng;
mod s_build;
mod s_sys;
mod s_id;
mod native;
mod mem;
mod s_val;
mod s_path;
mod s_ver;
mod s_way;
mod s_ext;
mod s_sym;
mod s_text;
mod s_art;
mod s_list;
mod s_layout;
mod s_form;
mod s_query;
mod s_own;
mod s_part;
mod univ;

use std::fs;
use std::io::{self, BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value as J};

pub struct Out {
    w: BufWriter<fs::File>,
    pub n: usize,
}
impl Out {
    pub fn ev(&mut self, j: J) {
        serde_json::to_writer(&mut self.w, &j).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
}

static AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Keeps where the last panic came from.
fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| l.file().split("/index.crates.io-").last().unwrap_or("").to_owned()).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned());
        if let Ok(mut x) = AT.lock() {
            *x = format!("{at}: {}", msg.unwrap_or_default().chars().take(60).collect::<String>());
        }
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
}
/// A call on the real code: its outcome, or the panic.
pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>, ok: impl FnOnce(&T) -> J, err: impl FnOnce(&E) -> String) -> (J, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => {
            let j = ok(&v);
            (json!({"k": "ok", "v": j}), Some(v))
        }
        Ok(Err(e)) => (json!({"k": "err", "e": err(&e)}), None),
        Err(_) => (json!({"k": "panic", "at": AT.lock().unwrap().clone()}), None),
    }
}
/// The variant name of an error, from its `Debug` form.
pub fn kind<E: std::fmt::Debug>(e: &E) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}

fn main() {
    if std::env::var_os("HARNESS_ARGS").is_some() {
        return s_ver::print_args();
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = move |i: usize| a.get(i).cloned().unwrap_or_default();
    // deep but finite recursion must not be mistaken for a crash
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || real_main(&arg)).unwrap();
    let code = t.join().unwrap_or(101);
    std::process::exit(code)
}

static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// A scenario that makes no progress for 90 s is a hang.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut n) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(std::sync::atomic::Ordering::SeqCst);
            n = if t == last { n + 1 } else { 0 };
            last = t;
            if n > 60 {
                std::process::exit(97)
            }
        }
    });
}

fn real_main(arg: &dyn Fn(usize) -> String) -> i32 {
    match arg(1).as_str() {
        "gen" => {
            let (seed, n) = (arg(3).parse::<u64>().unwrap(), arg(4).parse::<usize>().unwrap());
            let mut rng = rng::Rng::new(seed);
            quiet();
            let stdout = io::stdout();
            let mut o = BufWriter::new(stdout.lock());
            for _ in 0..n {
                let j = match arg(2).as_str() {
                    "build" => s_build::gen(&mut rng),
                    "part" => s_part::gen(&mut rng),
                    "own" => s_own::gen(&mut rng),
                    "query" => s_query::gen(&mut rng),
                    "form" => s_form::gen(&mut rng),
                    "layout" => s_layout::gen(&mut rng),
                    "list" => s_list::gen(&mut rng),
                    "art" => s_art::gen(&mut rng),
                    "text" => s_text::gen(&mut rng),
                    "sym" => s_sym::gen(&mut rng),
                    "ext" => s_ext::gen(&mut rng),
                    "path" => s_path::gen(&mut rng),
                    "way" => s_way::gen(&mut rng),
                    "ver" => s_ver::gen(&mut rng),
                    "val" => s_val::gen(&mut rng),
                    "id" => s_id::gen(&mut rng),
                    "sys" => s_sys::gen(&mut rng),
                    x => panic!("suite {x}"),
                };
                serde_json::to_writer(&mut o, &j).unwrap();
                o.write_all(b"\n").unwrap();
            }
            0
        }
        "run" => {
            let suite = arg(2);
            let first: usize = arg(5).parse().unwrap_or(0);
            let f = io::BufReader::new(fs::File::open(arg(3)).unwrap());
            let mut out = Out {
                w: BufWriter::new(fs::OpenOptions::new().create(true).append(true).open(arg(4)).unwrap()),
                n: 0,
            };
            quiet();
            watchdog();
            for (k, line) in f.lines().enumerate().skip(first) {
                let line = line.unwrap();
                let scn: J = serde_json::from_str(&line).unwrap();
                out.ev(json!({"e": "scn", "id": k}));
                out.w.flush().unwrap();
                TICK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                fs::write(format!("{}.cur", arg(4)), k.to_string()).unwrap();
                match suite.as_str() {
                    "build" => s_build::run(&scn, &mut out),
                    "part" => s_part::run(&scn, &mut out),
                    "own" => s_own::run(&scn, &mut out),
                    "query" => s_query::run(&scn, &mut out),
                    "form" => s_form::run(&scn, &mut out),
                    "layout" => s_layout::run(&scn, &mut out),
                    "list" => s_list::run(&scn, &mut out),
                    "art" => s_art::run(&scn, &mut out),
                    "text" => s_text::run(&scn, &mut out),
                    "sym" => s_sym::run(&scn, &mut out),
                    "ext" => s_ext::run(&scn, &mut out),
                    "path" => s_path::run(&scn, &mut out),
                    "way" => s_way::run(&scn, &mut out),
                    "ver" => s_ver::run(&scn, &mut out),
                    "val" => s_val::run(&scn, &mut out),
                    "id" => s_id::run(&scn, &mut out),
                    "sys" => s_sys::run(&scn, &mut out),
                    x => panic!("suite {x}"),
                }
                out.w.flush().unwrap();
            }
            let _ = fs::remove_file(format!("{}.cur", arg(4)));
            0
        }
        _ => 2,
    }
}
