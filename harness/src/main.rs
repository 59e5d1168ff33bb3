#![allow(clippy::all)]
mod atndump;
mod lex;
mod mon;
mod names;
mod parse;
mod streams;
mod threads;
mod util;
use serde_json::Value;

#[global_allocator]
static A: threads::Nudge = threads::Nudge;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // usage: vharness <cmd> <job.json> <out.ndjson>
    if std::env::var("VDEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let job: Value = serde_json::from_reader(std::io::BufReader::new(std::fs::File::open(&a[2]).unwrap())).unwrap();
    let mut out = util::Out::new(&a[3]);
    let cmd = a[1].clone();
    // deep recursion in code under test must not be confused with a defect of the driver
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match cmd.as_str() {
            "lex" => lex::main(&job, &mut out),
            "listen" => lex::listen(&job, &mut out),
            "names" => names::main(&job, &mut out),
            "parse" => parse::main(&job, &mut out),
            "threads" => threads::main(&job, &mut out),
            "nexts" => parse::nexts(&job, &mut out),
            "guards" => parse::guards(&job, &mut out),
            "atn" => atndump::main(&job, &mut out),
            "chars" => streams::chars(&job, &mut out),
            "toks" => streams::toks(&job, &mut out),
            "ivs" => streams::ivs(&job, &mut out),
            _ => {
                eprintln!("unknown command");
                std::process::exit(2)
            }
        }
        out.finish();
    }).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
