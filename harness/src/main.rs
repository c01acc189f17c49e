//! Runs scenarios of the specifications in /verif/spec on the code in /repo and records traces.
//! Usage: avm-harness MODE SCENARIOS.json TRACES.jsonl
//! One line is written for each trace; the scenario in progress is the first without a line.
mod chroma;
mod count;
mod frames;
mod pipe;
mod scores;
mod util;
mod y4mfile;

use serde_json::Value;
use std::io::Write;
use std::time::Duration;

#[global_allocator]
static ALLOC: pipe::Counting = pipe::Counting;

fn main() {
    if std::env::var_os("AVM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "y4m-child" {
        y4mfile::child(&args[2]);
        std::process::exit(0);
    }
    if args[1] == "fresh" {
        let req: Value = serde_json::from_reader(std::io::stdin()).unwrap();
        println!("{}", frames::answer(&req));
        std::process::exit(0);
    }
    let scenarios: Vec<Value> =
        serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
    let mut out = std::fs::File::create(&args[3]).unwrap();
    let mut hangs = 0;
    for s in &scenarios {
        if hangs >= 3 {
            break;
        }
        let (t, hung) = match args[1].as_str() {
            "pipe" => pipe::run(s, Duration::from_secs(30)),
            "y4m" => y4mfile::run(s, Duration::from_secs(20)),
            "count" => count::run(s),
            "chroma" => (chroma::run(s), false),
            "scores" => (scores::run(s), false),
            "frames" => (frames::run(s), false),
            m => panic!("mode {m}"),
        };
        hangs += hung as usize;
        let mut line = serde_json::to_vec(&t).unwrap();
        line.push(b'\n');
        out.write_all(&line).unwrap();
    }
    // Threads which hang are left behind
    std::process::exit(0);
}
