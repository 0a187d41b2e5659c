#![allow(non_snake_case)]
mod compose;
mod gadget;
mod hash;
mod lincomb;
mod prog;
mod proto;
mod smt;
mod support;
mod util;

use serde_json::Value;
use std::io::{BufRead, Write};

fn main() {
    util::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vh <command> <in.ndjson> <out.ndjson>");
        std::process::exit(2);
    }
    if a[1] == "hooks" {
        std::process::exit(if cfg!(verif_hooks) { 0 } else { 1 });
    }
    let f: fn(&Value) -> Value = match a[1].as_str() {
        "prog" => prog::run,
        "honest" => gadget::honest,
        "grand" => gadget::grand,
        "distort" => gadget::distort,
        "compose" => compose::run,
        "malformed" => gadget::malformed,
        "circuit" => gadget::circuit,
        "forge" => gadget::forge,
        "smt" => smt::run,
        "support" => support::run,
        "hash" => hash::run,
        "lincomb" => lincomb::run,
        "sim" => proto::sim,
        "transcript" => proto::transcript_trace,
        "ipp" => proto::ipp,
        "rand" => proto::rand_roles,
        c => {
            eprintln!("unknown command {}", c);
            std::process::exit(2)
        }
    };
    let cases: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("input"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("json"))
        .collect();
    let out = util::run_cases(cases, f);
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("output"));
    for o in out {
        writeln!(w, "{}", o).unwrap();
    }
}
