//! codec SCRIPT OUT: runs the sessions of a script (one JSON object per line) and writes their traces.
use harness::{exec::Session, util::quiet_panics};
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for line in inp.lines() {
        let s: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut ses = Session::new();
        for op in s["ops"].as_array().unwrap() {
            ses.run(op);
        }
        writeln!(out, "{}", json!({"sid": s["sid"], "ev": ses.ev})).unwrap();
        out.flush().unwrap(); // so that a session that never ends or kills the process can be told
    }
}
