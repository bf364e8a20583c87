//! server SCENARIOS OUT PAR: runs the scenarios (one JSON object per line), PAR at a time, and writes their traces.
use harness::{logs::capture_logs, net, util::quiet_panics};
use std::io::{BufRead, BufWriter, Write};

fn main() {
    quiet_panics();
    capture_logs();
    let a: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let scs = inp.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let res = net::run_all(scs, a[3].parse().unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for r in res {
        writeln!(out, "{r}").unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
