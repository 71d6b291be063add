//! Records constructor verdicts (spec/ConfigTrace.tla) and codec calls (spec/CodecTrace.tla).
#![allow(dead_code, unused_imports)]
use sshcore::{api, sim};
mod codec;
mod config;
#[path = "../../src/util.rs"]
mod util;
use std::io::Write;

fn main() {
    if std::env::var("SHOW").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        a.iter().position(|x| *x == format!("--{k}")).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let seed: u64 = get("seed", "1").parse().unwrap();
    let n: u64 = get("n", "100").parse().unwrap();
    let shards: usize = get("shards", "8").parse().unwrap();
    let dir = get("out", "/tmp/misch");
    std::fs::create_dir_all(&dir).unwrap();
    let (lines, events) = match a[1].as_str() {
        "config" => config::record(seed, n),
        "codec" => codec::record(seed, n),
        x => panic!("unknown command {x}"),
    };
    for s in 0..shards {
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/shard{s}.ndjson")).unwrap());
        for l in lines.iter().skip(s).step_by(shards) {
            writeln!(f, "{l}").unwrap();
        }
    }
    println!("{{\"traces\": {}, \"events\": {events}}}", lines.len());
}
