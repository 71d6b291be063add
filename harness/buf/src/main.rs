//! Drives a real BufferedQueue / SharedRamRing and records traces for spec/BufferTrace.tla.
#![allow(dead_code, unused_imports)]
use sshcore::{api, sim};
#[path = "../../src/util.rs"]
mod util;
mod drv;
mod obj;
use std::io::Write;
use util::*;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        a.iter().position(|x| *x == format!("--{k}")).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let seed: u64 = get("seed", "1").parse().unwrap();
    let n: u64 = get("n", "100").parse().unwrap();
    let shards: u64 = get("shards", "8").parse().unwrap();
    let dir = get("out", "/tmp/bufh");
    let prof = get("prof", "b01");
    std::fs::create_dir_all(&dir).unwrap();
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..shards)
        .map(|s| {
            let (prof, dir) = (prof.clone(), dir.clone());
            std::thread::spawn(move || {
                let mut out = Out::default();
                let (mut i, mut done) = (s, 0u64);
                while i < n {
                    drv::run(&drv::prof(&prof), seed.wrapping_mul(1_000_003).wrapping_add(i), &mut out);
                    i += shards;
                    done += 1;
                }
                let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/shard{s}.ndjson")).unwrap());
                for l in &out.lines {
                    writeln!(f, "{l}").unwrap();
                }
                (done, out.lines.len() as u64, out.events, out.execs, out.fault_points, out.crash_points)
            })
        })
        .collect();
    let mut t = [0u64; 6];
    for h in hs {
        match h.join() {
            Ok(r) => {
                for (i, x) in [r.0, r.1, r.2, r.3, r.4, r.5].iter().enumerate() {
                    t[i] += x;
                }
            }
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                eprintln!("harness thread failed: {s}");
                // anything else is a panic of the code under test where none may happen
                let own = s.contains("HARNESS") || s.contains("harness:") || s.contains("Os {");
                std::process::exit(if own { 2 } else { 101 });
            }
        }
    }
    println!(
        "{{\"histories\":{},\"traces\":{},\"events\":{},\"api_calls\":{},\"injected_enqueues\":{},\"suspended_calls\":{},\"secs\":{:.2}}}",
        t[0], t[1], t[2], t[3], t[4], t[5], t0.elapsed().as_secs_f64()
    );
}
