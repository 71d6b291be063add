#![allow(dead_code, unused_imports)]
mod api;
#[cfg(feature = "map")]
mod mapdrv;
#[cfg(feature = "queue")]
mod queuedrv;
#[cfg(feature = "fmt")]
mod fmtdrv;
use sshcore::sim;
mod util;

use std::io::Write;
use util::*;

fn args() -> std::collections::HashMap<String, String> {
    let mut m = std::collections::HashMap::new();
    let a: Vec<String> = std::env::args().collect();
    m.insert("cmd".into(), a.get(1).cloned().unwrap_or_default());
    let mut i = 2;
    while i + 1 < a.len() {
        m.insert(a[i].trim_start_matches("--").into(), a[i + 1].clone());
        i += 2;
    }
    m
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args();
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let seed: u64 = get("seed", "1").parse().unwrap();
    let n: u64 = get("n", "100").parse().unwrap();
    let shards: u64 = get("shards", "8").parse().unwrap();
    let dir = get("out", "/tmp/sshb");
    let secs: f64 = get("secs", "1000000").parse().unwrap();
    let max_events: u64 = get("max-events", "1000000000").parse().unwrap();
    let prof = get("prof", "");
    let cmd = get("cmd", "");
    let nums = |k: &str| -> Vec<usize> { get(k, "").split(',').filter_map(|x| x.parse().ok()).collect() };
    // behaviours of a specification to replay
    let walks: Vec<String> = match get("paths", "").as_str() {
        "" => vec![],
        f => std::fs::read_to_string(f).unwrap().lines().map(|l| l.to_string()).collect(),
    };
    let n = if walks.is_empty() { n } else { n.min(walks.len() as u64) };
    let (walks, geo, np, lens) = (std::sync::Arc::new(walks), nums("geo"), nums("np"), nums("lens"));
    let faults: f64 = get("faults", "20").parse::<f64>().unwrap() / 100.0;
    std::fs::create_dir_all(&dir).unwrap();
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..shards)
        .map(|s| {
            let (cmd, prof, dir) = (cmd.clone(), prof.clone(), dir.clone());
            let (walks, geo, np, lens) = (walks.clone(), geo.clone(), np.clone(), lens.clone());
            std::thread::spawn(move || {
                let mut out = Out::default();
                let mut i = s;
                let mut done = 0u64;
                while i < n && t0.elapsed().as_secs_f64() < secs && out.events < max_events / shards {
                    let sd = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    match cmd.as_str() {
                        #[cfg(feature = "queue")]
                        "queue" => queuedrv::run(&profs::queue_prof(&prof), sd, &mut out),
                        #[cfg(feature = "map")]
                        "map" => mapdrv::run(&profs::map_prof(&prof), sd, &mut out),
                        #[cfg(feature = "map")]
                        "mapwalk" => mapdrv::walk(&format!("{prof}/{i}"), &util::Walk::parse(&walks[i as usize]), geo[0], np[0], &lens, faults, sd, &mut out),
                        #[cfg(feature = "queue")]
                        "queuewalk" => queuedrv::walk(&format!("{prof}/{i}"), &util::Walk::parse(&walks[i as usize]), geo[0], np[0], &lens, faults, sd, &mut out),
                        #[cfg(feature = "fmt")]
                        "fmt" => fmtdrv::run(&prof, sd, &mut out),
                        #[cfg(feature = "fmt")]
                        "glitch" => fmtdrv::glitch(&prof, sd, &mut out),
                        _ => panic!("unknown command"),
                    }
                    i += shards;
                    done += 1;
                }
                let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/shard{s}.ndjson")).unwrap());
                for l in &out.lines {
                    writeln!(f, "{l}").unwrap();
                }
                (done, out.lines.len() as u64, out.events, out.execs, out.crash_points, out.fault_points, out.dup, out.followed)
            })
        })
        .collect();
    let mut t = [0u64; 8];
    for h in hs {
        let r = match h.join() {
            Ok(r) => r,
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                eprintln!("harness thread failed: {s}");
                // anything else is a panic of the code under test where none may happen
                let own = s.contains("HARNESS") || s.contains("harness:") || s.contains("Os {");
                std::process::exit(if own { 2 } else { 101 });
            }
        };
        for (i, x) in [r.0, r.1, r.2, r.3, r.4, r.5, r.6, r.7].iter().enumerate() {
            t[i] += x;
        }
    }
    println!(
        "{{\"histories\":{},\"traces\":{},\"events\":{},\"api_calls\":{},\"crash_points\":{},\"fault_points\":{},\"duplicate_traces\":{},\"behaviours_followed_exactly\":{},\"secs\":{:.2}}}",
        t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t0.elapsed().as_secs_f64()
    );
}
mod profs;
