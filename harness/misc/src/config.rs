//! Constructor verdicts over word/page sizes and ranges.
use crate::util::Rng;
use sequential_storage::cache::Cache;
use sequential_storage::map::{MapConfig, MapConfigError, MapStorage};
use sequential_storage::queue::{QueueConfig, QueueConfigError, QueueStorage};
use sshcore::sim::{Inner, SimFlash, run};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// every page up to here is simulated, larger devices only see the constructors
const LIMIT: u64 = 1 << 20;

fn map_res<const W: usize, const R: usize, const P: usize>(s: u32, e: u32) -> &'static str {
    match MapConfig::<SimFlash<W, R, P>>::try_new(s..e) {
        Ok(_) => "ok",
        Err(MapConfigError::StartRangeNotAtPageBoundary) => "start",
        Err(MapConfigError::EndRangeNotAtPageBoundary) => "end",
        Err(MapConfigError::RangeTooSmall) => "small",
        Err(MapConfigError::PagesTooSmall) => "pages",
        Err(MapConfigError::WordSizeTooLarge) => "word",
    }
}
fn queue_res<const W: usize, const R: usize, const P: usize>(s: u32, e: u32) -> &'static str {
    match QueueConfig::<SimFlash<W, R, P>>::try_new(s..e) {
        Ok(_) => "ok",
        Err(QueueConfigError::StartRangeNotAtPageBoundary) => "start",
        Err(QueueConfigError::EndRangeNotAtPageBoundary) => "end",
        Err(QueueConfigError::RangeTooSmall) => "small",
        Err(QueueConfigError::PagesTooSmall) => "pages",
        Err(QueueConfigError::WordSizeTooLarge) => "word",
    }
}

fn use_map<const W: usize, const R: usize, const P: usize>(s: u32, e: u32) -> String {
    let dev = Inner::new(W, R, P, e as usize / P, (s, e)).dev();
    let mut buf = vec![0u8; 128];
    for (k, len) in [(7u8, 0usize)] {
        let v = vec![0x5A; len];
        let mut st = MapStorage::<u8, _, _>::new(
            SimFlash::<W, R, P>::handle(dev.clone()), MapConfig::new(s..e), Cache::new_uncached());
        match run(st.store_item::<&[u8]>(&mut buf, &k, &v.as_slice())) {
            Some(Ok(())) => {}
            x => return format!("store: {x:?}"),
        }
        let mut st = MapStorage::<u8, _, _>::new(
            SimFlash::<W, R, P>::handle(dev.clone()), MapConfig::new(s..e), Cache::new_uncached());
        match run(st.fetch_item::<&[u8]>(&mut buf, &k)) {
            Some(Ok(Some(x))) if x == v.as_slice() => {}
            x => return format!("fetch: {x:?}"),
        }
    }
    let b = dev.borrow().bad.clone();
    if b.is_empty() { "ok".into() } else { format!("access: {}", b[0]) }
}
fn use_queue<const W: usize, const R: usize, const P: usize>(s: u32, e: u32) -> String {
    let dev = Inner::new(W, R, P, e as usize / P, (s, e)).dev();
    let mut buf = vec![0u8; 128];
    let v = vec![0xA5u8];
    let mut st = QueueStorage::new(
        SimFlash::<W, R, P>::handle(dev.clone()), QueueConfig::new(s..e), Cache::new_uncached());
    match run(st.push(&v, false)) {
        Some(Ok(())) => {}
        x => return format!("push: {x:?}"),
    }
    let mut st = QueueStorage::new(
        SimFlash::<W, R, P>::handle(dev.clone()), QueueConfig::new(s..e), Cache::new_uncached());
    match run(st.pop(&mut buf)) {
        Some(Ok(Some(x))) if *x == *v => {}
        x => return format!("pop: {x:?}"),
    }
    let b = dev.borrow().bad.clone();
    if b.is_empty() { "ok".into() } else { format!("access: {}", b[0]) }
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn geo<const W: usize, const R: usize, const P: usize>(rng: &mut Rng, n: u64, out: &mut Vec<String>, events: &mut u64) {
    let p = P as u64;
    let top = (1u64 << 32) - 1;
    let mut ranges: Vec<(u64, u64)> = vec![];
    // page quotients around the limits, small offsets around page boundaries
    for sq in [0u64, 1, 3] {
        for d in [-2i64, -1, 0, 1, 2, 3, 5] {
            let eq = sq as i64 + d;
            if eq < 0 {
                continue;
            }
            for (so, eo) in [(0i64, 0i64), (1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (-1, -1), (W as i64, 0), (0, W as i64), (R as i64, R as i64)] {
                let (s, e) = (sq as i64 * p as i64 + so, eq * p as i64 + eo);
                if s >= 0 && e >= 0 {
                    ranges.push((s as u64, e as u64));
                }
            }
        }
    }
    let lastq = top / p;
    for d in 0..3u64.min(lastq) {
        ranges.push(((lastq - d) * p, lastq * p));
        ranges.push((lastq * p, (lastq - d) * p));
        ranges.push((0, (lastq - d) * p));
        ranges.push(((lastq - d) * p, top));
        ranges.push((top, (lastq - d) * p));
    }
    for _ in 0..n {
        let (a, b) = (rng.next() % (top + 1), rng.next() % (top + 1));
        let (a, b) = if rng.p(0.5) { (a / p * p, b / p * p) } else { (a, b) };
        ranges.push((a, b));
    }
    ranges.retain(|(s, e)| *s <= top && *e <= top);
    for (who, min) in [("map", 2u64), ("queue", 1)] {
        let mut ev = vec![];
        for (s, e) in &ranges {
            let (s32, e32) = (*s as u32, *e as u32);
            let res = guard(|| if who == "map" { map_res::<W, R, P>(s32, e32) } else { queue_res::<W, R, P>(s32, e32) }).unwrap_or("panic");
            let new_ok = guard(|| {
                if who == "map" {
                    let _ = MapConfig::<SimFlash<W, R, P>>::new(s32..e32);
                } else {
                    let _ = QueueConfig::<SimFlash<W, R, P>>::new(s32..e32);
                }
            })
            .is_some();
            // only use the device where the range itself is sane
            let used = if res == "ok" && *e <= LIMIT && e.saturating_sub(*s) >= min * p {
                guard(|| if who == "map" { use_map::<W, R, P>(s32, e32) } else { use_queue::<W, R, P>(s32, e32) })
                    .unwrap_or("panic".into())
            } else {
                "skip".into()
            };
            ev.push(format!(
                "{{\"sq\":{},\"sr\":{},\"eq\":{},\"er\":{},\"res\":\"{res}\",\"new\":{new_ok},\"use\":{:?}}}",
                (s / p).min(1 << 30), s % p, (e / p).min(1 << 30), e % p, used
            ));
            *events += 1;
        }
        out.push(format!("{{\"who\":\"{who}\",\"w\":{W},\"r\":{R},\"p\":{},\"ev\":[{}]}}", P.min(1 << 30), ev.join(",")));
    }
}

macro_rules! geos {
    ($rng:expr, $n:expr, $out:expr, $ev:expr; $($w:literal $r:literal : $($p:literal)*;)*) => {
        $($( geo::<$w, $r, $p>($rng, $n, $out, $ev); )*)*
    };
}

pub fn record(seed: u64, n: u64) -> (Vec<String>, u64) {
    let (mut out, mut ev) = (vec![], 0);
    let mut rng = Rng::new(seed);
    geos! { &mut rng, n, &mut out, &mut ev;
        1 1: 2 8 9 10 11 12 16 64 4096 65536;
        2 1: 12 14 16 64;
        2 2: 12 14 16 4096;
        1 2: 12 14 16;
        4 1: 16 20 24 32 256 4096;
        4 4: 12 16 20 24 28 4096 131072;
        1 4: 16 20 24;
        8 1: 24 32 40 64 2048;
        8 8: 24 32 40 64;
        2 8: 24 32 40;
        16 4: 48 64 80 1024;
        16 16: 48 64 80 4096;
        32 1: 96 128 160 8192;
        32 32: 96 128 160 8192;
        8 32: 96 128 160;
        64 1: 192 256 320 4096;
        64 64: 192 256 320 4096;
        4 64: 256 320 4096;
        128 8: 512 8192;
        4 1: 1073741824;
        1 1: 2147483648;
    }
    (out, ev)
}
