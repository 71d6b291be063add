//! On-flash representation: histories with the flash image recorded after every operation (F04, F05)
//! and executions with one wrong read (F06).
use crate::api::*;
use crate::sim::*;
use crate::util::*;

const NK: usize = 6;

enum Inst {
    M(Box<dyn MapApi>),
    Q(Box<dyn QueueApi>),
}
#[derive(Clone, Debug)]
enum Op {
    Store(u8, Vec<u8>),
    Remove(u8),
    RemoveAll,
    EraseAll,
    Fetch(u8),
    Push(Vec<u8>, bool),
    Pop,
    Peek,
    ItPop(Vec<bool>),
    Iter,
    Renew,
}
#[derive(Clone, Debug, PartialEq)]
struct Got {
    res: &'static str,
    out: Vec<Vec<u8>>,
    /// 1-based positions popped during iteration
    at: Vec<usize>,
}

fn make(map: bool, g: &Geo, c: usize, d: &Dev) -> Inst {
    if map { Inst::M(make_map(g.g, c, d, g.range)) } else { Inst::Q(make_queue(g.g, c, d, g.range)) }
}
fn bufsize(g: &Geo) -> usize {
    (g.max_item() + 64).min(70_000)
}

fn exec(i: &mut Inst, op: &Op, g: &Geo) -> Got {
    let b = bufsize(g);
    let mut out = vec![];
    let mut at = vec![];
    let r = match (i, op) {
        (Inst::M(m), Op::Store(k, v)) => m.store(b, *k, v, StoreKind::Dyn),
        (Inst::M(m), Op::Remove(k)) => m.remove(b, *k),
        (Inst::M(m), Op::RemoveAll) => m.remove_all(b),
        (Inst::M(m), Op::EraseAll) => m.erase_all(),
        (Inst::M(m), Op::Fetch(k)) => m.fetch(b, *k),
        (Inst::M(m), Op::Iter) => {
            let (r, l) = m.iter(b);
            out = l.into_iter().map(|x| x.1).collect();
            r
        }
        (Inst::Q(q), Op::Push(d, o)) => q.push(d, *o),
        (Inst::Q(q), Op::Pop) => q.pop(b),
        (Inst::Q(q), Op::Peek) => q.peek(b),
        (Inst::Q(q), Op::EraseAll) => q.erase_all(),
        (Inst::Q(q), Op::Iter) => {
            let (r, l) = q.iter(b, usize::MAX, &mut |_| false);
            out = l.into_iter().map(|x| x.0).collect();
            r
        }
        (Inst::Q(q), Op::ItPop(dec)) => {
            let (r, l) = q.iter(b, usize::MAX, &mut |i| dec.get(i).copied().unwrap_or(false));
            for (n, x) in l.into_iter().enumerate() {
                if x.1 == 1 {
                    at.push(n + 1);
                }
                out.push(x.0);
            }
            r
        }
        (_, Op::Renew) => Res::Ok,
        _ => unreachable!(),
    };
    if let Res::Val(Some(v)) = &r {
        out.push(v.clone());
    }
    if std::env::var("SHOW").is_ok() {
        if let Res::Panic(s) = &r {
            eprintln!("panic: {s} in {op:?}");
        }
    }
    Got { res: r.tag(), out, at }
}

/// What a fresh uncached instance reads, as JSON, and how reading went.
fn read(map: bool, dev: &Inner, g: &Geo) -> (String, String) {
    let d = dev.fresh_copy().dev();
    let b = bufsize(g);
    let mut err = String::new();
    match make(map, g, 0, &d) {
        Inst::M(mut m) => {
            let l: Vec<String> = (0..NK)
                .map(|k| match m.fetch(b, k as u8) {
                    Res::Val(Some(v)) => format!("{{\"has\":true,\"v\":{}}}", jarr(&v)),
                    Res::Val(None) => "{\"has\":false,\"v\":[]}".into(),
                    r => {
                        if err != "panic" {
                            err = r.tag().into();
                        }
                        "{\"has\":false,\"v\":[]}".into()
                    }
                })
                .collect();
            (err, jarr(&l))
        }
        Inst::Q(mut q) => {
            let (r, l) = q.iter(b, usize::MAX, &mut |_| false);
            if !r.ok() {
                err = r.tag().into();
            }
            (err, jarr2(&l.iter().map(|x| x.0.clone()).collect::<Vec<_>>()))
        }
    }
}

fn img(dev: &Inner) -> &[u8] {
    &dev.data[dev.range.0 as usize..dev.range.1 as usize]
}

// ---------------------------------------------------------------------------------------------
// independent encoder

/// Changes the last four bytes such that the checksum before adaptation is `t`.
fn forge(d: &mut [u8], t: u32) {
    let n = d.len() - 4;
    let mut x = !t;
    for _ in 0..32 {
        x = if x & 0x8000_0000 != 0 { ((x ^ POLY) << 1) | 1 } else { x << 1 };
    }
    let r = reg32(0xEEEE_EEEE, &d[..n]) ^ x;
    d[n..].copy_from_slice(&r.to_le_bytes());
}
fn maybe_forge(rng: &mut Rng, d: &mut [u8], keep: usize, prob: f64) {
    if d.len() >= keep + 4 && rng.p(prob) {
        let r = rng.next() as u32 & !0xFF;
        let t = *rng.pick(&[0u32, 0xFFFF_FFFF, 1, 0xFF, 0x0100, r, r | 0xFF, r | 1, r | 0xFE]);
        forge(d, t);
    }
}
fn key_bytes(k: u8) -> Vec<u8> {
    (0..key_len(k)).map(|i| if i == 0 { k } else { 0xA0 + i as u8 }).collect()
}

/// Lengths with a bias to the limits of a page and of the length field's bytes.
fn gen_len(rng: &mut Rng, mx: usize) -> usize {
    if rng.p(0.12) {
        mx - rng.below(4).min(mx)
    } else if rng.p(0.5) {
        rng.below(mx.min(24) + 1)
    } else if mx > 60_000 && rng.p(0.6) {
        // the checksum of most of these lengths would be 0xFFFF without adaptation
        *rng.pick(&[6870usize, 11915, 17969, 6870, 11915, 29292, 38725, 52130, 13741, 65535])
    } else if mx > 300 && rng.p(0.4) {
        (*rng.pick(&[254usize, 255, 256, 257, 258, 511, 512, 496, 496])).min(mx)
    } else {
        rng.below(mx.min(400) + 1)
    }
}
fn gen_item(rng: &mut Rng, g: &Geo, map: bool) -> (u8, Vec<u8>) {
    let mx = g.max_item().min(65535);
    if map {
        let k = rng.below(NK) as u8;
        let l = gen_len(rng, mx).saturating_sub(key_len(k));
        let mut d = key_bytes(k);
        d.extend(gen_bytes(rng, l));
        maybe_forge(rng, &mut d, key_len(k), 0.25);
        (k, d)
    } else {
        let l = gen_len(rng, mx);
        let mut d = gen_bytes(rng, l);
        maybe_forge(rng, &mut d, 0, 0.25);
        (0, d)
    }
}

/// A page area (between the markers) with items.
fn gen_page(rng: &mut Rng, g: &Geo, map: bool, area: &mut [u8], fill: f64) {
    let h = g.hdr();
    let mut a = 0;
    while a + h <= area.len() && rng.p(fill) {
        if rng.p(0.08) {
            // a header of which only a part got written
            let n = rng.range(1, 7);
            for x in 0..n {
                area[a + x] = rng.next() as u8 & 0xFE;
            }
            if n > 4 && rng.p(0.5) {
                area[a + 4] = 0xFF;
            }
            a += h;
            continue;
        }
        let (_, mut d) = gen_item(rng, g, map);
        let max = area.len() - a - h;
        if d.len() > max {
            if rng.p(0.5) {
                break;
            }
            if map && max < 8 {
                break;
            }
            d.truncate(max);
        }
        let up = d.len().next_multiple_of(g.word);
        if up > max {
            break;
        }
        let mut c = crc32(&d);
        let len = d.len() as u16;
        let mut w = d.clone();
        w.resize(up, if rng.p(0.7) { 0 } else { rng.next() as u8 });
        match rng.below(12) {
            0 | 1 => c = 0,
            2 => c = c.wrapping_add(1 + rng.below(500) as u32).max(1),
            3 if !w.is_empty() && len > 0 => {
                // interrupted data: the end is still blank
                let k = rng.below(len as usize);
                for x in &mut w[k..] {
                    *x = 0xFF
                }
            }
            _ => {}
        }
        area[a..a + 4].copy_from_slice(&c.to_le_bytes());
        area[a + 4..a + 6].copy_from_slice(&len.to_le_bytes());
        area[a + 6..a + 8].copy_from_slice(&crc16(len).to_le_bytes());
        if h > 8 && rng.p(0.2) {
            area[a + 8..a + h].fill(rng.next() as u8);
        }
        area[a + h..a + h + up].copy_from_slice(&w);
        a += h + up;
    }
}
fn gen_image(rng: &mut Rng, g: &Geo, map: bool, data: &mut [u8]) {
    let (w, n, p) = (g.word, g.np, g.page);
    data.fill(0xFF);
    let used = if map { rng.below(n) } else { rng.below(n + 1) };
    let start = rng.below(n);
    // the youngest page may be closed already: interrupted between closing it and opening the next
    let no_partial = used > 0 && used < n && if map { rng.p(0.15) && (start == 0 || used + 1 == n) } else { rng.p(0.25) };
    for i in 0..used {
        let pg = &mut data[((start + i) % n) * p..((start + i) % n + 1) * p];
        let last = i + 1 == used;
        pg[..w].fill(0);
        if !last || no_partial {
            pg[p - w..].fill(0);
        }
        let fill = if last { *rng.pick(&[0.0, 0.5, 0.9]) } else { *rng.pick(&[0.6, 0.95, 0.99]) };
        gen_page(rng, g, map, &mut pg[w..p - w], fill);
    }
}

// ---------------------------------------------------------------------------------------------

/// (offset of header, data length) of what looks like items, for choosing where to damage
fn spots(img: &[u8], g: &Geo) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for pg in 0..g.np {
        let (mut a, end) = (pg * g.page + g.word, (pg + 1) * g.page - g.word);
        while a + g.hdr() <= end {
            let l = u16::from_le_bytes([img[a + 4], img[a + 5]]);
            let c = u16::from_le_bytes([img[a + 6], img[a + 7]]);
            let up = (l as usize).next_multiple_of(g.word);
            if crc16(l) == c && a + g.hdr() + up <= end {
                v.push((a, l as usize));
                a += g.hdr() + up;
            } else {
                a += g.word;
            }
        }
    }
    v
}

fn setup(rng: &mut Rng, map: bool, big: bool) -> Geo {
    let gi = if big { if rng.p(0.3) { 9 } else { 8 } } else { *rng.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5, 6, 7]) };
    let np = if gi == 9 { 2 } else if gi >= 8 { rng.range(2, 3) } else if map { rng.range(2, 5) } else { rng.range(1, 5) };
    let (b, a) = if big { (0, 0) } else { (rng.below(2), rng.below(2)) };
    Geo::new(gi, np, b, a)
}

fn gen_op(rng: &mut Rng, g: &Geo, map: bool, full_phase: &mut bool) -> Op {
    if rng.p(0.08) {
        *full_phase = !*full_phase;
    }
    if map {
        match rng.weighted(&[if *full_phase { 70 } else { 20 }, 8, 1, 1, 6, 2, 2]) {
            0 => {
                let (k, d) = gen_item(rng, g, true);
                Op::Store(k, d[key_len(k)..].to_vec())
            }
            1 => Op::Remove(rng.below(NK) as u8),
            2 => Op::RemoveAll,
            3 => Op::EraseAll,
            4 => Op::Fetch(rng.below(NK) as u8),
            5 => Op::Iter,
            _ => Op::Renew,
        }
    } else {
        let f = *full_phase;
        match rng.weighted(&[if f { 50 } else { 15 }, if f { 20 } else { 3 }, if f { 10 } else { 40 }, 4, 6, 2, 1, 2]) {
            0 => Op::Push(gen_item(rng, g, false).1, false),
            1 => Op::Push(gen_item(rng, g, false).1, true),
            2 => Op::Pop,
            3 => Op::Peek,
            4 => Op::ItPop((0..40).map(|_| rng.p(0.5)).collect()),
            5 => Op::Iter,
            6 => Op::EraseAll,
            _ => Op::Renew,
        }
    }
}

struct Ev {
    op: &'static str,
    k: u8,
    v: Vec<u8>,
    over: bool,
    got: Got,
    bits: u32,
}
fn parts(op: &Op) -> (&'static str, u8, Vec<u8>, bool) {
    match op {
        Op::Store(k, v) => ("store", *k, v.clone(), false),
        Op::Remove(k) => ("remove", *k, vec![], false),
        Op::RemoveAll => ("removeall", 0, vec![], false),
        Op::EraseAll => ("eraseall", 0, vec![], false),
        Op::Fetch(k) => ("fetch", *k, vec![], false),
        Op::Push(v, o) => ("push", 0, v.clone(), *o),
        Op::Pop => ("pop", 0, vec![], false),
        Op::Peek => ("peek", 0, vec![], false),
        Op::ItPop(_) => ("itpop", 0, vec![], false),
        Op::Iter => ("iter", 0, vec![], false),
        Op::Renew => ("renew", 0, vec![], false),
    }
}

pub fn run(prof: &str, seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed);
    let map = prof.contains('m');
    let big = prof.contains('b');
    let damage = prof.starts_with("f05");
    let g = setup(&mut rng, map, big);
    let strict = !damage && rng.p(0.55);
    let mut init = g.blank();
    let (lo, hi) = (init.range.0 as usize, init.range.1 as usize);
    if !strict && !(damage && rng.p(0.4)) {
        gen_image(&mut rng, &g, map, &mut init.data[lo..hi]);
    }
    let dev = init.dev();
    let c = if big { 7 } else { *rng.pick(caches_for(g.g)) };
    let mut inst = make(map, &g, c, &dev);
    let (err, reads) = read(map, &dev.borrow(), &g);
    let mut line = format!(
        "{{\"id\":\"{}-{seed}\",\"_\":0,\"kind\":\"{}\",\"w\":{},\"r\":{},\"p\":{},\"n\":{},\"nk\":{NK},\"strict\":{strict},\"img\":{},\"reads\":{reads},\"err\":{},\"ev\":[",
        prof, if map { "m" } else { "q" }, g.w, g.r, g.page, g.np, jarr(img(&dev.borrow())), jstr(&err)
    );
    let nops = if g.g == 9 { 4 } else if big { 14 } else { 36 };
    let mut phase = true;
    let mut wrecked = false;
    let mut marked: Vec<usize> = vec![];
    let mut n = 0;
    for step in 0..nops {
        let x = rng.p(0.22);
        let mut e = if damage && step > 3 && x {
            let mut d = dev.borrow_mut();
            let im = &mut d.data[lo..hi];
            let sp = spots(im, &g);
            match rng.below(if wrecked { 5 } else { 10 }) {
                0 if !wrecked && !rng.p(0.35) => continue,
                0 => {
                    // arbitrary damage
                    wrecked = true;
                    match rng.below(6) {
                        0 => {
                            for _ in 0..rng.range(1, 40) {
                                let a = rng.below(im.len());
                                im[a] &= rng.next() as u8;
                            }
                        }
                        1 => {
                            for b in im.iter_mut() {
                                *b = rng.next() as u8
                            }
                        }
                        2 => {
                            let (s, t) = (rng.below(g.np) * g.page, rng.below(g.np) * g.page);
                            let cp = im[s..s + g.page].to_vec();
                            im[t..t + g.page].copy_from_slice(&cp);
                        }
                        3 => {
                            let s = rng.below(im.len());
                            let l = rng.below(im.len() - s) + 1;
                            let f = *rng.pick(&[0u8, 0xFF]);
                            im[s..s + l].fill(f);
                        }
                        4 => {
                            let pg = rng.below(g.np) * g.page;
                            let f = *rng.pick(&[0u8, 0xFF]);
                            let o = if rng.p(0.5) { pg } else { pg + g.page - g.word };
                            im[o..o + g.word].fill(f);
                        }
                        _ => {
                            if let Some((a, _)) = (!sp.is_empty()).then(|| *rng.pick(&sp)) {
                                // a wrong length with a right checksum
                                let l = rng.next() as u16 & if rng.p(0.5) { 0xFF } else { 0xFFFF };
                                im[a + 4..a + 6].copy_from_slice(&l.to_le_bytes());
                                im[a + 6..a + 8].copy_from_slice(&crc16(l).to_le_bytes());
                            }
                        }
                    }
                    Ev { op: "wreck", k: 0, v: vec![], over: false, got: Got { res: "ok", out: vec![], at: vec![] }, bits: 0 }
                }
                1 | 2 => {
                    let pg = rng.below(g.np) * g.page;
                    let m = if rng.p(0.5) { pg } else { pg + g.page - g.word };
                    if marked.contains(&m) {
                        continue;
                    }
                    marked.push(m);
                    let a = m + rng.below(g.word);
                    im[a] ^= 1 << rng.below(8);
                    Ev { op: "flip", k: 0, v: vec![], over: false, got: Got { res: "ok", out: vec![], at: vec![a] }, bits: 1 }
                }
                _ => {
                    if sp.is_empty() {
                        continue;
                    }
                    let (a, l) = *rng.pick(&sp);
                    let mut at = vec![];
                    let nb = if rng.p(0.6) { 1 } else { rng.range(2, 5) };
                    let mut bits = 0;
                    for _ in 0..nb {
                        let o = if l == 0 || rng.p(0.25) { a + rng.below(4) } else { a + g.hdr() + rng.below(l) };
                        if at.contains(&o) {
                            continue;
                        }
                        let m = if nb == 1 { 1u8 << rng.below(8) } else { (rng.next() as u8).max(1) };
                        im[o] ^= m;
                        bits += m.count_ones();
                        at.push(o);
                    }
                    Ev { op: "flip", k: 0, v: vec![], over: false, got: Got { res: "ok", out: vec![], at }, bits }
                }
            }
        } else {
            let op = gen_op(&mut rng, &g, map, &mut phase);
            if matches!(op, Op::Renew) {
                drop(inst);
                inst = make(map, &g, c, &dev);
            }
            let got = exec(&mut inst, &op, &g);
            out.execs += 1;
            let (o, k, v, over) = parts(&op);
            Ev { op: o, k, v, over, got, bits: 0 }
        };
        if matches!(e.op, "flip" | "wreck") {
            // damage happens while the device is off
            drop(inst);
            inst = make(map, &g, c, &dev);
            out.fault_points += 1;
        }
        let mut d = dev.borrow_mut();
        d.ops = 0;
        let bad = !d.bad.is_empty();
        d.bad.clear();
        let (mut err, reads) = read(map, &d, &g);
        if e.got.res == "panic" {
            err = "panic".into();
        }
        if n > 0 {
            line.push(',');
        }
        let outs = std::mem::take(&mut e.got.out);
        line.push_str(&format!(
            "{{\"op\":\"{}\",\"res\":\"{}\",\"k\":{},\"v\":{},\"over\":{},\"out\":{},\"at\":{},\"bits\":{},\"img\":{},\"reads\":{reads},\"err\":{},\"bad\":{bad}}}",
            e.op, e.got.res, e.k, jarr(&e.v), e.over, jarr2(&outs), jarr(&e.got.at), e.bits, jarr(img(&d)), jstr(&err)
        ));
        n += 1;
        if err == "panic" || (wrecked && rng.p(0.02)) {
            break;
        }
    }
    line.push_str("]}");
    out.push(line, n);
}

// ---------------------------------------------------------------------------------------------

pub fn glitch(prof: &str, seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed);
    let map = prof.contains('m');
    let g = setup(&mut rng, map, false);
    let mut init = g.blank();
    if rng.p(0.5) {
        let (lo, hi) = (init.range.0 as usize, init.range.1 as usize);
        gen_image(&mut rng, &g, map, &mut init.data[lo..hi]);
    }
    let c = *rng.pick(caches_for(g.g));
    let mut phase = true;
    let ops: Vec<Op> = (0..30).map(|_| gen_op(&mut rng, &g, map, &mut phase)).collect();
    // run to the end: outcome of every operation and the flash after it
    let run = |upto: usize, gl: Option<(u64, usize, u8)>, from: usize| {
        let dev = init.clone().dev();
        let mut inst = make(map, &g, c, &dev);
        let mut res = vec![];
        for (i, op) in ops.iter().enumerate().take(upto) {
            if matches!(op, Op::Renew) {
                drop(inst);
                inst = make(map, &g, c, &dev);
            }
            {
                let mut d = dev.borrow_mut();
                d.ops = 0;
                d.reads = 0;
                if i == from {
                    d.glitch = gl;
                }
            }
            let got = exec(&mut inst, op, &g);
            if i >= from {
                let mut d = dev.borrow_mut();
                d.glitch = None;
                res.push((got, d.reads, img(&d).to_vec()));
            }
        }
        let d = dev.borrow();
        (res, d.glitch_hit, d.glitch_img.clone())
    };
    let (plain, _, _) = run(ops.len(), None, 0);
    let mut evs: Vec<String> = vec![];
    let (mut diff, mut same) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        for rd in 0..plain[i].1 {
            for _ in 0..2 {
                let mask = if rng.p(0.5) { 1u8 << rng.below(8) } else { (rng.next() as u8).max(1) };
                let upto = (i + 3).min(ops.len());
                let (r, hit, im) = run(upto, Some((rd, rng.below(1 << 20), mask)), i);
                out.execs += 1;
                out.fault_points += 1;
                let Some((off, k)) = hit else { continue };
                let a = off + k - g.range.0;
                let eq = r.iter().enumerate().all(|(j, x)| x.0 == plain[i + j].0 && x.2 == plain[i + j].2);
                let panic = r.iter().any(|x| x.0.res == "panic");
                // unequal outcomes are all recorded, equal ones sampled
                if eq {
                    same += 1;
                    if same % 60 != 1 {
                        continue;
                    }
                } else {
                    diff += 1;
                    if diff > 150 && !rng.p(0.1) {
                        continue;
                    }
                }
                evs.push(format!(
                    "{{\"op\":\"{}\",\"n\":{i},\"rd\":{rd},\"res\":\"{}\",\"same\":{eq},\"a\":{a},\"mask\":{mask},\"img\":{}}}",
                    parts(op).0, if panic { "panic" } else { r[0].0.res }, jarr(&im)
                ));
            }
        }
    }
    let n = evs.len() as u64;
    let line = format!(
        "{{\"id\":\"{prof}-{seed}\",\"_\":0,\"w\":{},\"r\":{},\"p\":{},\"n\":{},\"ev\":{}}}",
        g.w, g.r, g.page, g.np, jarr(&evs)
    );
    out.push(line, n);
}
