//! Drives a real MapStorage and records traces for spec/MapTrace.tla.
use crate::api::*;
use crate::sim::*;
use crate::util::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Op {
    Store { k: u8, v: Vec<u8>, kind: StoreKind },
    Fetch { k: u8 },
    FetchBad { k: u8 },
    Remove { k: u8 },
    RemoveAll,
    EraseAll,
    Iter,
    /// drop the instance, create a new one with an empty cache
    Renew,
    /// destroy the instance, create a new one with its cache
    Reuse,
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Store { kind: StoreKind::FailSer, .. } => "storefail",
            Op::Store { .. } => "store",
            Op::Fetch { .. } => "fetch",
            Op::FetchBad { .. } => "fetchbad",
            Op::Remove { .. } => "remove",
            Op::RemoveAll => "removeall",
            Op::EraseAll => "eraseall",
            Op::Iter => "iter",
            Op::Renew => "renew",
            Op::Reuse => "reuse",
        }
    }
    pub fn key(&self) -> i64 {
        match self {
            Op::Store { k, .. } | Op::Fetch { k } | Op::FetchBad { k } | Op::Remove { k } => *k as i64,
            _ => 0,
        }
    }
}

#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub geos: &'static [usize],
    pub np: (usize, usize),
    pub keys: (usize, usize),
    pub nops: usize,
    /// store, fetch, remove, removeall, eraseall, iter, renew, reuse, reject-ish
    pub w: [u32; 9],
    /// probability that an op of the main history is interrupted, and by what
    pub fault: f64,
    pub fault_modes: &'static [&'static str],
    /// probability to enumerate all crash positions of an op
    pub enum_crash: f64,
    /// of those crash positions, fraction that is continued as an own trace
    pub crash_follow: f64,
    /// probability to enumerate error/cancel positions of an op (with follow-up ops)
    pub enum_fault: f64,
    pub enum_reads: bool,
    /// fraction of enumerated fault positions that is kept
    pub fault_keep: f64,
    /// odd buffer sizes / rejected requests
    pub rejects: bool,
    pub lockstep: bool,
    /// sizes: 0 = mixed, 1 = big, 2 = tiny
    pub glitch: f64,
    /// probability per op of reading with a failing read during iteration
    pub iter_read_fault: f64,
    pub only_uncached: bool,
    /// record every flash access
    pub flog: bool,
    /// many pages, most of them used before the history begins
    pub many: bool,
}

pub const BASE: Prof = Prof {
    name: "base",
    geos: &[0, 1, 2, 3, 4, 5, 6, 7],
    np: (2, 5),
    keys: (1, 6),
    nops: 120,
    w: [60, 20, 8, 1, 1, 0, 3, 2, 0],
    fault: 0.0,
    fault_modes: &[],
    enum_crash: 0.0,
    crash_follow: 0.0,
    enum_fault: 0.0,
    enum_reads: false,
    fault_keep: 1.0,
    rejects: false,
    lockstep: false,
    glitch: 0.0,
    iter_read_fault: 0.0,
    only_uncached: false,
    flog: false,
    many: false,
};

pub struct Outcome {
    pub res: Res,
    pub list: Vec<(u8, Vec<u8>)>,
}

pub fn exec(inst: &mut Box<dyn MapApi>, op: &Op, buf: usize) -> Outcome {
    let mut list = vec![];
    let res = match op {
        Op::Store { k, v, kind } => inst.store(buf, *k, v, *kind),
        Op::Fetch { k } => inst.fetch(buf, *k),
        Op::FetchBad { k } => inst.fetch_bad(buf, *k),
        Op::Remove { k } => inst.remove(buf, *k),
        Op::RemoveAll => inst.remove_all(buf),
        Op::EraseAll => inst.erase_all(),
        Op::Iter => {
            let (r, l) = inst.iter(buf);
            list = l;
            r
        }
        Op::Renew => Res::Ok,
        Op::Reuse => {
            inst.reuse();
            Res::Ok
        }
    };
    Outcome { res, list }
}

pub const BUF: usize = 512;

/// Contents per key as seen by a fresh uncached instance on a copy of the device.
pub fn observe(dev: &Inner, g: &Geo, nk: usize, dict: &mut Dict) -> Vec<i64> {
    let d = dev.fresh_copy().dev();
    let mut m = make_map(g.g, 0, &d, g.range);
    (1..=nk)
        .map(|k| match m.fetch(BUF, k as u8) {
            Res::Val(None) => 0,
            Res::Val(Some(v)) => dict.id(&v),
            _ => -1,
        })
        .collect()
}

pub struct Hist<'a> {
    p: &'a Prof,
    g: Geo,
    nk: usize,
    dict: Dict,
    rng: Rng,
    vlens: Vec<usize>,
    /// no items longer than `vlens` (so that a smaller buffer has to do)
    small: bool,
    vctr: u64,
    hist: BTreeSet<(i64, i64)>,
    dbg: bool,
}

impl<'a> Hist<'a> {
    fn value(&mut self, k: u8) -> Vec<u8> {
        let maxv = self.g.max_item().saturating_sub(key_len(k));
        let mut len = *self.rng.pick(&self.vlens.clone());
        if self.small {
        } else if self.rng.p(0.08) {
            len = maxv; // exactly the biggest possible
        } else if self.rng.p(0.05) {
            len = maxv.saturating_sub(1 + self.rng.below(3));
        } else if self.rng.p(0.05) {
            len = 0;
        }
        len = len.min(maxv);
        self.vctr += 1;
        let mut v = gen_bytes(&mut self.rng, len);
        // keep values distinguishable where there is room
        if len >= 3 {
            v[len - 1] = self.vctr as u8;
            v[len - 2] = (self.vctr >> 8) as u8 ^ 0x55;
        }
        v
    }

    /// uses the range for some rounds
    fn age(&mut self, dev: &Dev) {
        let mut m = make_map(self.g.g, 6, dev, self.g.range);
        let pool: Vec<(u8, Vec<u8>)> = (0..8)
            .map(|_| {
                let k = self.rng.range(1, self.nk) as u8;
                (k, self.value(k))
            })
            .collect();
        let n = self.g.np * self.rng.range(1, 12) / 4 + self.rng.below(9);
        let mut moved = 0;
        let mut last = 0;
        for _ in 0..40 * n {
            let (k, v) = self.rng.pick(&pool).clone();
            let id = self.dict.id(&v);
            self.hist.insert((k as i64, id));
            m.store(BUF, k, &v, StoreKind::Dyn);
            // (the erases are not counted; count the pages by what is written)
            last += key_len(k) + v.len() + self.g.hdr();
            if last > self.g.page {
                last = 0;
                moved += 1;
            }
            if moved >= n {
                break;
            }
        }
        dev.borrow_mut().reset();
    }
    /// a buffer size, often one that some item needs exactly
    fn odd(&mut self) -> usize {
        let w = self.g.word;
        if self.rng.p(0.5) {
            let k = key_len(self.rng.range(1, self.nk) as u8);
            let n = (k + *self.rng.pick(&self.vlens.clone())).next_multiple_of(w);
            return if self.rng.p(0.5) { n } else { (n + self.rng.below(3)).saturating_sub(1) };
        }
        self.rng.range(0, self.g.max_item() + w)
    }

    fn op(&mut self) -> (Op, usize) {
        let k = self.rng.range(1, self.nk) as u8;
        let mut buf = BUF;
        let op = match self.rng.weighted(&self.p.w) {
            0 => Op::Store { k, v: self.value(k), kind: if self.rng.p(0.2) { StoreKind::Generic } else { StoreKind::Dyn } },
            1 => Op::Fetch { k },
            2 => Op::Remove { k },
            3 => Op::RemoveAll,
            4 => Op::EraseAll,
            5 => Op::Iter,
            6 => Op::Renew,
            7 => Op::Reuse,
            _ => match self.rng.below(if self.p.rejects { 6 } else { 3 }) {
                0 => {
                    let mx = self.g.max_item() - key_len(k);
                    let n = mx + 1 + self.rng.below(3) * self.g.word + if self.small { key_len(k) } else { 0 };
                    Op::Store { k, v: vec![0x31; n], kind: StoreKind::Dyn }
                }
                1 => Op::Store { k, v: vec![1, 2, 3], kind: StoreKind::FailSer },
                2 => Op::FetchBad { k },
                3 => {
                    let v = self.value(k);
                    buf = self.rng.range(0, (v.len() + key_len(k) + self.g.word).min(BUF));
                    Op::Store { k, v, kind: StoreKind::Dyn }
                }
                4 => {
                    buf = self.odd();
                    Op::Fetch { k }
                }
                _ => {
                    buf = self.odd();
                    match self.rng.below(3) {
                        0 => Op::Remove { k },
                        1 => Op::RemoveAll,
                        _ => Op::Iter,
                    }
                }
            },
        };
        (op, buf)
    }

    fn event(&mut self, op: &Op, buf: usize, o: &Outcome, f: &str, post: &[i64], extra: &str) -> String {
        let (v, n) = match op {
            Op::Store { k, v, .. } => (self.dict.id(v), key_len(*k) + v.len()),
            _ => (0, 0),
        };
        if v > 0 && self.p.w[5] > 0 {
            self.hist.insert((op.key(), v));
        }
        let x = match &o.res {
            Res::Val(Some(b)) => self.dict.id(b),
            Res::Val(None) => 0,
            _ => -1,
        };
        let list: Vec<Vec<i64>> = o.list.iter().map(|(k, v)| vec![*k as i64, self.dict.id(v)]).collect();
        let mut s = format!(
            "{{\"o\":\"{}\",\"k\":{},\"v\":{},\"n\":{},\"r\":\"{}\",\"f\":\"{}\",\"x\":{},\"c\":{}",
            op.name(), op.key(), v, n, o.res.tag(), f, x, jarr(post)
        );
        if matches!(op, Op::Iter) {
            s += &format!(",\"i\":{}", jarr2(&list));
        }
        if self.p.rejects {
            s += &format!(",\"u\":{buf}");
            if let Res::BufSmall(n) = &o.res {
                s += &format!(",\"bn\":{n}");
            }
        }
        if let Res::Panic(m) = &o.res {
            s += &format!(",\"msg\":{}", jstr(m));
        }
        s += extra;
        s.push('}');
        s
    }

    fn line(&self, id: &str, cache: usize, init: &[i64], evs: &[String]) -> String {
        let lens: Vec<usize> = self.dict.lens.clone();
        let kl: Vec<usize> = (1..=self.nk).map(|k| key_len(k as u8)).collect();
        let need = evs.iter().any(|e| e.starts_with("{\"o\":\"iter"));
        let hist: Vec<Vec<i64>> = self.hist.iter().filter(|_| need).map(|(k, v)| vec![*k, *v]).collect();
        format!(
            "{{\"id\":{},\"_\":0,\"hist\":{},\"cache\":\"{}\",\"w\":{},\"wr\":{},\"rd\":{},\"base\":{},\"page\":{},\"np\":{},\"hdr\":{},\"word\":{},\"klen\":{},\"vlen\":{},\"init\":{},\"ev\":[{}]}}",
            jstr(id), jarr2(&hist), CACHES[cache], self.g.w, self.g.w, self.g.r, self.g.range.0, self.g.page, self.g.np, self.g.hdr(), self.g.word, jarr(&kl), jarr(&lens), jarr(init), evs.join(",")
        )
    }
}

fn caches_of(p: &Prof, g: usize) -> Vec<usize> {
    if p.only_uncached { vec![0] } else { caches_for(g).to_vec() }
}

/// `pre` is the device before a window of ops already executed without interruption; replaying the
/// window on a copy gives an instance with a warm cache in the current state.
fn warm(g: &Geo, cache: usize, base: &Inner, window: &[(Op, usize)]) -> (Dev, Box<dyn MapApi>) {
    let d = base.fresh_copy().dev();
    let mut inst = make_map(g.g, cache, &d, g.range);
    for (op, buf) in window {
        if matches!(op, Op::Renew) {
            inst = make_map(g.g, cache, &d, g.range);
        }
        exec(&mut inst, op, *buf);
    }
    d.borrow_mut().reset();
    (d, inst)
}

fn mode_name(m: Mode, read: bool) -> &'static str {
    match (m, read) {
        (Mode::Crash, _) => "crash",
        (Mode::Err, false) => "err",
        (Mode::Cancel, false) => "cancel",
        (Mode::Err, true) => "rerr",
        (Mode::Cancel, true) => "rcancel",
    }
}

fn arm(d: &Dev, name: &str, pos: u64) {
    let mut i = d.borrow_mut();
    match name {
        "crash" => i.at = Some((pos, Mode::Crash)),
        "err" => i.at = Some((pos, Mode::Err)),
        "cancel" => i.at = Some((pos, Mode::Cancel)),
        "rerr" => i.read_at = Some((pos, Mode::Err)),
        "rcancel" => i.read_at = Some((pos, Mode::Cancel)),
        _ => unreachable!(),
    }
}

pub fn run(p: &Prof, seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed ^ fnv(p.name.as_bytes()));
    let gi = *rng.pick(p.geos);
    let np = if p.many { *rng.pick(&MANY) + rng.below(3) } else { rng.range(p.np.0, p.np.1) };
    let before = rng.range(1, 2);
    let g = Geo::new(gi, np, before, 1);
    let nk = rng.range(p.keys.0, p.keys.1);
    let maxv = g.max_item().saturating_sub(3);
    // per-history palette of value lengths
    let style = rng.below(4);
    let vlens: Vec<usize> = (0..4)
        .map(|_| match style {
            0 => rng.below(maxv + 1),
            1 => rng.below(maxv / 2 + 1),
            2 => rng.below(g.word * 2 + 1),
            _ => maxv / 2 + rng.below(maxv / 2 + 1),
        })
        .collect();
    let caches = caches_of(p, gi);
    let mut cache = *rng.pick(&caches);
    let dev = g.blank().dev();
    let mut h = Hist { p, g, nk, dict: Dict::default(), rng, vlens, small: p.rejects && seed % 3 != 0, vctr: 0, hist: BTreeSet::new(), dbg: false };

    if p.many {
        h.age(&dev);
    }
    if p.lockstep {
        return lockstep(h, &dev.borrow(), seed, out);
    }

    let mut inst = make_map(gi, cache, &dev, h.g.range);
    let mut content = observe(&dev.borrow(), &h.g, nk, &mut h.dict);
    let init = content.clone();
    let mut evs: Vec<String> = vec![];
    let mut win_base = dev.borrow().fresh_copy();
    let mut window: Vec<(Op, usize)> = vec![];
    let mut subs: Vec<(Vec<i64>, usize, Vec<String>, String)> = vec![];

    let mut redo_erase = false;
    for step in 0..p.nops {
        let (mut op, buf) = h.op();
        if redo_erase {
            // an interrupted erase of everything has to be repeated before anything else
            op = Op::EraseAll;
        }
        out.execs += 1;
        let mut extra = String::new();
        let mutating = matches!(op, Op::Store { .. } | Op::Remove { .. } | Op::RemoveAll | Op::EraseAll);
        let want_crash = h.rng.p(p.enum_crash) && (mutating || h.rng.p(0.3));
        let want_fault = h.rng.p(p.enum_fault) && !matches!(op, Op::Renew | Op::Reuse);
        if want_crash || want_fault {
            let c2 = *h.rng.pick(&caches);
            // dry run for the number of positions
            let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
            exec(&mut i2, &op, buf);
            let (npos, nreads) = (d.borrow().pos, d.borrow().reads);
            if want_crash {
                let mut set = BTreeSet::new();
                for pos in 0..npos {
                    let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
                    arm(&d, "crash", pos);
                    let o = exec(&mut i2, &op, buf);
                    let fired = d.borrow().fired;
                    d.borrow_mut().reset();
                    out.crash_points += 1;
                    let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
                    if let Res::Panic(_) = o.res {
                        let e = h.event(&op, buf, &o, "crash", &post, "");
                        subs.push((content.clone(), c2, vec![e], format!("{}/{seed}/{step}/crash{pos}", p.name)));
                        continue;
                    }
                    if !fired {
                        continue;
                    }
                    if h.rng.p(p.crash_follow) {
                        let mut e2 = vec![h.event(&op, buf, &o, "crash", &post, "")];
                        let c3 = *h.rng.pick(&caches);
                        follow(&mut h, &d, c3, None, &mut e2, 3, &["crash"], matches!(op, Op::EraseAll), out);
                        subs.push((content.clone(), c3, e2, format!("{}/{seed}/{step}/crash{pos}", p.name)));
                    }
                    set.insert(post);
                }
                if !set.is_empty() {
                    extra = format!(",\"b\":{}", jarr2(&set.into_iter().collect::<Vec<_>>()));
                }
            }
            if want_fault {
                let mut plan: Vec<(&'static str, u64)> = vec![];
                for m in p.fault_modes {
                    match *m {
                        "err" | "cancel" => plan.extend((0..npos).map(|x| (*m, x))),
                        "rerr" | "rcancel" if p.enum_reads => plan.extend((0..nreads).map(|x| (*m, x))),
                        _ => {}
                    }
                }
                for (m, pos) in plan {
                    if !h.rng.p(p.fault_keep) {
                        continue;
                    }
                    let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
                    h.dbg = debug(&format!("{}/{seed}/{step}/{m}{pos}", p.name));
                    if h.dbg {
                        dump(&d.borrow(), &format!("before; window {window:?}"));
                    }
                    arm(&d, m, pos);
                    let o = exec(&mut i2, &op, buf);
                    if h.dbg {
                        dump(&d.borrow(), &format!("{op:?} {m}{pos} -> {:?}", o.res));
                    }
                    let fired = d.borrow().fired;
                    d.borrow_mut().reset();
                    out.fault_points += 1;
                    let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
                    let f = if fired { m } else { "none" };
                    let mut e2 = vec![h.event(&op, buf, &o, f, &post, "")];
                    let n = h.rng.range(2, 4);
                    follow(&mut h, &d, c2, Some(i2), &mut e2, n, p.fault_modes, matches!(op, Op::EraseAll) && !o.res.ok(), out);
                    subs.push((content.clone(), c2, e2, format!("{}/{seed}/{step}/{m}{pos}", p.name)));
                }
            }
        }
        // the real step
        let mut fname = "none";
        let mut glitch = false;
        if p.fault > 0.0 && h.rng.p(p.fault) && !matches!(op, Op::Renew | Op::Reuse) {
            let m = *h.rng.pick(p.fault_modes);
            // dry run on a copy to know the number of positions
            let d = dev.borrow().fresh_copy().dev();
            let mut i2 = make_map(gi, 0, &d, h.g.range);
            exec(&mut i2, &op, buf);
            let n = if m.starts_with('r') { d.borrow().reads } else { d.borrow().pos };
            if n > 0 {
                let pos = h.rng.next() % n;
                arm(&dev, m, pos);
                fname = m;
            }
        } else if p.glitch > 0.0 && h.rng.p(p.glitch) {
            glitch = true;
        }
        let _ = glitch;
        if matches!(op, Op::Renew) {
            cache = *h.rng.pick(&caches);
            inst = make_map(gi, cache, &dev, h.g.range);
        }
        dev.borrow_mut().ops = 0;
        dev.borrow_mut().log_on = p.flog;
        dev.borrow_mut().log.clear();
        let o = exec(&mut inst, &op, buf);
        let fired = dev.borrow().fired;
        dev.borrow_mut().reset();
        if p.flog {
            extra += &flash_log(&mut dev.borrow_mut());
        }
        let f = if fired { fname } else { "none" };
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        if fired && fname == "crash" {
            cache = *h.rng.pick(&caches);
            inst = make_map(gi, cache, &dev, h.g.range);
        }
        let post = observe(&dev.borrow(), &h.g, nk, &mut h.dict);
        evs.push(h.event(&op, buf, &o, f, &post, &extra));
        content = post;
        if fired || window.len() >= 12 || matches!(o.res, Res::Panic(_)) {
            win_base = dev.borrow().fresh_copy();
            window.clear();
        } else {
            window.push((op, buf));
        }
        if matches!(o.res, Res::Panic(_)) {
            break; // the instance is not usable any more
        }
    }
    let bad = dev.borrow().bad.clone();
    if !bad.is_empty() {
        evs.push(format!("{{\"o\":\"badflash\",\"k\":0,\"v\":0,\"n\":0,\"r\":\"ok\",\"f\":\"none\",\"x\":-1,\"c\":{},\"msg\":{}}}", jarr(&content), jstr(&bad[0])));
    }
    let n = evs.len() as u64;
    let l = h.line(&format!("{}/{seed}", p.name), cache, &init, &evs);
    out.push(l, n);
    for (init, c, e, id) in subs {
        let n = e.len() as u64;
        let l = h.line(&id, c, &init, &e);
        out.push(l, n);
    }
}

/// Continue after an interruption with a few more ops (possibly interrupted again).
fn follow(h: &mut Hist, d: &Dev, cache: usize, inst: Option<Box<dyn MapApi>>, evs: &mut Vec<String>, n: usize, modes: &[&'static str], redo: bool, out: &mut Out) {
    let gi = h.g.g;
    let mut inst = inst.unwrap_or_else(|| make_map(gi, cache, d, h.g.range));
    let mut redo_erase = redo;
    for i in 0..n {
        let (mut op, buf) = h.op();
        if redo_erase {
            op = Op::EraseAll;
        } else if i == 0 && h.rng.p(0.5) {
            let k = h.rng.range(1, h.nk) as u8;
            op = Op::Store { k, v: h.value(k), kind: StoreKind::Dyn };
        }
        if matches!(op, Op::Renew) {
            inst = make_map(gi, cache, d, h.g.range);
        }
        let mut fname = "none";
        if h.rng.p(0.3) && !modes.is_empty() && !matches!(op, Op::Renew | Op::Reuse) {
            fname = *h.rng.pick(modes);
            let d2 = d.borrow().fresh_copy().dev();
            let mut i2 = make_map(gi, 0, &d2, h.g.range);
            exec(&mut i2, &op, buf);
            let n = if fname.starts_with('r') { d2.borrow().reads } else { d2.borrow().pos };
            if n > 0 {
                arm(d, fname, h.rng.next() % n);
            }
        }
        let at = (d.borrow().at, d.borrow().read_at);
        let o = exec(&mut inst, &op, buf);
        if h.dbg {
            dump(&d.borrow(), &format!("{op:?} {fname} {at:?} -> {:?}", o.res));
        }
        out.execs += 1;
        let fired = d.borrow().fired;
        d.borrow_mut().reset();
        let f = if fired { fname } else { "none" };
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        if fired && fname == "crash" {
            inst = make_map(gi, cache, d, h.g.range);
        }
        let post = observe(&d.borrow(), &h.g, h.nk, &mut h.dict);
        let panic = matches!(o.res, Res::Panic(_));
        evs.push(h.event(&op, buf, &o, f, &post, ""));
        if panic {
            return;
        }
    }
}

/// All caches over the same history (and the same faults): results and contents must agree.
fn lockstep(mut h: Hist, start: &Inner, seed: u64, out: &mut Out) {
    let gi = h.g.g;
    let caches = caches_for(gi);
    let devs: Vec<Dev> = caches.iter().map(|_| start.fresh_copy().dev()).collect();
    let mut insts: Vec<Box<dyn MapApi>> = caches.iter().zip(&devs).map(|(c, d)| make_map(gi, *c, d, h.g.range)).collect();
    let init = observe(&devs[0].borrow(), &h.g, h.nk, &mut h.dict);
    let mut evs = vec![];
    let mut redo_erase = false;
    'outer: for _ in 0..h.p.nops {
        let (mut op, buf) = h.op();
        if redo_erase {
            op = Op::EraseAll;
        }
        let mut fault: Option<(&'static str, u64)> = None;
        if h.rng.p(h.p.fault) && !matches!(op, Op::Renew | Op::Reuse) {
            let m = *h.rng.pick(h.p.fault_modes);
            let d = devs[0].borrow().fresh_copy().dev();
            let mut i2 = make_map(gi, 0, &d, h.g.range);
            exec(&mut i2, &op, buf);
            let n = if m.starts_with('r') { d.borrow().reads } else { d.borrow().pos };
            if n > 0 {
                fault = Some((m, h.rng.next() % n));
            }
        }
        let mut rs = vec![];
        let mut cs = vec![];
        let mut first: Option<(Outcome, bool, Vec<i64>)> = None;
        let mut panicked = false;
        for (j, d) in devs.iter().enumerate() {
            if let Some((m, pos)) = fault {
                arm(d, m, pos);
            }
            if matches!(op, Op::Renew) {
                insts[j] = make_map(gi, caches[j], d, h.g.range);
            }
            let o = exec(&mut insts[j], &op, buf);
            out.execs += 1;
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            if fired && fault.unwrap().0 == "crash" {
                insts[j] = make_map(gi, caches[j], d, h.g.range);
            }
            panicked |= matches!(o.res, Res::Panic(_));
            let post = observe(&d.borrow(), &h.g, h.nk, &mut h.dict);
            let val = match &o.res {
                Res::Val(Some(b)) => format!("v{}", h.dict.id(b)),
                Res::Val(None) => "none".into(),
                Res::BufSmall(n) => format!("{n}"),
                _ => String::new(),
            };
            let list: Vec<String> = o.list.iter().map(|(k, v)| format!("{k}:{}", h.dict.id(v))).collect();
            // a failed/cancelled iteration may have yielded a different number of items
            let lsig = if o.res.ok() { list.join(",") } else { String::new() };
            rs.push(jstr(&format!("{} {} {}", o.res.tag(), val, lsig)));
            cs.push(post.clone());
            if first.is_none() {
                first = Some((o, fired, post));
            }
        }
        let (o, fired, post) = first.unwrap();
        let f = if fired { fault.unwrap().0 } else { "none" };
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        let extra = format!(",\"rs\":{},\"cs\":{}", jarr(&rs), jarr2(&cs));
        evs.push(h.event(&op, buf, &o, f, &post, &extra));
        if panicked {
            break 'outer;
        }
    }
    let n = evs.len() as u64;
    let l = h.line(&format!("{}/{seed}", h.p.name), 0, &init, &evs);
    out.push(l, n);
}

/// Replays behaviours of the model in the real map, then does every operation, interrupted
/// everywhere, from where they lead.
#[allow(clippy::too_many_arguments)]
pub fn walk(id: &str, wk: &Walk, gi: usize, np: usize, vlens: &[usize], faults: f64, seed: u64, out: &mut Out) {
    let p = &Prof { only_uncached: false, rejects: false, ..BASE };
    let g = Geo::new(gi, np, 1, 1);
    let nk = wk.c.len();
    let caches = caches_for(gi);
    let mut rng = Rng::new(seed);
    let mut cache = *rng.pick(caches);
    let dev = g.blank().dev();
    let mut h = Hist { p, g, nk, dict: Dict::default(), rng, vlens: vlens.to_vec(), small: false, vctr: 0, hist: BTreeSet::new(), dbg: debug(id) };
    let val = |v: u8| vec![v; vlens[v as usize - 1]];
    for k in 1..=nk {
        for v in 1..=vlens.len() {
            let x = h.dict.id(&val(v as u8));
            h.hist.insert((k as i64, x));
        }
    }
    let mkop = |o: &str, k: u8, v: u8| match o {
        "store" => Op::Store { k, v: val(v), kind: StoreKind::Dyn },
        "fetch" => Op::Fetch { k },
        "remove" => Op::Remove { k },
        "removeall" => Op::RemoveAll,
        _ => Op::Iter,
    };
    let mut inst = make_map(gi, cache, &dev, h.g.range);
    let mut content = vec![0; nk];
    let init = content.clone();
    let mut evs = vec![];
    let mut base = dev.borrow().fresh_copy();
    let mut window: Vec<(Op, usize)> = vec![];
    let mut follows = true;
    for (o, k, v, m, ph) in &wk.path {
        let op = mkop(o, *k, *v);
        out.execs += 1;
        if *m >= 0 {
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            exec(&mut i2, &op, BUF);
            let calls = d.borrow().calls.clone();
            let at = position(&dev.borrow(), &calls, *m, *ph);
            match at {
                Some(x) => {
                    dev.borrow_mut().at = Some((x, Mode::Crash));
                }
                None => follows = false, // the code does it in another way: go on without
            }
        }
        let ob = exec(&mut inst, &op, BUF);
        let fired = dev.borrow().fired;
        dev.borrow_mut().reset();
        let post = observe(&dev.borrow(), &h.g, nk, &mut h.dict);
        if h.dbg {
            dump(&dev.borrow(), &format!("{op:?} {m}.{ph} {cache} -> {:?} {post:?}", ob.res));
        }
        evs.push(h.event(&op, BUF, &ob, if fired { "crash" } else { "none" }, &post, ""));
        content = post;
        window.push((op, BUF));
        if fired {
            cache = *h.rng.pick(caches);
            inst = make_map(gi, cache, &dev, h.g.range);
            base = dev.borrow().fresh_copy();
            window.clear();
        }
        if matches!(ob.res, Res::Panic(_)) {
            break;
        }
    }
    follows &= shape(&dev.borrow(), &h.g, &|x, d| if x == "ok" { format!("[{},{},\"ok\"]", d[0], d[d.len() - 1]) } else { format!("[0,0,\"{x}\"]") }) == wk.shape;
    out.followed += follows as u64;
    let n = evs.len() as u64;
    let l = h.line(id, cache, &init, &evs);
    out.push(l, n);
    // everything that can happen next
    let mut ops = vec![("removeall", 0, 0), ("iter", 0, 0)];
    for k in 1..=nk as u8 {
        ops.push(("fetch", k, 0));
        ops.push(("remove", k, 0));
        for v in 1..=vlens.len() as u8 {
            ops.push(("store", k, v));
        }
    }
    for (o, k, v) in ops {
        let op = mkop(o, k, v);
        let (d, mut i2) = warm(&h.g, cache, &base, &window);
        let ob = exec(&mut i2, &op, BUF);
        let npos = d.borrow().pos;
        d.borrow_mut().reset();
        let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
        let mut set = BTreeSet::new();
        for pos in 0..npos {
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            arm(&d, "crash", pos);
            let o2 = exec(&mut i2, &op, BUF);
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            out.crash_points += 1;
            let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
            if matches!(o2.res, Res::Panic(_)) {
                let e = h.event(&op, BUF, &o2, "crash", &post, "");
                let l = h.line(&format!("{id}/{o}{k}{v}/{pos}"), cache, &content, &[e]);
                out.push(l, 1);
            } else if fired {
                set.insert(post);
            }
        }
        let extra = format!(",\"b\":{}", jarr2(&set.into_iter().collect::<Vec<_>>()));
        let mut evs = vec![h.event(&op, BUF, &ob, "none", &post, &extra)];
        // the same instance goes on: reads everything with what it remembers
        for k in 1..=nk as u8 {
            if matches!(ob.res, Res::Panic(_)) {
                break;
            }
            let f = Op::Fetch { k };
            let of = exec(&mut i2, &f, BUF);
            d.borrow_mut().reset();
            let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
            evs.push(h.event(&f, BUF, &of, "none", &post, ""));
        }
        let n = evs.len() as u64;
        let l = h.line(&format!("{id}/{o}{k}{v}"), cache, &content, &evs);
        out.push(l, n);
        // one interruption the instance survives, then the next operations
        // (`faults` of them on average)
        let mut todo = faults;
        while npos > 0 && h.rng.p(todo) {
            todo -= 1.0;
            let mode = *h.rng.pick(&["err", "cancel"]);
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            let pos = h.rng.next() % npos;
            arm(&d, mode, pos);
            let o2 = exec(&mut i2, &op, BUF);
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            out.fault_points += 1;
            let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
            let mut evs = vec![h.event(&op, BUF, &o2, if fired { mode } else { "none" }, &post, "")];
            if !matches!(o2.res, Res::Panic(_)) {
                for _ in 0..3 {
                    let (kk, vv) = (h.rng.range(1, nk) as u8, h.rng.range(1, vlens.len()) as u8);
                    let f = match h.rng.below(4) {
                        0 | 1 => mkop("store", kk, vv),
                        2 => mkop("remove", kk, 0),
                        _ => mkop("fetch", kk, 0),
                    };
                    let of = exec(&mut i2, &f, BUF);
                    d.borrow_mut().reset();
                    let post = observe(&d.borrow(), &h.g, nk, &mut h.dict);
                    evs.push(h.event(&f, BUF, &of, "none", &post, ""));
                    if matches!(of.res, Res::Panic(_)) {
                        break;
                    }
                }
            }
            let n = evs.len() as u64;
            let l = h.line(&format!("{id}/{o}{k}{v}/{mode}{pos}"), cache, &content, &evs);
            out.push(l, n);
        }
    }
}
