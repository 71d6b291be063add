//! Drives a real QueueStorage and records traces for spec/QueueTrace.tla.
use crate::api::*;
use crate::sim::*;
use crate::util::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Op {
    Push { d: Vec<u8>, over: bool },
    Pop,
    Peek,
    /// iterate over at most `limit` items, popping the ones chosen by `dec`
    Iter { limit: usize, dec: Vec<bool> },
    MaxFit,
    Space,
    EraseAll,
    Renew,
    Reuse,
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Push { over: false, .. } => "push",
            Op::Push { over: true, .. } => "pusho",
            Op::Pop => "pop",
            Op::Peek => "peek",
            Op::Iter { .. } => "iter",
            Op::MaxFit => "maxfit",
            Op::Space => "space",
            Op::EraseAll => "eraseall",
            Op::Renew => "renew",
            Op::Reuse => "reuse",
        }
    }
}

#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub geos: &'static [usize],
    pub np: (usize, usize),
    pub nops: usize,
    /// push, push overwriting, pop, peek, iter (plain), iter with pops, maxfit, space, eraseall, renew, reuse, rejects
    pub w: [u32; 12],
    pub fault: f64,
    pub fault_modes: &'static [&'static str],
    pub enum_crash: f64,
    pub crash_follow: f64,
    pub enum_fault: f64,
    pub enum_reads: bool,
    pub fault_keep: f64,
    pub rejects: bool,
    pub lockstep: bool,
    /// probe max fit / space agreement around each op
    pub probe: f64,
    pub only_uncached: bool,
    /// record every flash access
    pub flog: bool,
    /// many pages, most of them used before the history begins
    pub many: bool,
    /// pops only in FIFO order
    pub fifo: bool,
}
pub const BASE: Prof = Prof {
    name: "qbase",
    geos: &[0, 1, 2, 3, 4, 5, 6, 7],
    np: (1, 5),
    nops: 150,
    w: [40, 10, 30, 5, 3, 5, 1, 1, 1, 2, 2, 0],
    fault: 0.0,
    fault_modes: &[],
    enum_crash: 0.0,
    crash_follow: 0.0,
    enum_fault: 0.0,
    enum_reads: false,
    fault_keep: 1.0,
    rejects: false,
    lockstep: false,
    probe: 0.0,
    only_uncached: false,
    flog: false,
    many: false,
    fifo: false,
};

pub struct Outcome {
    pub res: Res,
    pub list: Vec<(Vec<u8>, u8)>,
}
pub const BUF: usize = 512;

pub fn exec(inst: &mut Box<dyn QueueApi>, op: &Op, buf: usize) -> Outcome {
    let mut list = vec![];
    let res = match op {
        Op::Push { d, over } => inst.push(d, *over),
        Op::Pop => inst.pop(buf),
        Op::Peek => inst.peek(buf),
        Op::Iter { limit, dec } => {
            let (r, l) = inst.iter(buf, *limit, &mut |i| dec.get(i).copied().unwrap_or(false));
            list = l;
            r
        }
        Op::MaxFit => inst.max_fit(),
        Op::Space => inst.space_left(),
        Op::EraseAll => inst.erase_all(),
        Op::Renew => Res::Ok,
        Op::Reuse => {
            inst.reuse();
            Res::Ok
        }
    };
    Outcome { res, list }
}

/// Contents as seen by a fresh uncached instance on a copy of the device; <<-1>> if unreadable.
pub fn observe(dev: &Inner, g: &Geo, dict: &mut Dict) -> Vec<i64> {
    let d = dev.fresh_copy().dev();
    let mut q = make_queue(g.g, 0, &d, g.range);
    let (r, l) = q.iter(BUF, usize::MAX, &mut |_| false);
    if r.ok() { l.iter().map(|(b, _)| dict.id(b)).collect() } else { vec![-1] }
}

struct Hist<'a> {
    p: &'a Prof,
    g: Geo,
    dict: Dict,
    rng: Rng,
    lens: Vec<usize>,
    ctr: u64,
    /// no items longer than `lens` (so that a smaller buffer has to do)
    small: bool,
    dbg: bool,
    /// number of items now queued (to steer fill level)
    fill: usize,
    phase: bool,
}

impl Hist<'_> {
    fn data(&mut self) -> Vec<u8> {
        let mx = self.g.max_item();
        let mut len = *self.rng.pick(&self.lens.clone());
        if self.small {
        } else if self.rng.p(0.08) {
            len = mx;
        } else if self.rng.p(0.05) {
            len = mx - self.rng.below(4).min(mx);
        } else if self.rng.p(0.05) {
            len = 0;
        }
        len = len.min(mx);
        self.ctr += 1;
        let mut v = gen_bytes(&mut self.rng, len);
        if len >= 3 {
            v[len - 1] = self.ctr as u8;
            v[len - 2] = (self.ctr >> 8) as u8 ^ 0x55;
        }
        v
    }
    /// uses the range for some rounds
    fn age(&mut self, dev: &Dev) {
        let mut q = make_queue(self.g.g, 6, dev, self.g.range);
        let mx = self.g.max_item();
        let keep = self.rng.range(0, 5);
        for i in 0..self.g.np * self.rng.range(1, 12) / 4 + self.rng.below(5) {
            q.push(&vec![i as u8; mx - i % 3], true);
            if i >= keep {
                q.pop(BUF);
            }
        }
        dev.borrow_mut().reset();
    }
    fn op(&mut self) -> (Op, usize) {
        let mut buf = BUF;
        let mut w = self.p.w;
        // alternate between filling and draining phases so that wrap-around happens
        if self.rng.p(0.06) {
            self.phase = !self.phase;
        }
        if self.phase {
            w[0] *= 3;
        } else {
            w[2] *= 3;
        }
        let op = match self.rng.weighted(&w) {
            0 => Op::Push { d: self.data(), over: false },
            1 => Op::Push { d: self.data(), over: true },
            2 => Op::Pop,
            3 => Op::Peek,
            4 => Op::Iter { limit: usize::MAX, dec: vec![] },
            5 => {
                let n = self.rng.range(1, self.fill + 2);
                let limit = if self.rng.p(0.3) { n } else { usize::MAX };
                let style = if self.p.fifo { 4 } else { self.rng.below(5) };
                let dec = (0..n + 3)
                    .map(|i| match style {
                        0 => true,
                        1 => i % 2 == 0,
                        2 => i > 0,
                        3 => self.rng.p(0.8),
                        4 => i < n,
                        _ => self.rng.p(0.5),
                    })
                    .collect();
                Op::Iter { limit, dec }
            }
            6 => Op::MaxFit,
            7 => Op::Space,
            8 => Op::EraseAll,
            9 => Op::Renew,
            10 => Op::Reuse,
            _ => match self.rng.below(if self.p.rejects { 6 } else { 1 }) {
                0 | 1 => Op::Push {
                    d: vec![0x31; self.g.max_item() + 1 + self.rng.below(3) * self.g.word + if self.rng.p(0.1) { 70_000 } else { 0 }],
                    over: self.rng.p(0.5),
                },
                k => {
                    buf = if self.rng.p(0.5) {
                        let n = self.rng.pick(&self.lens.clone()).next_multiple_of(self.g.word);
                        if self.rng.p(0.5) { n } else { (n + self.rng.below(3)).saturating_sub(1) }
                    } else {
                        self.rng.range(0, self.g.max_item() + self.g.word)
                    };
                    match k {
                        2 | 3 => Op::Pop,
                        4 => Op::Peek,
                        _ => Op::Iter { limit: usize::MAX, dec: (0..6).map(|_| self.rng.p(0.5)).collect() },
                    }
                }
            },
        };
        (op, buf)
    }

    /// Would a push without permission to overwrite be refused as full?
    fn need(&mut self, dev: &Inner, op: &Op) -> Option<bool> {
        if let Op::Push { d, over: true } = op {
            let c = dev.fresh_copy().dev();
            let mut q = make_queue(self.g.g, 0, &c, self.g.range);
            return Some(q.push(d, false) == Res::Full);
        }
        None
    }
    fn space(&self, dev: &Inner) -> i64 {
        let c = dev.fresh_copy().dev();
        let mut q = make_queue(self.g.g, 0, &c, self.g.range);
        match q.space_left() {
            Res::Num(Some(n)) => n as i64,
            _ => -1,
        }
    }
    fn try_push(&self, dev: &Inner, n: usize) -> &'static str {
        let c = dev.fresh_copy().dev();
        let mut q = make_queue(self.g.g, 0, &c, self.g.range);
        q.push(&vec![0x42; n], false).tag()
    }

    fn event(&mut self, op: &Op, buf: usize, o: &Outcome, f: &str, post: &[i64], nd: Option<bool>, extra: &str) -> String {
        let (v, n) = match op {
            Op::Push { d, .. } => (self.dict.id(d), d.len()),
            _ => (0, 0),
        };
        let x = match &o.res {
            Res::Val(Some(b)) => self.dict.id(b),
            Res::Val(None) => 0,
            Res::Num(Some(n)) => (*n).min(1_000_000_000) as i64,
            Res::Num(None) => -1,
            _ => -2,
        };
        let mut s = format!(
            "{{\"o\":\"{}\",\"v\":{},\"n\":{},\"r\":\"{}\",\"f\":\"{}\",\"x\":{},\"c\":{}",
            op.name(), v, n, o.res.tag(), f, x, jarr(post)
        );
        if let Op::Iter { limit, dec } = op {
            let list: Vec<Vec<i64>> = o.list.iter().map(|(v, p)| vec![self.dict.id(v), *p as i64]).collect();
            let pl: Vec<usize> = (0..dec.len().min(*limit)).filter(|i| dec[*i]).map(|i| i + 1).collect();
            s += &format!(",\"i\":{},\"lim\":{},\"pl\":{}", jarr2(&list), (*limit).min(1_000_000), jarr(&pl));
        }
        if let Some(nd) = nd {
            s += &format!(",\"nd\":{nd}");
        }
        if self.p.rejects {
            s += &format!(",\"u\":{buf}");
            if let Res::BufSmall(n) = &o.res {
                s += &format!(",\"bn\":{n}");
            }
        }
        if let Res::Panic(m) = &o.res {
            s += &format!(",\"msg\":{}", jstr(m));
        }
        s += extra;
        s.push('}');
        s
    }
    fn line(&self, id: &str, cache: usize, init: &[i64], evs: &[String], ff: bool) -> String {
        format!(
            "{{\"id\":{},\"_\":0,\"cache\":\"{}\",\"w\":{},\"wr\":{},\"rd\":{},\"base\":{},\"page\":{},\"np\":{},\"hdr\":{},\"word\":{},\"fifo\":{},\"vlen\":{},\"init\":{},\"ev\":[{}]}}",
            jstr(id), CACHES[cache], self.g.w, self.g.w, self.g.r, self.g.range.0, self.g.page, self.g.np, self.g.hdr(), self.g.word, self.p.fifo && ff, jarr(&self.dict.lens), jarr(init), evs.join(",")
        )
    }
}

fn warm(g: &Geo, cache: usize, base: &Inner, window: &[(Op, usize)]) -> (Dev, Box<dyn QueueApi>) {
    let d = base.fresh_copy().dev();
    let mut inst = make_queue(g.g, cache, &d, g.range);
    for (op, buf) in window {
        if matches!(op, Op::Renew) {
            inst = make_queue(g.g, cache, &d, g.range);
        }
        exec(&mut inst, op, *buf);
    }
    d.borrow_mut().reset();
    (d, inst)
}

pub fn arm(d: &Dev, name: &str, pos: u64) {
    let mut i = d.borrow_mut();
    RESUME.set(if name != "crash" && pos % 3 != 0 { 2 } else { 0 });
    match name {
        "crash" => i.at = Some((pos, Mode::Crash)),
        "err" => i.at = Some((pos, Mode::Err)),
        "cancel" => i.at = Some((pos, Mode::Cancel)),
        "rerr" => i.read_at = Some((pos, Mode::Err)),
        "rcancel" => i.read_at = Some((pos, Mode::Cancel)),
        _ => unreachable!(),
    }
}

fn positions(dev: &Inner, g: &Geo, op: &Op, buf: usize, m: &str) -> u64 {
    let d = dev.fresh_copy().dev();
    let mut i2 = make_queue(g.g, 0, &d, g.range);
    exec(&mut i2, op, buf);
    let b = d.borrow();
    if m.starts_with('r') { b.reads } else { b.pos }
}

pub fn run(p: &Prof, seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed ^ fnv(p.name.as_bytes()));
    let gi = *rng.pick(p.geos);
    let np = if p.many { *rng.pick(&MANY) + rng.below(3) } else { rng.range(p.np.0, p.np.1) };
    let before = rng.range(1, 2);
    let g = Geo::new(gi, np, before, 1);
    let mx = g.max_item();
    let style = rng.below(4);
    let lens: Vec<usize> = (0..4)
        .map(|_| match style {
            0 => rng.below(mx + 1),
            1 => rng.below(mx / 2 + 1),
            2 => rng.below(g.word * 2 + 1),
            _ => mx / 2 + rng.below(mx / 2 + 1),
        })
        .collect();
    let caches: Vec<usize> = if p.only_uncached { vec![0] } else { caches_for(gi).to_vec() };
    let mut cache = *rng.pick(&caches);
    let dev = g.blank().dev();
    let mut h = Hist { p, g, dict: Dict::default(), rng, lens, ctr: 0, small: p.rejects && seed % 3 != 0, dbg: false, fill: 0, phase: true };
    if p.many {
        h.age(&dev);
    }
    if p.lockstep {
        return lockstep(h, &dev.borrow(), seed, out);
    }
    let mut inst = make_queue(gi, cache, &dev, h.g.range);
    let mut content = observe(&dev.borrow(), &h.g, &mut h.dict);
    let init = content.clone();
    let mut evs: Vec<String> = vec![];
    let mut win_base = dev.borrow().fresh_copy();
    let mut window: Vec<(Op, usize)> = vec![];
    let mut subs: Vec<(Vec<i64>, usize, Vec<String>, String)> = vec![];
    let mut redo_erase = false;
    let mut ff = true;

    for step in 0..p.nops {
        h.fill = content.len();
        let (mut op, buf) = h.op();
        if redo_erase {
            op = Op::EraseAll;
        }
        out.execs += 1;
        let mut extra = String::new();
        let mutating = matches!(op, Op::Push { .. } | Op::Pop | Op::EraseAll) || matches!(&op, Op::Iter { dec, .. } if !dec.is_empty());
        let want_crash = h.rng.p(p.enum_crash) && (mutating || h.rng.p(0.3));
        let want_fault = h.rng.p(p.enum_fault) && !matches!(op, Op::Renew | Op::Reuse);
        let nd = h.need(&dev.borrow(), &op);
        let (cache_now, erase_now) = (content.clone(), matches!(op, Op::EraseAll));
        if want_crash || want_fault {
            let c2 = *h.rng.pick(&caches);
            let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
            exec(&mut i2, &op, buf);
            let (npos, nreads) = (d.borrow().pos, d.borrow().reads);
            if want_crash {
                let mut set = BTreeSet::new();
                for pos in 0..npos {
                    let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
                    arm(&d, "crash", pos);
                    let o = exec(&mut i2, &op, buf);
                    let fired = d.borrow().fired;
                    d.borrow_mut().reset();
                    out.crash_points += 1;
                    let post = observe(&d.borrow(), &h.g, &mut h.dict);
                    if let Res::Panic(_) = o.res {
                        let e = h.event(&op, buf, &o, "crash", &post, nd, "");
                        subs.push((cache_now.clone(), c2, vec![e], format!("{}/{seed}/{step}/crash{pos}", p.name)));
                        continue;
                    }
                    if !fired {
                        continue;
                    }
                    if h.rng.p(p.crash_follow) {
                        let mut e2 = vec![h.event(&op, buf, &o, "crash", &post, nd, "")];
                        let c3 = *h.rng.pick(&caches);
                        h.dbg = debug(&format!("{}/{seed}/{step}/crash{pos}", p.name));
                        if h.dbg {
                            dump(&d.borrow(), &format!("{op:?} crash{pos} -> {:?}", o.res));
                        }
                        follow(&mut h, &d, c3, None, &mut e2, 3, &["crash"], erase_now, out);
                        subs.push((cache_now.clone(), c3, e2, format!("{}/{seed}/{step}/crash{pos}", p.name)));
                    }
                    set.insert(post);
                }
                if !set.is_empty() {
                    extra = format!(",\"b\":{}", jarr2(&set.into_iter().collect::<Vec<_>>()));
                }
            }
            if want_fault {
                let mut plan: Vec<(&'static str, u64)> = vec![];
                for m in p.fault_modes {
                    match *m {
                        "err" | "cancel" => plan.extend((0..npos).map(|x| (*m, x))),
                        "rerr" | "rcancel" if p.enum_reads => plan.extend((0..nreads).map(|x| (*m, x))),
                        _ => {}
                    }
                }
                for (m, pos) in plan {
                    if !h.rng.p(p.fault_keep) {
                        continue;
                    }
                    let (d, mut i2) = warm(&h.g, c2, &win_base, &window);
                    h.dbg = debug(&format!("{}/{seed}/{step}/{m}{pos}", p.name));
                    if h.dbg {
                        dump(&d.borrow(), &format!("before; window {window:?}"));
                    }
                    arm(&d, m, pos);
                    let o = exec(&mut i2, &op, buf);
                    if h.dbg {
                        dump(&d.borrow(), &format!("{op:?} {m}{pos} -> {:?}", o.res));
                    }
                    let fired = d.borrow().fired;
                    d.borrow_mut().reset();
                    out.fault_points += 1;
                    let post = observe(&d.borrow(), &h.g, &mut h.dict);
                    let f = if fired { m } else { "none" };
                    let mut e2 = vec![h.event(&op, buf, &o, f, &post, nd, "")];
                    let n = h.rng.range(2, 4);
                    follow(&mut h, &d, c2, Some(i2), &mut e2, n, p.fault_modes, erase_now && !o.res.ok(), out);
                    subs.push((cache_now.clone(), c2, e2, format!("{}/{seed}/{step}/{m}{pos}", p.name)));
                }
            }
        }
        // the real step
        h.dbg = debug(&format!("{}/{seed}", p.name));
        let mut fname = "none";
        if p.fault > 0.0 && h.rng.p(p.fault) && !matches!(op, Op::Renew | Op::Reuse) {
            let m = *h.rng.pick(p.fault_modes);
            let n = positions(&dev.borrow(), &h.g, &op, buf, m);
            if n > 0 {
                arm(&dev, m, h.rng.next() % n);
                fname = m;
            }
        }
        let probing = p.probe > 0.0 && fname == "none" && h.rng.p(p.probe);
        let s0 = if probing { h.space(&dev.borrow()) } else { 0 };
        if probing && matches!(op, Op::MaxFit) {
            let c = dev.borrow().fresh_copy().dev();
            let mut q = make_queue(gi, 0, &c, h.g.range);
            let (m, p0, p1) = match q.max_fit() {
                Res::Num(Some(m)) => (m as i64, h.try_push(&dev.borrow(), m.min(100_000) as usize), h.try_push(&dev.borrow(), m.min(100_000) as usize + 1)),
                Res::Num(None) => (-1, "ok", h.try_push(&dev.borrow(), 0)),
                _ => (-2, "ok", "full"),
            };
            extra += &format!(",\"m\":{m},\"p0\":\"{p0}\",\"p1\":\"{p1}\"");
        }
        if matches!(op, Op::Renew) {
            cache = *h.rng.pick(&caches);
            inst = make_queue(gi, cache, &dev, h.g.range);
        }
        dev.borrow_mut().ops = 0;
        dev.borrow_mut().log_on = p.flog;
        dev.borrow_mut().log.clear();
        let o = exec(&mut inst, &op, buf);
        if h.dbg {
            dump(&dev.borrow(), &format!("{step} {op:?} {fname} -> {:?}", o.res));
        }
        let fired = dev.borrow().fired;
        dev.borrow_mut().reset();
        if p.flog {
            extra += &flash_log(&mut dev.borrow_mut());
        }
        let f = if fired { fname } else { "none" };
        ff &= !fired;
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        if fired && fname == "crash" {
            cache = *h.rng.pick(&caches);
            inst = make_queue(gi, cache, &dev, h.g.range);
        }
        if probing {
            extra += &format!(",\"s\":[{s0},{}]", h.space(&dev.borrow()));
        }
        let post = observe(&dev.borrow(), &h.g, &mut h.dict);
        evs.push(h.event(&op, buf, &o, f, &post, nd, &extra));
        content = post;
        if fired || window.len() >= 12 || matches!(o.res, Res::Panic(_)) {
            win_base = dev.borrow().fresh_copy();
            window.clear();
        } else {
            window.push((op, buf));
        }
        if matches!(o.res, Res::Panic(_)) {
            break;
        }
    }
    let bad = dev.borrow().bad.clone();
    if !bad.is_empty() {
        evs.push(format!("{{\"o\":\"badflash\",\"v\":0,\"n\":0,\"r\":\"ok\",\"f\":\"none\",\"x\":-2,\"c\":{},\"msg\":{}}}", jarr(&content), jstr(&bad[0])));
    }
    let n = evs.len() as u64;
    let l = h.line(&format!("{}/{seed}", p.name), cache, &init, &evs, ff);
    out.push(l, n);
    for (init, c, e, id) in subs {
        let n = e.len() as u64;
        let l = h.line(&id, c, &init, &e, false);
        out.push(l, n);
    }
}

fn follow(h: &mut Hist, d: &Dev, cache: usize, inst: Option<Box<dyn QueueApi>>, evs: &mut Vec<String>, n: usize, modes: &[&'static str], redo: bool, out: &mut Out) {
    let gi = h.g.g;
    let mut inst = inst.unwrap_or_else(|| make_queue(gi, cache, d, h.g.range));
    let mut redo_erase = redo;
    for i in 0..n {
        let (mut op, buf) = h.op();
        if redo_erase {
            op = Op::EraseAll;
        } else if i == 0 && h.rng.p(0.5) {
            op = Op::Push { d: h.data(), over: h.rng.p(0.5) };
        }
        if matches!(op, Op::Renew) {
            inst = make_queue(gi, cache, d, h.g.range);
        }
        let nd = h.need(&d.borrow(), &op);
        let mut fname = "none";
        if h.rng.p(0.3) && !modes.is_empty() && !matches!(op, Op::Renew | Op::Reuse) {
            fname = *h.rng.pick(modes);
            let n = positions(&d.borrow(), &h.g, &op, buf, fname);
            if n > 0 {
                arm(d, fname, h.rng.next() % n);
            }
        }
        let at = (d.borrow().at, d.borrow().read_at);
        let o = exec(&mut inst, &op, buf);
        if h.dbg {
            dump(&d.borrow(), &format!("{op:?} {fname} {at:?} -> {:?}", o.res));
        }
        out.execs += 1;
        let fired = d.borrow().fired;
        d.borrow_mut().reset();
        let f = if fired { fname } else { "none" };
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        if fired && fname == "crash" {
            inst = make_queue(gi, cache, d, h.g.range);
        }
        let post = observe(&d.borrow(), &h.g, &mut h.dict);
        let panic = matches!(o.res, Res::Panic(_));
        evs.push(h.event(&op, buf, &o, f, &post, nd, ""));
        if panic {
            return;
        }
    }
}

fn lockstep(mut h: Hist, start: &Inner, seed: u64, out: &mut Out) {
    let gi = h.g.g;
    let caches = caches_for(gi);
    let devs: Vec<Dev> = caches.iter().map(|_| start.fresh_copy().dev()).collect();
    let mut insts: Vec<Box<dyn QueueApi>> = caches.iter().zip(&devs).map(|(c, d)| make_queue(gi, *c, d, h.g.range)).collect();
    let mut content = observe(&devs[0].borrow(), &h.g, &mut h.dict);
    let init = content.clone();
    let mut evs = vec![];
    let mut redo_erase = false;
    for _ in 0..h.p.nops {
        h.fill = content.len();
        let (mut op, buf) = h.op();
        if redo_erase {
            op = Op::EraseAll;
        }
        let nd = h.need(&devs[0].borrow(), &op);
        let mut fault: Option<(&'static str, u64)> = None;
        if h.rng.p(h.p.fault) && !matches!(op, Op::Renew | Op::Reuse) {
            let m = *h.rng.pick(h.p.fault_modes);
            let n = positions(&devs[0].borrow(), &h.g, &op, buf, m);
            if n > 0 {
                fault = Some((m, h.rng.next() % n));
            }
        }
        let (mut rs, mut cs) = (vec![], vec![]);
        let mut first: Option<(Outcome, bool, Vec<i64>)> = None;
        let mut panicked = false;
        for (j, d) in devs.iter().enumerate() {
            if let Some((m, pos)) = fault {
                arm(d, m, pos);
            }
            if matches!(op, Op::Renew) {
                insts[j] = make_queue(gi, caches[j], d, h.g.range);
            }
            let o = exec(&mut insts[j], &op, buf);
            out.execs += 1;
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            if fired && fault.unwrap().0 == "crash" {
                insts[j] = make_queue(gi, caches[j], d, h.g.range);
            }
            panicked |= matches!(o.res, Res::Panic(_));
            let post = observe(&d.borrow(), &h.g, &mut h.dict);
            let val = match &o.res {
                Res::Val(Some(b)) => format!("v{}", h.dict.id(b)),
                Res::Num(n) => format!("{n:?}"),
                Res::BufSmall(n) => format!("{n}"),
                _ => String::new(),
            };
            let list: Vec<String> = o.list.iter().map(|(v, p)| format!("{}:{p}", h.dict.id(v))).collect();
            let lsig = if o.res.ok() { list.join(",") } else { String::new() };
            rs.push(jstr(&format!("{} {} {}", o.res.tag(), val, lsig)));
            cs.push(post.clone());
            if first.is_none() {
                first = Some((o, fired, post));
            }
        }
        let (o, fired, post) = first.unwrap();
        let f = if fired { fault.unwrap().0 } else { "none" };
        redo_erase = matches!(op, Op::EraseAll) && !o.res.ok();
        let extra = format!(",\"rs\":{},\"cs\":{}", jarr(&rs), jarr2(&cs));
        evs.push(h.event(&op, buf, &o, f, &post, nd, &extra));
        content = post;
        if panicked {
            break;
        }
    }
    let n = evs.len() as u64;
    let l = h.line(&format!("{}/{seed}", h.p.name), 0, &init, &evs, false);
    out.push(l, n);
}

/// Replays behaviours of the model in the real queue, then does every operation, interrupted
/// everywhere, from where they lead.
#[allow(clippy::too_many_arguments)]
pub fn walk(id: &str, wk: &Walk, gi: usize, np: usize, lens: &[usize], faults: f64, seed: u64, out: &mut Out) {
    const TAGS: usize = 3;
    let p = &Prof { fifo: true, ..BASE };
    let g = Geo::new(gi, np, 1, 1);
    let caches = caches_for(gi);
    let mut rng = Rng::new(seed);
    let mut cache = *rng.pick(caches);
    let dev = g.blank().dev();
    let mut h = Hist { p, g, dict: Dict::default(), rng, lens: lens.to_vec(), ctr: 0, small: false, dbg: debug(id), fill: 0, phase: true };
    let val = |v: usize| vec![v as u8; lens[(v - 1) % lens.len()]];
    for v in 1..=TAGS * lens.len() {
        h.dict.id(&val(v));
    }
    let mkop = |o: &str, k: u8, v: u8| match o {
        "push" | "pusho" => Op::Push { d: val(v as usize), over: o == "pusho" },
        "pop" => Op::Pop,
        "peek" => Op::Peek,
        "maxfit" => Op::MaxFit,
        "space" => Op::Space,
        _ => Op::Iter { limit: usize::MAX, dec: (0..16).map(|i| if i < 7 { k >> i & 1 == 1 } else { k >= 128 }).collect() },
    };
    let mut inst = make_queue(gi, cache, &dev, h.g.range);
    let mut content: Vec<i64> = vec![];
    let init = content.clone();
    let mut evs = vec![];
    let mut base = dev.borrow().fresh_copy();
    let mut window: Vec<(Op, usize)> = vec![];
    let (mut follows, mut fifo) = (true, true);
    for (o, k, v, m, ph) in &wk.path {
        let op = mkop(o, *k, *v);
        out.execs += 1;
        let nd = h.need(&dev.borrow(), &op);
        if *m >= 0 {
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            exec(&mut i2, &op, BUF);
            let calls = d.borrow().calls.clone();
            let at = position(&dev.borrow(), &calls, *m, *ph);
            match at {
                Some(x) => dev.borrow_mut().at = Some((x, Mode::Crash)),
                None => follows = false, // the code does it in another way: go on without
            }
        }
        let ob = exec(&mut inst, &op, BUF);
        let fired = dev.borrow().fired;
        dev.borrow_mut().reset();
        fifo &= !fired && (*k == 0 || *k == 255);
        let post = observe(&dev.borrow(), &h.g, &mut h.dict);
        if h.dbg {
            dump(&dev.borrow(), &format!("{op:?} {m}.{ph} {cache} -> {:?} {post:?}", ob.res));
        }
        evs.push(h.event(&op, BUF, &ob, if fired { "crash" } else { "none" }, &post, nd, ""));
        content = post;
        window.push((op, BUF));
        if fired {
            cache = *h.rng.pick(caches);
            inst = make_queue(gi, cache, &dev, h.g.range);
            base = dev.borrow().fresh_copy();
            window.clear();
        }
        if matches!(ob.res, Res::Panic(_)) {
            break;
        }
    }
    let sh = shape(&dev.borrow(), &h.g, &|x, d| if x == "ok" { format!("[{},\"ok\"]", d[d.len() - 1]) } else { format!("[0,\"{x}\"]") });
    follows &= sh == wk.shape;
    if h.dbg {
        eprintln!("{sh}\n{}", wk.shape);
    }
    out.followed += follows as u64;
    let n = evs.len() as u64;
    let l = h.line(id, cache, &init, &evs, fifo);
    out.push(l, n);
    // everything that can happen next
    let tag = match content.last() {
        Some(x) if *x >= 1 => (*x as usize - 1) / lens.len() + 1,
        _ => 0,
    } % TAGS;
    let mut ops = vec![("pop", 0, 0), ("peek", 0, 0), ("maxfit", 0, 0), ("space", 0, 0), ("iter", 0, 0), ("iter", 2, 0), ("iter", 255, 0), ("iter", 254, 0)];
    for l in 1..=lens.len() {
        ops.push(("push", 0, (tag * lens.len() + l) as u8));
        ops.push(("pusho", 0, (tag * lens.len() + l) as u8));
    }
    for (o, k, v) in ops {
        let op = mkop(o, k, v);
        let mut extra = String::new();
        let (d, mut i2) = warm(&h.g, cache, &base, &window);
        let s0 = h.space(&d.borrow());
        if o == "maxfit" {
            let c = d.borrow().fresh_copy().dev();
            let mut q = make_queue(gi, 0, &c, h.g.range);
            let (m, p0, p1) = match q.max_fit() {
                Res::Num(Some(m)) => (m as i64, h.try_push(&d.borrow(), m.min(100_000) as usize), h.try_push(&d.borrow(), m.min(100_000) as usize + 1)),
                Res::Num(None) => (-1, "ok", h.try_push(&d.borrow(), 0)),
                _ => (-2, "ok", "full"),
            };
            extra += &format!(",\"m\":{m},\"p0\":\"{p0}\",\"p1\":\"{p1}\"");
        }
        let nd = h.need(&d.borrow(), &op);
        let ob = exec(&mut i2, &op, BUF);
        let npos = d.borrow().pos;
        d.borrow_mut().reset();
        let post = observe(&d.borrow(), &h.g, &mut h.dict);
        extra += &format!(",\"s\":[{s0},{}]", h.space(&d.borrow()));
        let mut set = BTreeSet::new();
        for pos in 0..npos {
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            arm(&d, "crash", pos);
            let o2 = exec(&mut i2, &op, BUF);
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            out.crash_points += 1;
            let post = observe(&d.borrow(), &h.g, &mut h.dict);
            if matches!(o2.res, Res::Panic(_)) {
                let e = h.event(&op, BUF, &o2, "crash", &post, nd, "");
                let l = h.line(&format!("{id}/{o}{k}{v}/{pos}"), cache, &content, &[e], false);
                out.push(l, 1);
            } else if fired {
                set.insert(post);
            }
        }
        if !set.is_empty() {
            extra += &format!(",\"b\":{}", jarr2(&set.into_iter().collect::<Vec<_>>()));
        }
        let mut evs = vec![h.event(&op, BUF, &ob, "none", &post, nd, &extra)];
        // the same instance goes on with what it remembers
        for o2 in ["peek", "maxfit", "iter", "pop"] {
            if matches!(ob.res, Res::Panic(_)) {
                break;
            }
            let f = mkop(o2, 0, 0);
            let s0 = h.space(&d.borrow());
            let of = exec(&mut i2, &f, BUF);
            d.borrow_mut().reset();
            let post = observe(&d.borrow(), &h.g, &mut h.dict);
            let x = format!(",\"s\":[{s0},{}]", h.space(&d.borrow()));
            evs.push(h.event(&f, BUF, &of, "none", &post, None, &x));
        }
        let n = evs.len() as u64;
        let l = h.line(&format!("{id}/{o}{k}{v}"), cache, &content, &evs, fifo && (k == 0 || k == 255));
        out.push(l, n);
        // one interruption the instance survives, then the next operations
        // (`faults` of them on average)
        let mut todo = faults;
        while npos > 0 && h.rng.p(todo) {
            todo -= 1.0;
            let mode = *h.rng.pick(&["err", "cancel"]);
            let (d, mut i2) = warm(&h.g, cache, &base, &window);
            let pos = h.rng.next() % npos;
            arm(&d, mode, pos);
            RESUME.set(0);
            let o2 = exec(&mut i2, &op, BUF);
            let fired = d.borrow().fired;
            d.borrow_mut().reset();
            out.fault_points += 1;
            let post = observe(&d.borrow(), &h.g, &mut h.dict);
            let mut evs = vec![h.event(&op, BUF, &o2, if fired { mode } else { "none" }, &post, nd, "")];
            if !matches!(o2.res, Res::Panic(_)) {
                for _ in 0..3 {
                    let l = h.rng.range(1, TAGS * lens.len()) as u8;
                    let f = match h.rng.below(5) {
                        0 | 1 => mkop("push", 0, l),
                        2 => mkop("pusho", 0, l),
                        3 => mkop("pop", 0, 0),
                        _ => mkop("iter", *h.rng.pick(&[0, 2, 255]), 0),
                    };
                    let nd = h.need(&d.borrow(), &f);
                    let of = exec(&mut i2, &f, BUF);
                    d.borrow_mut().reset();
                    let post = observe(&d.borrow(), &h.g, &mut h.dict);
                    evs.push(h.event(&f, BUF, &of, "none", &post, nd, ""));
                    if matches!(of.res, Res::Panic(_)) {
                        break;
                    }
                }
            }
            let n = evs.len() as u64;
            let l = h.line(&format!("{id}/{o}{k}{v}/{mode}{pos}"), cache, &content, &evs, false);
            out.push(l, n);
        }
    }
}
