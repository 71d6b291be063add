use crate::api::*;
use crate::obj::*;
use crate::sim::*;
use crate::util::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    /// probability that the object is a SharedRamRing
    pub shared: f64,
    pub nops: usize,
    /// enqueue err, enqueue discard, drain1, drain, wdrain, wait, pop, peek, rewrap, crash
    pub w: [u32; 10],
    pub fault: f64,
    /// interrupts: at critical section boundaries, at suspension points of flash operations
    pub irq: f64,
    pub irq_flash: f64,
    /// dropping a suspended call
    pub cancel: f64,
    pub small_buf: f64,
    pub over: f64,
}
const BASE: Prof = Prof {
    name: "b01",
    shared: 0.0,
    nops: 120,
    w: [40, 15, 12, 4, 0, 0, 20, 6, 1, 1],
    fault: 0.0,
    irq: 0.0,
    irq_flash: 0.0,
    cancel: 0.0,
    small_buf: 0.03,
    over: 0.15,
};
pub fn prof(n: &str) -> Prof {
    match n {
        "b01" => BASE,
        "b02" => Prof { name: "b02", shared: 0.4, w: [40, 8, 16, 6, 2, 0, 12, 4, 0, 1], fault: 0.3, cancel: 0.02, small_buf: 0.1, over: 0.25, nops: 100, ..BASE },
        "b03" => Prof { name: "b03", shared: 1.0, w: [25, 12, 16, 10, 3, 1, 14, 5, 0, 0], irq: 0.10, irq_flash: 0.12, fault: 0.08, cancel: 0.005, over: 0.25, nops: 60, ..BASE },
        "b04" => Prof { name: "b04", shared: 1.0, w: [25, 8, 5, 3, 40, 25, 5, 1, 0, 0], irq: 0.12, irq_flash: 0.02, fault: 0.04, cancel: 0.004, over: 0.25, nops: 80, ..BASE },
        _ => panic!("HARNESS: profile {n}"),
    }
}

struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::Relaxed);
    }
}

struct World {
    log: Vec<String>,
    dict: Dict,
    dev: Dev,
    geo: usize,
    g: Geo,
    rng: Rng,
    ram: usize,
    /// the reported capacity is right
    cap_ok: bool,
    ctr: u64,
    ones: u8,
    zero: bool,
    injected: u64,
    suspended: u64,
    cell: Arc<Count>,
    /// flash suspensions up to the last logged step
    y_log: u64,
}
type W = Rc<RefCell<World>>;

impl World {
    fn data(&mut self) -> Vec<u8> {
        let cap = self.ram as i64 - 2;
        let mx = self.g.max_item() as i64;
        let lim = cap.min(mx);
        let mut len = match self.rng.below(14) {
            0 => lim,
            1 => lim - 1,
            2 => self.rng.range(0, lim as usize) as i64,
            3 => cap - self.rng.below(3) as i64 + 1,
            4 | 5 => cap / 2,
            6 | 7 => cap / 3,
            8 => 1,
            9 => 0,
            10 => self.rng.range(0, (lim as usize).min(40)) as i64,
            _ => self.rng.range(1, (lim as usize).min(9)) as i64,
        }
        .max(0);
        if len > mx && !self.rng.p(0.05) {
            len = mx;
        }
        if len == 0 && self.zero {
            len = 2;
        }
        if len == 1 && self.ones == 255 {
            len = 2;
        }
        if len == 0 {
            self.zero = true;
            return vec![];
        }
        if len == 1 {
            self.ones += 1;
            return vec![self.ones];
        }
        self.ctr += 1;
        let mut v = gen_bytes(&mut self.rng, len as usize);
        v[0] = self.ctr as u8;
        v[1] = (self.ctr >> 8) as u8 ^ 0x80;
        v
    }
    fn snap(&mut self, o: &RingObs) -> String {
        let c = match contents(self.geo, &self.dev.borrow(), self.g.range) {
            Some(l) => l.iter().map(|b| self.dict.id(b)).collect(),
            None => vec![-1],
        };
        format!("\"p\":{},\"b\":{},\"h\":{},\"c\":{}", o.count.min(1_000_000), if self.cap_ok { o.free.min(1_000_000) } else { 1_000_000 }, o.oldest, jarr(&c))
    }
    fn pos(&mut self) -> u64 {
        self.rng.range(0, 30) as u64
    }
}

/// enqueue as one indivisible event
fn enq(w: &W, d: Vec<u8>, disc: bool, f: &mut dyn FnMut(&[u8], bool) -> bool, obs: &mut dyn FnMut() -> RingObs, wk: i64) {
    let r = guard(|| if f(&d, disc) { Res::Ok } else { Res::Full }, Res::Panic);
    let o = obs();
    let mut w = w.borrow_mut();
    let v = w.dict.id(&d);
    let s = w.snap(&o);
    let r = match r {
        Res::Ok => "ok",
        Res::Full => "err",
        _ => "panic",
    };
    w.log.push(format!("{{\"o\":\"enq\",\"v\":{v},\"pol\":\"{}\",\"r\":\"{r}\",\"wk\":{wk},{s}}}", if disc { "disc" } else { "err" }));
}

fn step_ev(w: &W, c: Call, over: bool, u: usize, r: &str, x: i64, f: &str, mid: bool, o: &RingObs) {
    let mut w = w.borrow_mut();
    let s = w.snap(o);
    let wk = w.cell.0.load(Ordering::Relaxed);
    let yc = w.dev.borrow().yield_count;
    let y = if mid { 0 } else { yc - w.y_log };
    if !mid {
        w.y_log = yc;
    }
    w.log.push(format!(
        "{{\"o\":\"step\",\"a\":\"{}\",\"over\":{over},\"u\":{u},\"r\":\"{r}\",\"x\":{x},\"f\":\"{f}\",\"y\":{y},\"wk\":{wk},\"mid\":{mid},{s}}}",
        c.name()
    ));
}

pub fn run(p: &Prof, seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed ^ 0xB0F);
    let shared = rng.p(p.shared);
    let ram = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 2, 3, 4]);
    let geo = if ram == 5 { *rng.pick(&[8usize, 8, 0]) } else { *rng.pick(&[0usize, 1, 3]) };
    let (np, before) = (rng.range(1, 4), rng.below(2));
    let g = Geo::new(geo, np, before, 1);
    let dev = g.blank().dev();
    let cache = rng.below(2);
    let range = g.range;
    let over_trace = rng.p(p.over);
    let mut obj = make(shared, geo, ram, cache, &dev, range);
    let (word, max_item) = (g.word, g.max_item());
    let cell = Arc::new(Count(AtomicU64::new(0)));
    let w: W = Rc::new(RefCell::new(World {
        log: vec![], dict: Dict::default(), dev: dev.clone(), geo, g, rng, ram: RAM[ram], cap_ok: obj.capacity() == RAM[ram], ctr: 0, ones: 0, zero: false, injected: 0, suspended: 0, cell: cell.clone(), y_log: 0,
    }));
    let pre = w.borrow_mut().rng.below(4);
    for _ in 0..pre {
        let d = w.borrow_mut().data();
        push_direct(geo, &dev, range, &d[..d.len().min(max_item)]);
    }
    let init = {
        let mut ww = w.borrow_mut();
        let c = contents(geo, &dev.borrow(), range).unwrap();
        c.iter().map(|b| ww.dict.id(b)).collect::<Vec<_>>()
    };
    let waker: Waker = cell.clone().into();
    let mut panicked = false;
    for _ in 0..p.nops {
        let k = w.borrow_mut().rng.weighted(&p.w);
        let k = if !shared && (k == 4 || k == 5) { 3 } else { k };
        match k {
            0 | 1 => {
                let d = w.borrow_mut().data();
                let op = RefCell::new(&mut obj);
                enq(&w, d, k == 1, &mut |d, x| op.borrow_mut().enqueue(d, x), &mut || op.borrow().obs(), 0);
            }
            8 | 9 => {
                // the ring's content goes: by taking the storage out, or by a power failure
                if k == 8 && !shared {
                    obj.rewrap();
                } else {
                    obj = make(shared, geo, ram, cache, &dev, range);
                }
                let o = obj.obs();
                let mut ww = w.borrow_mut();
                let s = ww.snap(&o);
                ww.log.push(format!("{{\"o\":\"lost\",{s}}}"));
            }
            _ => {
                let c = [Call::Drain1, Call::Drain, Call::WDrain, Call::Wait, Call::Pop, Call::Peek][k - 2];
                let (over, u, fault) = {
                    let mut ww = w.borrow_mut();
                    let over = over_trace && ww.rng.p(0.8);
                    let u = if ww.rng.p(p.small_buf) { ww.rng.range(0, max_item + word) } else { max_item + 2 * word + 700 };
                    let fault = if ww.rng.p(p.fault) { *ww.rng.pick(&["err", "cancel", "crash", "rerr", "rcancel"]) } else { "none" };
                    (over, u, fault)
                };
                let lost = call(p, &w, &mut obj, c, over, u, fault, &waker, &cell, &mut panicked, &dev);
                out.execs += 1;
                if panicked {
                    break;
                }
                if lost {
                    obj = make(shared, geo, ram, cache, &dev, range);
                    let o = obj.obs();
                    let mut ww = w.borrow_mut();
                    let s = ww.snap(&o);
                    ww.log.push(format!("{{\"o\":\"lost\",{s}}}"));
                }
            }
        }
    }
    let ww = w.borrow();
    out.fault_points += ww.injected;
    out.crash_points += ww.suspended;
    let n = ww.log.len() as u64;
    let bad = dev.borrow().bad.clone();
    let id = format!("{}/{seed}", p.name);
    let line = format!(
        "{{\"id\":{},\"_\":0,\"shared\":{shared},\"cap\":{},\"word\":{word},\"max\":{max_item},\"geo\":{geo},\"np\":{np},\"cache\":{cache},\"vlen\":{},\"init\":{},\"bad\":{},\"ev\":[{}]}}",
        jstr(&id), RAM[ram], jarr(&ww.dict.lens), jarr(&init), bad.len(), ww.log.join(",")
    );
    if std::env::var("SSHB_DUMP").is_ok() {
        eprintln!("{line}");
    }
    out.push(line, n);
}

/// One asynchronous call, suspended, interrupted and cancelled as the profile says. Returns true
/// if the power failed.
#[allow(clippy::too_many_arguments)]
fn call(p: &Prof, w: &W, obj: &mut Box<dyn Obj>, c: Call, over: bool, u: usize, fault: &'static str, waker: &Waker, cell: &Arc<Count>, panicked: &mut bool, dev: &Dev) -> bool {
    let ring = obj.ring();
    let susp = ring.is_some() || p.cancel > 0.0;
    {
        let mut d = dev.borrow_mut();
        d.reset();
        w.borrow_mut().y_log = 0;
        let pos = w.borrow_mut().pos();
        match fault {
            "err" => d.at = Some((pos, Mode::Err)),
            "crash" => d.at = Some((pos, Mode::Crash)),
            "cancel" => d.at = Some((pos, Mode::Cancel)),
            "rerr" => d.read_at = Some((pos, Mode::Err)),
            "rcancel" => d.read_at = Some((pos, Mode::Cancel)),
            _ => {}
        }
        d.yields = susp;
        d.yields_after = susp;
    }
    let mut buf = vec![0x77u8; u];
    let mut lost = false;
    // (result, fault name) once the call is over
    let mut fin: Option<(Res, &'static str)>;
    {
        let mut fut = obj.call(c, &mut buf, over);
        let fp: *mut Fut<'_> = &mut fut;
        let poll = |fp: *mut Fut<'_>| -> (Res, u64) {
            let y0 = dev.borrow().yield_count;
            cell.0.store(0, Ordering::Relaxed);
            let r = guard(
                || match unsafe { &mut *fp }.as_mut().poll(&mut Context::from_waker(waker)) {
                    Poll::Ready(r) => r,
                    Poll::Pending => Res::Cancelled,
                },
                Res::Panic,
            );
            (r, dev.borrow().yield_count - y0)
        };
        let mut polls = 0;
        loop {
            polls += 1;
            let hook: Option<Box<dyn FnMut()>> = ring.clone().filter(|_| p.irq > 0.0).map(|ring| {
                let w = w.clone();
                let irq = p.irq;
                Box::new(move || {
                    if !w.borrow_mut().rng.p(irq) {
                        return;
                    }
                    quiet(|| {
                        step_ev(&w, c, over, u, "pending", 0, "none", true, &ring.obs());
                        let (d, disc) = {
                            let mut ww = w.borrow_mut();
                            ww.injected += 1;
                            (ww.data(), ww.rng.p(0.5))
                        };
                        enq(&w, d, disc, &mut |d, x| ring.enqueue(d, x), &mut || ring.obs(), -1);
                    });
                }) as Box<dyn FnMut()>
            });
            let (r, y) = match hook {
                Some(h) => with_hook(h, || poll(fp)),
                None => poll(fp),
            };
            let fired = dev.borrow().fired;
            if r != Res::Cancelled {
                fin = Some((r, if fired { fault } else { "none" }));
                break;
            }
            // suspended
            if fired && matches!(fault, "cancel" | "rcancel") {
                fin = Some((Res::Cancelled, fault));
                break;
            }
            w.borrow_mut().suspended += 1;
            let parked = y == 0;
            if parked && ring.is_none() {
                fin = Some((Res::Panic("never wakes up".into()), "none"));
                break;
            }
            if polls > 20_000 {
                fin = Some((Res::Panic("does not end".into()), "none"));
                break;
            }
            if let Some(ring) = &ring {
                let (inject, note) = {
                    let mut ww = w.borrow_mut();
                    if parked { (ww.rng.p(0.75), true) } else { (ww.rng.p(p.irq_flash), ww.rng.p(0.03)) }
                };
                if inject || note {
                    step_ev(w, c, over, u, "pending", 0, "none", false, &ring.obs());
                }
                if inject {
                    let d = w.borrow_mut().data();
                    let mut disc = w.borrow_mut().rng.p(0.4);
                    w.borrow_mut().injected += 1;
                    let fits = ring.obs().free >= d.len() + 2;
                    if parked && fits && w.borrow_mut().rng.p(0.6) {
                        // the task runs (on another core) in the middle of the enqueue
                        disc = false;
                        let at = w.borrow_mut().rng.below(6);
                        let mut n = 0usize;
                        let v = w.borrow_mut().dict.id(&d);
                        let res: Rc<RefCell<Option<(Res, &'static str)>>> = Rc::default();
                        let hit = Rc::new(Cell::new(false));
                        let r = {
                            let (res, hit, w, ring2, poll, dev) = (res.clone(), hit.clone(), w.clone(), ring.clone(), &poll, dev.clone());
                            let h: Box<dyn FnMut() + '_> = Box::new(move || {
                                n += 1;
                                if n != at + 1 {
                                    return;
                                }
                                hit.set(true);
                                quiet(|| {
                                    let o = ring2.obs();
                                    {
                                        let mut ww = w.borrow_mut();
                                        let s = ww.snap(&o);
                                        ww.log.push(format!("{{\"o\":\"enqmid\",\"v\":{v},{s}}}"));
                                    }
                                    let (r, _) = poll(fp);
                                    let fired = dev.borrow().fired;
                                    if r == Res::Cancelled && !fired {
                                        step_ev(&w, c, over, u, "pending", 0, "none", false, &ring2.obs());
                                    } else {
                                        // the call ended inside the enqueue
                                        let fin = Some((r, if fired { fault } else { "none" }));
                                        finish(&w, c, over, u, &fin, &ring2.obs());
                                        *res.borrow_mut() = fin;
                                    }
                                });
                            });
                            let h: Box<dyn FnMut()> = unsafe { std::mem::transmute(h) };
                            with_hook(h, || guard(|| if ring.enqueue(&d, false) { Res::Ok } else { Res::Full }, Res::Panic))
                        };
                        let wk = cell.0.load(Ordering::Relaxed);
                        let rs = match r {
                            Res::Ok => "ok",
                            Res::Full => "err",
                            _ => "panic",
                        };
                        fin = res.borrow_mut().take();
                        let o = ring.obs();
                        {
                            let mut ww = w.borrow_mut();
                            let s = ww.snap(&o);
                            let k = if hit.get() { "enqend" } else { "enq" };
                            ww.log.push(format!("{{\"o\":\"{k}\",\"v\":{v},\"pol\":\"err\",\"r\":\"{rs}\",\"wk\":{wk},{s}}}"));
                        }
                        if let Some((r, f)) = &fin {
                            *panicked = matches!(r, Res::Panic(_));
                            lost = *f == "crash";
                            drop(fut);
                            dev.borrow_mut().reset();
                            return lost;
                        }
                        continue;
                    }
                    let ring2 = ring.clone();
                    // (the wakes have to be counted after the enqueue)
                    let d2 = d.clone();
                    let r = guard(|| if ring2.enqueue(&d2, disc) { Res::Ok } else { Res::Full }, Res::Panic);
                    let wk = cell.0.load(Ordering::Relaxed);
                    let o = ring.obs();
                    let mut ww = w.borrow_mut();
                    let v = ww.dict.id(&d);
                    let s = ww.snap(&o);
                    let rs = match r {
                        Res::Ok => "ok",
                        Res::Full => "err",
                        _ => "panic",
                    };
                    ww.log.push(format!("{{\"o\":\"enq\",\"v\":{v},\"pol\":\"{}\",\"r\":\"{rs}\",\"wk\":{wk},{s}}}", if disc { "disc" } else { "err" }));
                }
            }
            let (x, crash) = {
                let mut ww = w.borrow_mut();
                (ww.rng.p(if parked { 0.12 } else { p.cancel }), ww.rng.p(0.25))
            };
            if x {
                fin = Some((Res::Cancelled, if crash && !parked { "crash" } else { "cancel" }));
                break;
            }
        }
        drop(fut);
    }
    let o = obj.obs();
    finish(w, c, over, u, &fin, &o);
    dev.borrow_mut().reset();
    let (r, f) = fin.unwrap();
    *panicked = matches!(r, Res::Panic(_));
    lost |= f == "crash";
    lost
}

fn finish(w: &W, c: Call, over: bool, u: usize, fin: &Option<(Res, &'static str)>, o: &RingObs) {
    let (r, f) = fin.as_ref().unwrap();
    let x = match r {
        Res::Val(Some(b)) => w.borrow_mut().dict.id(b),
        Res::Num(Some(n)) => *n as i64,
        Res::BufSmall(n) => *n as i64,
        _ => 0,
    };
    step_ev(w, c, over, u, r.tag(), x, f, false, o);
}
