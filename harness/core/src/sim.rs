//! Simulated NOR flash with fault injection. `SimFlash` is a cheap handle (Rc), so the driver can
//! look at the device, clone it and arm faults while a storage instance owns a handle to it.
use embedded_storage_async::nor_flash::{
    ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash,
};
use std::cell::{Ref, RefCell, RefMut};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// power loss: the op fails and everything after it too until `power_on`
    Crash,
    /// the flash driver returns an error, the device goes on working
    Err,
    /// the flash operation never completes: the caller drops the future
    Cancel,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FErr {
    Injected,
    Dead,
    Bad(String),
}
impl NorFlashError for FErr {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    /// 'r' read, 'w' write, 'e' erase
    pub kind: char,
    pub off: u32,
    pub len: u32,
    /// bytes that really took effect
    pub eff: u32,
    /// write: true if a bit would have to go from 0 to 1
    pub raise: bool,
}

#[derive(Clone)]
pub struct Inner {
    pub w: usize,
    pub r: usize,
    pub page: usize,
    /// granularity of interrupted writes
    pub gran: usize,
    pub data: Vec<u8>,
    pub erases: Vec<u32>,
    pub log_on: bool,
    pub log: Vec<Ev>,
    /// range given to the storage (to detect accesses outside)
    pub range: (u32, u32),
    pub bad: Vec<String>,
    /// interruption position counter (see `position`), and where/how to interrupt
    pub pos: u64,
    pub at: Option<(u64, Mode)>,
    pub reads: u64,
    pub read_at: Option<(u64, Mode)>,
    /// (read index, byte selector, xor mask): that read returns wrong data once
    pub glitch: Option<(u64, usize, u8)>,
    pub glitch_hit: Option<(u32, u32)>,
    /// the range as it was when the wrong byte was read
    pub glitch_img: Vec<u8>,
    pub fired: bool,
    pub dead: bool,
    pub ops: u64,
    pub max_ops: u64,
    /// if set, the future yields once (Pending, then continues) before every op
    pub yields: bool,
    /// the same after every successful op
    pub yields_after: bool,
    pub yield_count: u64,
    /// every mutating call: (kind, length, first interruption position)
    pub calls: Vec<(char, usize, u64)>,
}

#[derive(Clone)]
pub struct SimFlash<const W: usize, const R: usize, const P: usize>(pub Rc<RefCell<Inner>>);

impl<const W: usize, const R: usize, const P: usize> SimFlash<W, R, P> {
    pub fn handle(rc: Rc<RefCell<Inner>>) -> Self {
        {
            let i = rc.borrow();
            assert!(i.w == W && i.r == R && i.page == P);
        }
        Self(rc)
    }
    pub fn b(&self) -> RefMut<'_, Inner> {
        self.0.borrow_mut()
    }
    async fn pause(&self, after: bool) {
        let y = {
            let mut i = self.0.borrow_mut();
            let y = if after { i.yields_after } else { i.yields };
            i.yield_count += y as u64;
            y
        };
        if y {
            YieldOnce(false).await;
        }
    }
}

pub type Dev = Rc<RefCell<Inner>>;

impl Inner {
    pub fn new(w: usize, r: usize, page: usize, pages_total: usize, range: (u32, u32)) -> Self {
        Inner {
            w,
            r,
            page,
            gran: if r < w { w } else { 1 },
            data: vec![0xFF; page * pages_total],
            erases: vec![0; pages_total],
            log_on: false,
            log: vec![],
            range,
            bad: vec![],
            pos: 0,
            at: None,
            reads: 0,
            read_at: None,
            glitch: None,
            glitch_hit: None,
            glitch_img: vec![],
            fired: false,
            dead: false,
            ops: 0,
            max_ops: 200_000,
            yields: false,
            yields_after: false,
            yield_count: 0,
            calls: vec![],
        }
    }
    pub fn dev(self) -> Dev {
        Rc::new(RefCell::new(self))
    }
    /// A copy of the device with all faults disarmed and power on.
    pub fn fresh_copy(&self) -> Inner {
        let mut c = self.clone();
        c.reset();
        c.log.clear();
        c.bad.clear();
        c.log_on = false;
        c
    }
    pub fn reset(&mut self) {
        self.pos = 0;
        self.at = None;
        self.reads = 0;
        self.read_at = None;
        self.glitch = None;
        self.glitch_hit = None;
        self.glitch_img.clear();
        self.fired = false;
        self.dead = false;
        self.ops = 0;
        self.yields = false;
        self.yields_after = false;
        self.yield_count = 0;
        self.calls.clear();
    }
    pub fn word(&self) -> usize {
        self.w.max(self.r)
    }

    fn tick(&mut self) -> Result<(), FErr> {
        self.ops += 1;
        if self.ops > self.max_ops {
            panic!("HANG: more than {} flash operations in one call", self.max_ops);
        }
        if self.dead {
            return Err(FErr::Dead);
        }
        Ok(())
    }

    /// Execute `n` unit effects; an operation with n units has n+1 interruption positions.
    /// Returns how many units may take effect and whether the op is interrupted.
    fn plan(&mut self, n: u64) -> (u64, Option<Mode>) {
        let start = self.pos;
        self.pos += n + 1;
        if let Some((p, mode)) = self.at {
            if p >= start && p < start + n + 1 {
                self.at = None;
                self.fired = true;
                if mode == Mode::Crash {
                    self.dead = true;
                }
                return (p - start, Some(mode));
            }
        }
        (n, None)
    }

    fn effect(&mut self, n: u32) {
        if self.log_on {
            if let Some(e) = self.log.last_mut() {
                e.eff = n;
            }
        }
    }

    pub fn erase_marks(&self) -> Vec<usize> {
        let p = self.page;
        let g = self.gran;
        let w = self.word();
        let mut v = vec![0, g, w, w + (p / 2 / w) * w, p - w, p - g, p];
        v.retain(|x| *x <= p);
        v.sort();
        v.dedup();
        v
    }

    fn do_read(&mut self, off: u32, buf: &mut [u8]) -> Result<Option<Mode>, FErr> {
        self.tick()?;
        let idx = self.reads;
        self.reads += 1;
        let len = buf.len();
        if self.log_on {
            self.log.push(Ev { kind: 'r', off, len: len as u32, eff: 0, raise: false });
        }
        if off as usize % self.r != 0 || len % self.r != 0 || len == 0 {
            self.bad.push(format!("misaligned read {off}+{len}"));
            return Err(FErr::Bad("align".into()));
        }
        if off < self.range.0 || off as usize + len > self.range.1 as usize {
            self.bad.push(format!("read outside range {off}+{len}"));
        }
        if off as usize + len > self.data.len() {
            return Err(FErr::Bad("oob".into()));
        }
        if let Some((i, mode)) = self.read_at {
            if i == idx {
                self.read_at = None;
                self.fired = true;
                if mode == Mode::Crash {
                    self.dead = true;
                }
                if mode != Mode::Cancel {
                    return Err(FErr::Injected);
                }
                return Ok(Some(mode));
            }
        }
        buf.copy_from_slice(&self.data[off as usize..off as usize + len]);
        if let Some((i, sel, mask)) = self.glitch {
            if i == idx {
                buf[sel % len] ^= mask;
                self.glitch_hit = Some((off, (sel % len) as u32));
                self.glitch_img = self.data[self.range.0 as usize..self.range.1 as usize].to_vec();
                self.glitch = None;
            }
        }
        Ok(None)
    }

    fn do_write(&mut self, off: u32, bytes: &[u8]) -> Result<Option<Mode>, FErr> {
        self.tick()?;
        let len = bytes.len();
        let o = off as usize;
        let aligned = o % self.w == 0 && len % self.w == 0 && len != 0;
        let inb = o + len <= self.data.len();
        if self.log_on {
            let raise = inb && bytes.iter().zip(&self.data[o..o + len]).any(|(b, d)| *b & !*d != 0);
            self.log.push(Ev { kind: 'w', off, len: len as u32, eff: 0, raise });
        }
        if !aligned {
            self.bad.push(format!("misaligned write {off}+{len}"));
            return Err(FErr::Bad("align".into()));
        }
        if off < self.range.0 || o + len > self.range.1 as usize {
            self.bad.push(format!("write outside range {off}+{len}"));
        }
        if !inb {
            return Err(FErr::Bad("oob".into()));
        }
        let g = self.gran;
        self.calls.push(('w', len, self.pos));
        let (k, intr) = self.plan((len / g) as u64);
        for i in 0..(k as usize) * g {
            self.data[o + i] &= bytes[i];
        }
        self.effect(k as u32 * g as u32);
        match intr {
            None => Ok(None),
            Some(Mode::Cancel) => Ok(Some(Mode::Cancel)),
            Some(_) => Err(FErr::Injected),
        }
    }

    fn do_erase(&mut self, from: u32, to: u32) -> Result<Option<Mode>, FErr> {
        self.tick()?;
        if self.log_on {
            self.log.push(Ev { kind: 'e', off: from, len: to.wrapping_sub(from), eff: 0, raise: false });
        }
        let (f, t) = (from as usize, to as usize);
        if f % self.page != 0 || t % self.page != 0 || t <= f {
            self.bad.push(format!("misaligned erase {from}..{to}"));
            return Err(FErr::Bad("align".into()));
        }
        if from < self.range.0 || to > self.range.1 {
            self.bad.push(format!("erase outside range {from}..{to}"));
        }
        if t > self.data.len() {
            return Err(FErr::Bad("oob".into()));
        }
        let marks = self.erase_marks();
        for pg in f / self.page..t / self.page {
            self.calls.push(('e', self.page, self.pos));
            let (k, intr) = self.plan((marks.len() - 1) as u64);
            let base = pg * self.page;
            for i in 0..marks[k as usize] {
                self.data[base + i] = 0xFF;
            }
            if marks[k as usize] > 0 {
                self.erases[pg] += 1;
            }
            self.effect(((pg - f / self.page) * self.page + marks[k as usize]) as u32);
            match intr {
                None => {}
                Some(Mode::Cancel) => return Ok(Some(Mode::Cancel)),
                Some(_) => return Err(FErr::Injected),
            }
        }
        Ok(None)
    }
}

/// Pending forever (the driver drops the future).
struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}
struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

impl<const W: usize, const R: usize, const P: usize> ErrorType for SimFlash<W, R, P> {
    type Error = FErr;
}
impl<const W: usize, const R: usize, const P: usize> ReadNorFlash for SimFlash<W, R, P> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, bytes: &mut [u8]) -> Result<(), FErr> {
        self.pause(false).await;
        let x = self.0.borrow_mut().do_read(offset, bytes)?;
        if x.is_some() {
            Never.await;
        }
        self.pause(true).await;
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.0.borrow().data.len()
    }
}
impl<const W: usize, const R: usize, const P: usize> NorFlash for SimFlash<W, R, P> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = P;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FErr> {
        self.pause(false).await;
        let x = self.0.borrow_mut().do_erase(from, to)?;
        if x.is_some() {
            Never.await;
        }
        self.pause(true).await;
        Ok(())
    }
    async fn write(&mut self, offset: u32, bytes: &[u8]) -> Result<(), FErr> {
        self.pause(false).await;
        let x = self.0.borrow_mut().do_write(offset, bytes)?;
        if x.is_some() {
            Never.await;
        }
        self.pause(true).await;
        Ok(())
    }
}
impl<const W: usize, const R: usize, const P: usize> MultiwriteNorFlash for SimFlash<W, R, P> {}

pub fn as_ref_borrow(d: &Dev) -> Ref<'_, Inner> {
    d.borrow()
}

fn noop_raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        noop_raw()
    }
    fn noop(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    RawWaker::new(std::ptr::null(), &V)
}
pub fn noop_waker() -> Waker {
    unsafe { Waker::from_raw(noop_raw()) }
}

/// Polls once. `None` means the future was pending and has been dropped (cancelled).
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
