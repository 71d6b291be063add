//! Type-erased BufferedQueue / SharedRamRing over flash geometries and RAM sizes, and the
//! critical-section implementation that lets the driver run "interrupts" at every boundary.
use crate::api::*;
use crate::sim::*;
use sequential_storage::cache::key_pointers::ArrayKeyPointers;
use sequential_storage::cache::page_pointers::ArrayPagePointers;
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::queue::buffered::{BufferedQueue, OverflowPolicy, SharedRamRing};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

// ---- critical section with interrupts at its boundaries -------------------------------------
thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
struct Cs;
critical_section::set_impl!(Cs);
unsafe impl critical_section::Impl for Cs {
    unsafe fn acquire() -> critical_section::RawRestoreState {
        if DEPTH.get() == 0 {
            boundary();
        }
        DEPTH.set(DEPTH.get() + 1);
    }
    unsafe fn release(_: critical_section::RawRestoreState) {
        DEPTH.set(DEPTH.get() - 1);
        if DEPTH.get() == 0 {
            boundary();
        }
    }
}
fn boundary() {
    if QUIET.get() > 0 {
        return;
    }
    let Some(mut h) = HOOK.with(|x| x.borrow_mut().take()) else { return };
    h();
    HOOK.with(|x| {
        let mut x = x.borrow_mut();
        if x.is_none() {
            *x = Some(h)
        }
    });
}
/// Runs `f` with interrupts calling `hook`.
pub fn with_hook<T>(hook: Box<dyn FnMut()>, f: impl FnOnce() -> T) -> T {
    HOOK.with(|x| *x.borrow_mut() = Some(hook));
    let r = f();
    HOOK.with(|x| *x.borrow_mut() = None);
    r
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    QUIET.set(QUIET.get() + 1);
    let r = f();
    QUIET.set(QUIET.get() - 1);
    r
}

// ---- objects ---------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Drain1,
    Drain,
    WDrain,
    Wait,
    Pop,
    Peek,
}
impl Call {
    pub fn name(self) -> &'static str {
        match self {
            Call::Drain1 => "drain1",
            Call::Drain => "drain",
            Call::WDrain => "wdrain",
            Call::Wait => "wait",
            Call::Pop => "pop",
            Call::Peek => "peek",
        }
    }
}
pub type Fut<'a> = Pin<Box<dyn Future<Output = Res> + 'a>>;

pub struct RingObs {
    pub free: usize,
    pub count: usize,
    /// -1 empty, -2 not available
    pub oldest: i64,
}
pub trait RingApi {
    fn enqueue(&self, d: &[u8], disc: bool) -> bool;
    fn obs(&self) -> RingObs;
    fn capacity(&self) -> usize;
}
pub trait Obj {
    /// None for the exclusively owned BufferedQueue
    fn ring(&self) -> Option<Rc<dyn RingApi>>;
    fn enqueue(&mut self, d: &[u8], disc: bool) -> bool;
    fn obs(&self) -> RingObs;
    fn capacity(&self) -> usize;
    fn call<'a>(&'a mut self, c: Call, buf: &'a mut [u8], over: bool) -> Fut<'a>;
    /// take the storage out and build a new object on it (the ring's content is discarded)
    fn rewrap(&mut self);
}
fn pol(disc: bool) -> OverflowPolicy {
    if disc { OverflowPolicy::DiscardOldest } else { OverflowPolicy::Err }
}
fn val(r: Result<Option<&mut [u8]>, sequential_storage::Error<FErr>>) -> Res {
    match r {
        Ok(x) => Res::Val(x.map(|v| v.to_vec())),
        Err(e) => err(e),
    }
}
fn unit(r: Result<(), sequential_storage::Error<FErr>>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => err(e),
    }
}
fn num(r: Result<bool, sequential_storage::Error<FErr>>) -> Res {
    match r {
        Ok(b) => Res::Num(Some(b as u64)),
        Err(e) => err(e),
    }
}

struct Bq<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>, const N: usize>(
    Option<BufferedQueue<SimFlash<W, R, P>, C, N>>,
);
impl<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>, const N: usize> Obj for Bq<W, R, P, C, N> {
    fn ring(&self) -> Option<Rc<dyn RingApi>> {
        None
    }
    fn enqueue(&mut self, d: &[u8], disc: bool) -> bool {
        self.0.as_mut().unwrap().enqueue(d, pol(disc)).is_ok()
    }
    fn obs(&self) -> RingObs {
        let q = self.0.as_ref().unwrap();
        let free = q.ram_free_bytes();
        // (what makes no sense is recorded as a number that is never right)
        let free = if free.checked_add(q.ram_bytes_used()) == Some(N) { free } else { 1_000_000 };
        RingObs { free, count: q.ram_pending_count(), oldest: -2 }
    }
    fn capacity(&self) -> usize {
        BufferedQueue::<SimFlash<W, R, P>, C, N>::ram_capacity_bytes()
    }
    fn call<'a>(&'a mut self, c: Call, buf: &'a mut [u8], over: bool) -> Fut<'a> {
        let q = self.0.as_mut().unwrap();
        Box::pin(async move {
            match c {
                Call::Drain1 => num(q.drain_one(buf, over).await),
                Call::Drain | Call::WDrain | Call::Wait => unit(q.drain_all(buf, over).await),
                Call::Pop => val(q.pop(buf).await),
                Call::Peek => val(q.peek(buf).await),
            }
        })
    }
    fn rewrap(&mut self) {
        let s = self.0.take().unwrap().into_storage();
        self.0 = Some(BufferedQueue::new(s));
    }
}

struct RingBox<const N: usize>(SharedRamRing<N>);
impl<const N: usize> RingApi for RingBox<N> {
    fn enqueue(&self, d: &[u8], disc: bool) -> bool {
        self.0.enqueue(d, pol(disc)).is_ok()
    }
    fn obs(&self) -> RingObs {
        quiet(|| RingObs {
            free: self.0.ram_free_bytes(),
            count: self.0.ram_pending_count(),
            oldest: self.0.oldest_ram_item_len().map(|x| x as i64).unwrap_or(-1),
        })
    }
    fn capacity(&self) -> usize {
        SharedRamRing::<N>::ram_capacity_bytes()
    }
}
struct Sh<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>, const N: usize> {
    ring: Rc<RingBox<N>>,
    s: QueueStorage<SimFlash<W, R, P>, C>,
}
impl<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>, const N: usize> Obj for Sh<W, R, P, C, N> {
    fn ring(&self) -> Option<Rc<dyn RingApi>> {
        Some(self.ring.clone())
    }
    fn enqueue(&mut self, d: &[u8], disc: bool) -> bool {
        self.ring.enqueue(d, disc)
    }
    fn obs(&self) -> RingObs {
        self.ring.obs()
    }
    fn capacity(&self) -> usize {
        self.ring.capacity()
    }
    fn call<'a>(&'a mut self, c: Call, buf: &'a mut [u8], over: bool) -> Fut<'a> {
        let (r, s) = (&self.ring.0, &mut self.s);
        Box::pin(async move {
            match c {
                Call::Drain1 => num(r.drain_one(s, buf, over).await),
                Call::Drain => unit(r.drain_all(s, buf, over).await),
                Call::WDrain => unit(r.wait_and_drain_all(s, buf, over).await),
                Call::Wait => {
                    r.wait().await;
                    Res::Ok
                }
                Call::Pop => val(r.pop(s, buf, over).await),
                Call::Peek => val(r.peek(s, buf, over).await),
            }
        })
    }
    fn rewrap(&mut self) {
        self.ring = Rc::new(RingBox(SharedRamRing::new()));
    }
}

pub const RAM: [usize; 6] = [5, 8, 16, 33, 64, 700];
fn mkn<const W: usize, const R: usize, const P: usize, C: CacheImpl<()> + 'static, const N: usize>(
    shared: bool, s: QueueStorage<SimFlash<W, R, P>, C>,
) -> Box<dyn Obj> {
    if shared {
        Box::new(Sh::<W, R, P, C, N> { ring: Rc::new(RingBox(SharedRamRing::new())), s })
    } else {
        Box::new(Bq::<W, R, P, C, N>(Some(BufferedQueue::new(s))))
    }
}
fn mkc<const W: usize, const R: usize, const P: usize, C: CacheImpl<()> + 'static>(
    shared: bool, ram: usize, dev: &Dev, range: (u32, u32), c: C,
) -> Box<dyn Obj> {
    let s = QueueStorage::new(SimFlash::<W, R, P>::handle(dev.clone()), QueueConfig::new(range.0..range.1), c);
    match ram {
        0 => mkn::<W, R, P, C, 5>(shared, s),
        1 => mkn::<W, R, P, C, 8>(shared, s),
        2 => mkn::<W, R, P, C, 16>(shared, s),
        3 => mkn::<W, R, P, C, 33>(shared, s),
        4 => mkn::<W, R, P, C, 64>(shared, s),
        _ => mkn::<W, R, P, C, 700>(shared, s),
    }
}
fn mkg<const W: usize, const R: usize, const P: usize>(shared: bool, ram: usize, cache: usize, dev: &Dev, range: (u32, u32), np: usize) -> Box<dyn Obj> {
    match cache {
        0 => mkc::<W, R, P, _>(shared, ram, dev, range, Cache::<_, _, _, ()>::new_uncached()),
        1 => mkc::<W, R, P, _>(shared, ram, dev, range, Cache::<_, _, _, ()>::new(CalculatedPageStates::new(np), ArrayPagePointers::<NPMAX>::new(), Uncached)),
        _ => panic!("HARNESS: cache {cache}"),
    }
}
/// geometry indexes (into GEO) used here
pub const GEOS: [usize; 4] = [0, 1, 3, 8];
pub fn make(shared: bool, geo: usize, ram: usize, cache: usize, dev: &Dev, range: (u32, u32)) -> Box<dyn Obj> {
    let np = (range.1 - range.0) as usize / dev.borrow().page;
    match geo {
        0 => mkg::<4, 4, 64>(shared, ram, cache, dev, range, np),
        1 => mkg::<1, 1, 40>(shared, ram, cache, dev, range, np),
        3 => mkg::<8, 1, 112>(shared, ram, cache, dev, range, np),
        8 => mkg::<4, 4, 1024>(shared, ram, cache, dev, range, np),
        _ => panic!("HARNESS: geometry {geo}"),
    }
}
/// Contents of the flash queue as a fresh, uncached instance sees them.
pub fn contents(geo: usize, dev: &Inner, range: (u32, u32)) -> Option<Vec<Vec<u8>>> {
    let d = dev.fresh_copy().dev();
    let mut q: Box<dyn QueueApi> = match geo {
        0 => mkq::<4, 4, 64, _>(&d, range, Cache::<_, _, _, ()>::new_uncached()),
        1 => mkq::<1, 1, 40, _>(&d, range, Cache::<_, _, _, ()>::new_uncached()),
        3 => mkq::<8, 1, 112, _>(&d, range, Cache::<_, _, _, ()>::new_uncached()),
        _ => mkq::<4, 4, 1024, _>(&d, range, Cache::<_, _, _, ()>::new_uncached()),
    };
    let (r, l) = q.iter(2048, usize::MAX, &mut |_| false);
    if r.ok() { Some(l.into_iter().map(|x| x.0).collect()) } else { None }
}
pub fn push_direct(geo: usize, dev: &Dev, range: (u32, u32), d: &[u8]) -> Res {
    let mut q: Box<dyn QueueApi> = match geo {
        0 => mkq::<4, 4, 64, _>(dev, range, Cache::<_, _, _, ()>::new_uncached()),
        1 => mkq::<1, 1, 40, _>(dev, range, Cache::<_, _, _, ()>::new_uncached()),
        3 => mkq::<8, 1, 112, _>(dev, range, Cache::<_, _, _, ()>::new_uncached()),
        _ => mkq::<4, 4, 1024, _>(dev, range, Cache::<_, _, _, ()>::new_uncached()),
    };
    q.push(d, false)
}
