//! Type-erased access to map and queue instances over all flash geometries and caches.
use crate::sim::*;
use sequential_storage::Error;
use sequential_storage::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use sequential_storage::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates, HeapPageStates};
use sequential_storage::cache::{Cache, CacheImpl, Uncached};
use sequential_storage::map::{Key, MapConfig, MapStorage, SerializationError, Value};
use sequential_storage::queue::{QueueConfig, QueueStorage};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    Val(Option<Vec<u8>>),
    Num(Option<u64>),
    Full,
    TooBig,
    BufSmall(usize),
    BufBig,
    Ser,
    Corrupt,
    Logic,
    Storage,
    Cancelled,
    Panic(String),
}
impl Res {
    pub fn tag(&self) -> &'static str {
        match self {
            Res::Ok | Res::Val(_) | Res::Num(_) => "ok",
            Res::Full => "full",
            Res::TooBig => "toobig",
            Res::BufSmall(_) => "bufsmall",
            Res::BufBig => "bufbig",
            Res::Ser => "ser",
            Res::Corrupt => "corrupt",
            Res::Logic => "logic",
            Res::Storage => "storage",
            Res::Cancelled => "cancel",
            Res::Panic(_) => "panic",
        }
    }
    pub fn ok(&self) -> bool {
        self.tag() == "ok"
    }
}

pub fn err(e: Error<FErr>) -> Res {
    match e {
        Error::Storage { .. } => Res::Storage,
        Error::FullStorage => Res::Full,
        Error::Corrupted { .. } => Res::Corrupt,
        Error::LogicBug { .. } => Res::Logic,
        Error::BufferTooBig => Res::BufBig,
        Error::BufferTooSmall(n) => Res::BufSmall(n),
        Error::SerializationError(_) => Res::Ser,
        Error::ItemTooBig => Res::TooBig,
        _ => Res::Panic("unknown error variant".into()),
    }
}

pub fn guard<T>(f: impl FnOnce() -> T, on_panic: impl FnOnce(String) -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(p) => {
            let s = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            on_panic(s)
        }
    }
}

/// Variable-length key: id followed by id % 3 filler bytes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TKey(pub u8);
pub fn key_len(id: u8) -> usize {
    1 + (id % 3) as usize
}
impl Key for TKey {
    fn serialize_into(&self, b: &mut [u8]) -> Result<usize, SerializationError> {
        let n = key_len(self.0);
        let b = b.get_mut(..n).ok_or(SerializationError::BufferTooSmall)?;
        b[0] = self.0;
        for i in 1..n {
            b[i] = 0xA0 + i as u8;
        }
        Ok(n)
    }
    fn deserialize_from(b: &[u8]) -> Result<(Self, usize), SerializationError> {
        let id = *b.first().ok_or(SerializationError::BufferTooSmall)?;
        let n = key_len(id);
        if b.len() < n {
            return Err(SerializationError::BufferTooSmall);
        }
        for i in 1..n {
            if b[i] != 0xA0 + i as u8 {
                return Err(SerializationError::InvalidFormat);
            }
        }
        Ok((TKey(id), n))
    }
}

/// Raw bytes value; `fail` makes serialization fail.
pub struct TVal {
    pub b: Vec<u8>,
    pub fail: bool,
}
impl<'a> Value<'a> for TVal {
    fn serialize_into(&self, buf: &mut [u8]) -> Result<usize, SerializationError> {
        if self.fail {
            return Err(SerializationError::Custom(7));
        }
        buf.get_mut(..self.b.len()).ok_or(SerializationError::BufferTooSmall)?.copy_from_slice(&self.b);
        Ok(self.b.len())
    }
    fn deserialize_from(b: &'a [u8]) -> Result<(Self, usize), SerializationError> {
        Ok((TVal { b: b.to_vec(), fail: false }, b.len()))
    }
}
/// Value whose deserialization always fails.
pub struct BadVal;
impl<'a> Value<'a> for BadVal {
    fn serialize_into(&self, _: &mut [u8]) -> Result<usize, SerializationError> {
        Err(SerializationError::InvalidData)
    }
    fn deserialize_from(_: &'a [u8]) -> Result<(Self, usize), SerializationError> {
        Err(SerializationError::InvalidFormat)
    }
}

thread_local! {
    /// How often an iteration goes on after a call of it was interrupted.
    pub static RESUME: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum StoreKind {
    Dyn,
    Generic,
    FailSer,
}

pub trait MapApi {
    fn store(&mut self, buf: usize, k: u8, v: &[u8], kind: StoreKind) -> Res;
    fn fetch(&mut self, buf: usize, k: u8) -> Res;
    fn fetch_bad(&mut self, buf: usize, k: u8) -> Res;
    fn remove(&mut self, buf: usize, k: u8) -> Res;
    fn remove_all(&mut self, buf: usize) -> Res;
    fn erase_all(&mut self) -> Res;
    /// Iterates to the end (or the first error); yields what was seen.
    fn iter(&mut self, buf: usize) -> (Res, Vec<(u8, Vec<u8>)>);
    /// destroy + new with the same cache
    fn reuse(&mut self);
}

pub trait QueueApi {
    fn push(&mut self, d: &[u8], over: bool) -> Res;
    fn pop(&mut self, buf: usize) -> Res;
    fn peek(&mut self, buf: usize) -> Res;
    /// Iterates; `dec(i, data)` decides to pop item i; stops after `limit` items or at first error.
    /// Returns result, and per item (data, popped: 0 no, 1 ok, 2 failed)
    fn iter(&mut self, buf: usize, limit: usize, dec: &mut dyn FnMut(usize) -> bool) -> (Res, Vec<(Vec<u8>, u8)>);
    fn max_fit(&mut self) -> Res;
    fn space_left(&mut self) -> Res;
    fn erase_all(&mut self) -> Res;
    fn reuse(&mut self);
}

struct M<const W: usize, const R: usize, const P: usize, C: CacheImpl<TKey>> {
    s: Option<MapStorage<TKey, SimFlash<W, R, P>, C>>,
    range: (u32, u32),
}

fn fin<T>(r: Option<Result<T, Error<FErr>>>, f: impl FnOnce(T) -> Res) -> Res {
    match r {
        None => Res::Cancelled,
        Some(Ok(x)) => f(x),
        Some(Err(e)) => err(e),
    }
}

impl<const W: usize, const R: usize, const P: usize, C: CacheImpl<TKey>> MapApi for M<W, R, P, C> {
    fn store(&mut self, buf: usize, k: u8, v: &[u8], kind: StoreKind) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                let val = TVal { b: v.to_vec(), fail: kind == StoreKind::FailSer };
                match kind {
                    StoreKind::Generic => fin(run(s.store_item_generic(&mut b, &TKey(k), &val)), |_| Res::Ok),
                    _ => fin(run(s.store_item(&mut b, &TKey(k), &val)), |_| Res::Ok),
                }
            },
            Res::Panic,
        )
    }
    fn fetch(&mut self, buf: usize, k: u8) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.fetch_item::<TVal>(&mut b, &TKey(k))), |x| Res::Val(x.map(|v| v.b)))
            },
            Res::Panic,
        )
    }
    fn fetch_bad(&mut self, buf: usize, k: u8) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.fetch_item::<BadVal>(&mut b, &TKey(k))), |x| Res::Val(x.map(|_| vec![])))
            },
            Res::Panic,
        )
    }
    fn remove(&mut self, buf: usize, k: u8) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.remove_item(&mut b, &TKey(k))), |_| Res::Ok)
            },
            Res::Panic,
        )
    }
    fn remove_all(&mut self, buf: usize) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.remove_all_items(&mut b)), |_| Res::Ok)
            },
            Res::Panic,
        )
    }
    fn erase_all(&mut self) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(|| fin(run(s.erase_all()), |_| Res::Ok), Res::Panic)
    }
    fn iter(&mut self, buf: usize) -> (Res, Vec<(u8, Vec<u8>)>) {
        let s = self.s.as_mut().unwrap();
        let mut out = vec![];
        let o = &mut out;
        let r = guard(
            || {
                let mut b = vec![0u8; buf];
                let mut it = match run(s.fetch_all_items(&mut b)) {
                    None => return Res::Cancelled,
                    Some(Err(e)) => return err(e),
                    Some(Ok(it)) => it,
                };
                loop {
                    match run(it.next::<TVal>(&mut b)) {
                        None => return Res::Cancelled,
                        Some(Err(e)) => return err(e),
                        Some(Ok(None)) => return Res::Ok,
                        Some(Ok(Some((k, v)))) => o.push((k.0, v.b)),
                    }
                    if o.len() > 10_000 {
                        return Res::Panic("iteration does not end".into());
                    }
                }
            },
            Res::Panic,
        );
        (r, out)
    }
    fn reuse(&mut self) {
        let s = self.s.take().unwrap();
        let (f, c) = s.destroy();
        self.s = Some(MapStorage::new(f, MapConfig::new(self.range.0..self.range.1), c));
    }
}

struct Qs<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>> {
    s: Option<QueueStorage<SimFlash<W, R, P>, C>>,
    range: (u32, u32),
}
impl<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>> QueueApi for Qs<W, R, P, C> {
    fn push(&mut self, d: &[u8], over: bool) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(|| fin(run(s.push(d, over)), |_| Res::Ok), Res::Panic)
    }
    fn pop(&mut self, buf: usize) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.pop(&mut b)), |x| Res::Val(x.map(|v| v.to_vec())))
            },
            Res::Panic,
        )
    }
    fn peek(&mut self, buf: usize) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(
            || {
                let mut b = vec![0u8; buf];
                fin(run(s.peek(&mut b)), |x| Res::Val(x.map(|v| v.to_vec())))
            },
            Res::Panic,
        )
    }
    fn iter(&mut self, buf: usize, limit: usize, dec: &mut dyn FnMut(usize) -> bool) -> (Res, Vec<(Vec<u8>, u8)>) {
        let s = self.s.as_mut().unwrap();
        let mut out: Vec<(Vec<u8>, u8)> = vec![];
        let o = &mut out;
        let r = guard(
            || {
                let mut b = vec![0u8; buf];
                let mut it = match run(s.iter()) {
                    None => return Res::Cancelled,
                    Some(Err(e)) => return err(e),
                    Some(Ok(it)) => it,
                };
                // the iterator can be used on after an interrupted call
                let mut left = RESUME.get();
                let mut again = |r: Res| match r {
                    Res::Cancelled | Res::Storage if left > 0 => {
                        left -= 1;
                        None
                    }
                    r => Some(r),
                };
                let mut i = 0;
                while i < limit {
                    match run(it.next(&mut b)) {
                        None => match again(Res::Cancelled) {
                            Some(r) => return r,
                            None => continue,
                        },
                        Some(Err(e)) => match again(err(e)) {
                            Some(r) => return r,
                            None => continue,
                        },
                        Some(Ok(None)) => return Res::Ok,
                        Some(Ok(Some(e))) => {
                            o.push((e.to_vec(), 0));
                            if dec(i) {
                                o.last_mut().unwrap().1 = 2;
                                match run(e.pop()) {
                                    None => {
                                        if let Some(r) = again(Res::Cancelled) {
                                            return r;
                                        }
                                    }
                                    Some(Err(e)) => {
                                        if let Some(r) = again(err(e)) {
                                            return r;
                                        }
                                    }
                                    Some(Ok(d)) => {
                                        if d[..] != o.last().unwrap().0[..] {
                                            return Res::Panic("popped data differs from entry".into());
                                        }
                                        o.last_mut().unwrap().1 = 1;
                                    }
                                }
                            }
                        }
                    }
                    i += 1;
                    if i > 10_000 {
                        return Res::Panic("iteration does not end".into());
                    }
                }
                Res::Ok
            },
            Res::Panic,
        );
        (r, out)
    }
    fn max_fit(&mut self) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(|| fin(run(s.find_max_fit()), |x| Res::Num(x.map(u64::from))), Res::Panic)
    }
    fn space_left(&mut self) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(|| fin(run(s.space_left()), |x| Res::Num(Some(u64::from(x)))), Res::Panic)
    }
    fn erase_all(&mut self) -> Res {
        let s = self.s.as_mut().unwrap();
        guard(|| fin(run(s.erase_all()), |_| Res::Ok), Res::Panic)
    }
    fn reuse(&mut self) {
        let s = self.s.take().unwrap();
        let (f, c) = s.destroy();
        self.s = Some(QueueStorage::new(f, QueueConfig::new(self.range.0..self.range.1), c));
    }
}

pub const NPMAX: usize = 272;
/// page counts of long ranges
pub const MANY: [usize; 6] = [9, 16, 33, 64, 129, 260];
/// (write size, read size, page size)
pub const GEO: [(usize, usize, usize); 10] = [
    (4, 4, 64),
    (1, 1, 40),
    (4, 1, 64),
    (8, 1, 112),
    (1, 4, 64),
    (32, 1, 256),
    (8, 8, 120),
    (2, 2, 34),
    (4, 4, 1024),
    (4, 4, 69632),
];
pub const CACHES: [&str; 10] = [
    "none", "array-states", "calc-states", "array-pointers", "array-keys2", "array-all-keys2",
    "heap-all-keys64", "calc-heap-keysN", "calc-array-keys64", "heap-states-keys3",
];
/// Caches instantiated for a geometry.
pub fn caches_for(g: usize) -> &'static [usize] {
    match g {
        0 | 1 => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
        _ => &[0, 2, 5, 7],
    }
}

pub fn mk<const W: usize, const R: usize, const P: usize, C: CacheImpl<TKey> + 'static>(
    dev: &Dev, range: (u32, u32), c: C,
) -> Box<dyn MapApi> {
    Box::new(M::<W, R, P, C> {
        s: Some(MapStorage::new(SimFlash::<W, R, P>::handle(dev.clone()), MapConfig::new(range.0..range.1), c)),
        range,
    })
}
pub fn mkq<const W: usize, const R: usize, const P: usize, C: CacheImpl<()> + 'static>(
    dev: &Dev, range: (u32, u32), c: C,
) -> Box<dyn QueueApi> {
    Box::new(Qs::<W, R, P, C> {
        s: Some(QueueStorage::new(SimFlash::<W, R, P>::handle(dev.clone()), QueueConfig::new(range.0..range.1), c)),
        range,
    })
}

