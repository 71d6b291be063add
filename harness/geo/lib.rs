//! Instances of the map and the queue for one flash geometry (a crate per geometry, so that they
//! compile in parallel).
#![allow(unused_imports, dead_code)]
use sequential_storage::cache::key_pointers::{ArrayKeyPointers, HeapKeyPointers};
use sequential_storage::cache::page_pointers::{ArrayPagePointers, HeapPagePointers};
use sequential_storage::cache::page_states::{ArrayPageStates, CalculatedPageStates, HeapPageStates};
use sequential_storage::cache::{Cache, Uncached};
use sshcore::api::*;
use sshcore::sim::Dev;

#[cfg(feature = "g0")]
const GI: usize = 0;
#[cfg(feature = "g1")]
const GI: usize = 1;
#[cfg(feature = "g2")]
const GI: usize = 2;
#[cfg(feature = "g3")]
const GI: usize = 3;
#[cfg(feature = "g4")]
const GI: usize = 4;
#[cfg(feature = "g5")]
const GI: usize = 5;
#[cfg(feature = "g6")]
const GI: usize = 6;
#[cfg(feature = "g7")]
const GI: usize = 7;
#[cfg(feature = "g8")]
const GI: usize = 8;
#[cfg(feature = "g9")]
const GI: usize = 9;
const W: usize = GEO[GI].0;
const R: usize = GEO[GI].1;
const P: usize = GEO[GI].2;

#[cfg(all(feature = "map", feature = "set_z"))]
pub fn map(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn MapApi> {
    match c {
        0 => mk::<W, R, P, _>(d, r, Cache::<_, _, _, TKey>::new_uncached()),
        2 => mk::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), Uncached, Uncached)),
        5 => mk::<W, R, P, _>(d, r, Cache::new(ArrayPageStates::<NPMAX>::new(), ArrayPagePointers::<NPMAX>::new(), ArrayKeyPointers::<TKey, 2>::new())),
        7 => mk::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), HeapPagePointers::new(np), HeapKeyPointers::<TKey>::new(np % 3))),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
#[cfg(all(feature = "queue", feature = "set_z"))]
pub fn queue(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn QueueApi> {
    match c {
        0 => mkq::<W, R, P, _>(d, r, Cache::<_, _, _, ()>::new_uncached()),
        2 => mkq::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), Uncached, Uncached)),
        5 => mkq::<W, R, P, _>(d, r, Cache::new(ArrayPageStates::<NPMAX>::new(), ArrayPagePointers::<NPMAX>::new(), Uncached)),
        7 => mkq::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), HeapPagePointers::new(np), Uncached)),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
#[cfg(all(feature = "map", feature = "set_x"))]
pub fn map(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn MapApi> {
    match c {
        1 => mk::<W, R, P, _>(d, r, Cache::new(ArrayPageStates::<NPMAX>::new(), Uncached, Uncached)),
        3 => mk::<W, R, P, _>(d, r, Cache::new(Uncached, ArrayPagePointers::<NPMAX>::new(), Uncached)),
        4 => mk::<W, R, P, _>(d, r, Cache::new(Uncached, Uncached, ArrayKeyPointers::<TKey, 2>::new())),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
#[cfg(all(feature = "queue", feature = "set_x"))]
pub fn queue(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn QueueApi> {
    match c {
        1 => mkq::<W, R, P, _>(d, r, Cache::new(ArrayPageStates::<NPMAX>::new(), Uncached, Uncached)),
        3 | 4 => mkq::<W, R, P, _>(d, r, Cache::new(Uncached, ArrayPagePointers::<NPMAX>::new(), Uncached)),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
#[cfg(all(feature = "map", feature = "set_y"))]
pub fn map(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn MapApi> {
    match c {
        6 => mk::<W, R, P, _>(d, r, Cache::new(HeapPageStates::new(np), HeapPagePointers::new(np), HeapKeyPointers::<TKey>::new(64))),
        8 => mk::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), ArrayPagePointers::<NPMAX>::new(), ArrayKeyPointers::<TKey, 64>::new())),
        9 => mk::<W, R, P, _>(d, r, Cache::new(HeapPageStates::new(np), Uncached, HeapKeyPointers::<TKey>::new(3))),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
#[cfg(all(feature = "queue", feature = "set_y"))]
pub fn queue(c: usize, d: &Dev, r: (u32, u32), np: usize) -> Box<dyn QueueApi> {
    match c {
        6 => mkq::<W, R, P, _>(d, r, Cache::new(HeapPageStates::new(np), HeapPagePointers::new(np), Uncached)),
        8 => mkq::<W, R, P, _>(d, r, Cache::new(CalculatedPageStates::new(np), ArrayPagePointers::<NPMAX>::new(), Uncached)),
        9 => mkq::<W, R, P, _>(d, r, Cache::new(HeapPageStates::new(np), Uncached, Uncached)),
        _ => panic!("harness: cache {c} not instantiated"),
    }
}
