//! Dispatch to the per-geometry crates.
pub use sshcore::api::*;
use crate::sim::*;

#[cfg(feature = "map")]
pub fn make_map(g: usize, c: usize, d: &Dev, r: (u32, u32)) -> Box<dyn MapApi> {
    let np = (r.1 - r.0) as usize / GEO[g].2;
    match (g, c) {
        (0, 1 | 3 | 4) => g0x::map(c, d, r, np),
        (0, 6 | 8 | 9) => g0y::map(c, d, r, np),
        (0, _) => g0::map(c, d, r, np),
        (1, 1 | 3 | 4) => g1x::map(c, d, r, np),
        (1, 6 | 8 | 9) => g1y::map(c, d, r, np),
        (1, _) => g1::map(c, d, r, np),
        (2, _) => g2::map(c, d, r, np),
        (3, _) => g3::map(c, d, r, np),
        (4, _) => g4::map(c, d, r, np),
        (5, _) => g5::map(c, d, r, np),
        (6, _) => g6::map(c, d, r, np),
        (7, _) => g7::map(c, d, r, np),
        #[cfg(feature = "fmt")]
        (8, _) => g8::map(c, d, r, np),
        #[cfg(feature = "fmt")]
        (9, _) => g9::map(c, d, r, np),
        _ => unreachable!(),
    }
}
#[cfg(feature = "queue")]
pub fn make_queue(g: usize, c: usize, d: &Dev, r: (u32, u32)) -> Box<dyn QueueApi> {
    let np = (r.1 - r.0) as usize / GEO[g].2;
    match (g, c) {
        (0, 1 | 3 | 4) => g0x::queue(c, d, r, np),
        (0, 6 | 8 | 9) => g0y::queue(c, d, r, np),
        (0, _) => g0::queue(c, d, r, np),
        (1, 1 | 3 | 4) => g1x::queue(c, d, r, np),
        (1, 6 | 8 | 9) => g1y::queue(c, d, r, np),
        (1, _) => g1::queue(c, d, r, np),
        (2, _) => g2::queue(c, d, r, np),
        (3, _) => g3::queue(c, d, r, np),
        (4, _) => g4::queue(c, d, r, np),
        (5, _) => g5::queue(c, d, r, np),
        (6, _) => g6::queue(c, d, r, np),
        (7, _) => g7::queue(c, d, r, np),
        #[cfg(feature = "fmt")]
        (8, _) => g8::queue(c, d, r, np),
        #[cfg(feature = "fmt")]
        (9, _) => g9::queue(c, d, r, np),
        _ => unreachable!(),
    }
}
