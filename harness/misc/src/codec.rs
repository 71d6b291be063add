//! Calls of the built-in Key and Value implementations.
use crate::util::Rng;
use arrayvec::{ArrayString, ArrayVec};
use sequential_storage::map::{Key, PostcardValue, Value};
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// JSON of a value as the specification sees it
trait Repr {
    fn repr(&self) -> String;
}
macro_rules! int_repr {
    ($($t:ty: $n:literal),*) => {$(impl Repr for $t {
        fn repr(&self) -> String {
            // two's complement hex digits, most significant first
            let h = format!("{:0w$x}", self, w = 2 * $n);
            format!("[{}]", h.chars().map(|c| c.to_digit(16).unwrap().to_string()).collect::<Vec<_>>().join(","))
        }
    })*};
}
int_repr!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, i8: 1, i16: 2, i32: 4, i64: 8, i128: 16);
impl Repr for f32 {
    fn repr(&self) -> String {
        self.to_bits().repr()
    }
}
impl Repr for f64 {
    fn repr(&self) -> String {
        self.to_bits().repr()
    }
}
impl Repr for bool {
    fn repr(&self) -> String {
        self.to_string()
    }
}
impl Repr for () {
    fn repr(&self) -> String {
        "[]".into()
    }
}
impl<T: Repr> Repr for Option<T> {
    fn repr(&self) -> String {
        match self {
            None => "[]".into(),
            Some(x) => format!("[{}]", x.repr()),
        }
    }
}
fn seq<T: ToString>(i: impl IntoIterator<Item = T>) -> String {
    format!("[{}]", i.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
/// arrays of numbers, byte-like things
struct Arr<'a, T>(&'a [T]);
impl<T: Repr> Repr for Arr<'_, T> {
    fn repr(&self) -> String {
        seq(self.0.iter().map(|x| x.repr()))
    }
}
struct Bytes<'a>(&'a [u8]);
impl Repr for Bytes<'_> {
    fn repr(&self) -> String {
        seq(self.0.iter())
    }
}
macro_rules! bytes_repr {
    ($([$($g:tt)*] $t:ty, $f:ident;)*) => {$(impl<$($g)*> Repr for $t {
        fn repr(&self) -> String { Bytes(self.$f()).repr() }
    })*};
}
bytes_repr! {
    [] Vec<u8>, as_slice;
    [] String, as_bytes;
    [const C: usize] heapless::Vec<u8, C>, as_slice;
    [const C: usize] heapless::String<C>, as_bytes;
    [const C: usize, L: heapless_09::LenType] heapless_09::Vec<u8, C, L>, as_slice;
    [const C: usize, L: heapless_09::LenType] heapless_09::String<C, L>, as_bytes;
    [const C: usize] ArrayVec<u8, C>, as_slice;
    [const C: usize] ArrayString<C>, as_bytes;
}
impl Repr for &[u8] {
    fn repr(&self) -> String {
        Bytes(self).repr()
    }
}

pub struct Rec {
    lines: Vec<String>,
    events: u64,
    rng: Rng,
    n: u64,
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

impl Rec {
    /// One trace per value: serialize into buffers of all sizes, deserialize the result cut or with
    /// more bytes behind it, and damaged.
    fn one(
        &mut self,
        role: &str,
        ty: &str,
        v: &str,
        ser: &dyn Fn(&mut [u8]) -> Option<Result<usize, String>>,
        de: &dyn Fn(&[u8]) -> Option<Result<(String, usize), String>>,
        len: &dyn Fn(&[u8]) -> Option<Result<usize, String>>,
    ) {
        let mut ev = vec![];
        let mut big = vec![0xCCu8; 700];
        let full = match ser(&mut big) {
            Some(Ok(n)) => n.min(700),
            _ => 0,
        };
        let enc = big[..full].to_vec();
        let mut sizes: Vec<usize> = (0..=(full + 2)).collect();
        if full > 40 {
            sizes.retain(|x| *x < 4 || *x + 3 > full || x % 37 == 0);
        }
        sizes.push(700);
        for b in sizes {
            let mut buf = vec![0xCCu8; b];
            let r = ser(&mut buf);
            let (res, n, out) = match r {
                Some(Ok(n)) => ("ok", n, if n <= b { seq(buf[..n].iter()) } else { "[]".into() }),
                Some(Err(_)) => ("err", 0, "[]".into()),
                None => ("panic", 0, "[]".into()),
            };
            ev.push(format!("{{\"op\":\"ser\",\"b\":{b},\"res\":\"{res}\",\"n\":{n},\"out\":{out}}}"));
        }
        let mut ins: Vec<Vec<u8>> = vec![enc.clone()];
        for c in 1..=full {
            if full <= 40 || c < 4 || full - c < 4 || c % 37 == 0 {
                ins.push(enc[..full - c].to_vec());
            }
        }
        for k in 1..=3usize {
            let mut x = enc.clone();
            for _ in 0..k {
                x.push(*self.rng.pick(&[0u8, 1, 2, 0xFF, 0x41, 0xC3]));
            }
            ins.push(x);
        }
        for _ in 0..3 {
            let mut x = enc.clone();
            if x.is_empty() {
                break;
            }
            let i = self.rng.below(x.len());
            x[i] ^= 1 << self.rng.below(8);
            ins.push(x);
        }
        for inp in &ins {
            let i = seq(inp.iter());
            let (res, n, out) = match de(inp) {
                Some(Ok((s, n))) => ("ok", n, s),
                Some(Err(_)) => ("err", 0, "0".into()),
                None => ("panic", 0, "0".into()),
            };
            ev.push(format!("{{\"op\":\"de\",\"inp\":{i},\"res\":\"{res}\",\"n\":{n},\"v\":{out}}}"));
            if role == "key" {
                let (res, n) = match len(inp) {
                    Some(Ok(n)) => ("ok", n),
                    Some(Err(_)) => ("err", 0),
                    None => ("panic", 0),
                };
                ev.push(format!("{{\"op\":\"len\",\"inp\":{i},\"res\":\"{res}\",\"n\":{n}}}"));
            }
        }
        self.events += ev.len() as u64;
        self.lines.push(format!("{{\"role\":\"{role}\",\"ty\":{ty},\"v\":{v},\"ev\":[{}]}}", ev.join(",")));
    }

    fn key<K: Key>(&mut self, ty: &str, k: &K, repr: impl Fn(&K) -> String) {
        let r = repr(k);
        self.one(
            "key", ty, &r,
            &|b| guard(|| k.serialize_into(b).map_err(|e| format!("{e:?}"))),
            &|b| guard(|| K::deserialize_from(b).map(|(x, n)| (repr(&x), n)).map_err(|e| format!("{e:?}"))),
            &|b| guard(|| K::get_len(b).map_err(|e| format!("{e:?}"))),
        );
    }
    fn keyr<K: Key + Repr>(&mut self, ty: &str, k: &K) {
        self.key(ty, k, |x| x.repr());
    }
}

macro_rules! val {
    ($rec:expr, $ty:expr, $t:ty, $v:expr, $repr:expr) => {{
        let v: $t = $v;
        let repr = $repr;
        let r: String = repr(&v);
        $rec.one(
            "value", $ty, &r,
            &|b| guard(|| <$t as Value>::serialize_into(&v, b).map_err(|e| format!("{e:?}"))),
            &|b| guard(|| <$t as Value>::deserialize_from(b).map(|(x, n)| (repr(&x), n)).map_err(|e| format!("{e:?}"))),
            &|_| None,
        );
    }};
    ($rec:expr, $ty:expr, $t:ty, $v:expr) => {
        val!($rec, $ty, $t, $v, |x: &$t| x.repr())
    };
}

fn bits(rng: &mut Rng) -> u128 {
    let r = ((rng.next() as u128) << 64) | rng.next() as u128;
    match rng.below(8) {
        0 => 0,
        1 => u128::MAX,
        2 => 1 << rng.below(128),
        3 => u128::MAX << rng.below(128),
        4 => u128::MAX >> rng.below(128),
        5 => 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10,
        _ => r >> rng.below(128),
    }
}
fn bytes(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => rng.range(0, max),
    };
    let m = rng.below(4);
    (0..n)
        .map(|i| match m {
            0 => 0,
            1 => 0xFF,
            2 => (i as u8).wrapping_add(1),
            _ => rng.next() as u8,
        })
        .collect()
}
fn text(rng: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let n = match rng.below(4) {
        0 => 0,
        1 => max,
        _ => rng.range(0, max),
    };
    for _ in 0..n {
        let c = *rng.pick(&['a', 'Z', '0', '\0', '\u{7F}', '\u{80}', 'é', '\u{7FF}', '\u{800}', '€', '\u{D7FF}', '\u{E000}', '\u{FFFF}', '\u{10000}', '🦀', '\u{10FFFF}']);
        if s.len() + c.len_utf8() > max {
            break;
        }
        s.push(c);
    }
    s
}

#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct PcA {
    a: u32,
    b: bool,
    c: u8,
    d: Option<u16>,
}
impl PostcardValue<'_> for PcA {}
impl Repr for PcA {
    fn repr(&self) -> String {
        format!("[{},{},{},{}]", self.a.repr(), self.b.repr(), self.c.repr(), self.d.repr())
    }
}
const PCA: &str = r#"{"k":"pc","f":[{"k":"var","n":4},{"k":"bool"},{"k":"int","n":1},{"k":"opt","t":{"k":"var","n":2}}]}"#;
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct PcB<'a> {
    #[serde(borrow)]
    s: &'a str,
    n: u64,
    v: (u16, u16),
}
impl<'a> PostcardValue<'a> for PcB<'a> {}
impl Repr for PcB<'_> {
    fn repr(&self) -> String {
        format!("[{},{},{},{}]", Bytes(self.s.as_bytes()).repr(), self.n.repr(), self.v.0.repr(), self.v.1.repr())
    }
}
const PCB: &str = r#"{"k":"pc","f":[{"k":"vstr"},{"k":"var","n":8},{"k":"var","n":2},{"k":"var","n":2}]}"#;

/// Long keys: the length field has 16 bits.
fn long_keys(rec: &mut Rec) {
    for (len, byte) in [(300usize, 7u8), (65533, 1), (65535, 2), (65536, 3), (65537, 4), (131074, 5)] {
        let k = vec![byte; len];
        let ks: String = String::from_utf8(k.clone()).unwrap();
        let av: Box<ArrayVec<u8, 131074>> = Box::new(k.iter().copied().collect());
        let hv: Box<heapless::Vec<u8, 131074>> = Box::new(heapless::Vec::from_slice(&k).unwrap());
        let h9: Box<heapless_09::Vec<u8, 131074>> = Box::new(heapless_09::Vec::from_slice(&k).unwrap());
        let mut asx: Box<ArrayString<131074>> = Box::new(ArrayString::new());
        asx.push_str(&ks);
        let mut hs: Box<heapless::String<131074>> = Box::new(heapless::String::new());
        hs.push_str(&ks).unwrap();
        let mut hs9: Box<heapless_09::String<131074>> = Box::new(heapless_09::String::new());
        hs9.push_str(&ks).unwrap();
        let mut ev = vec![];
        for b in [0usize, 1, 2, len, len + 1, len + 2, len + 3, 140_000] {
            let sers: [(&str, &dyn Fn(&mut [u8]) -> Result<usize, ()>); 8] = [
                ("vec", &|x| Key::serialize_into(&k, x).map_err(|_| ())),
                ("string", &|x| Key::serialize_into(&ks, x).map_err(|_| ())),
                ("arrayvec", &|x| Key::serialize_into(&*av, x).map_err(|_| ())),
                ("arraystring", &|x| Key::serialize_into(&*asx, x).map_err(|_| ())),
                ("hvec", &|x| Key::serialize_into(&*hv, x).map_err(|_| ())),
                ("hstring", &|x| Key::serialize_into(&*hs, x).map_err(|_| ())),
                ("h9vec", &|x| Key::serialize_into(&*h9, x).map_err(|_| ())),
                ("h9string", &|x| Key::serialize_into(&*hs9, x).map_err(|_| ())),
            ];
            for (t, f) in sers {
                let mut buf = vec![0u8; b];
                let (res, n, p, same) = match guard(|| f(&mut buf)) {
                    None => ("panic", 0, vec![], false),
                    Some(Err(_)) => ("err", 0, vec![], false),
                    Some(Ok(n)) => ("ok", n, buf[..2.min(n)].to_vec(), n >= 2 && n <= b && buf[2..n].iter().all(|x| *x == byte)),
                };
                ev.push(format!("{{\"op\":\"lser\",\"t\":\"{t}\",\"b\":{b},\"res\":\"{res}\",\"n\":{n},\"pfx\":{},\"same\":{same}}}", seq(p.iter())));
                if res == "ok" {
                    let inp = buf;
                    type D<'a> = &'a dyn Fn(&[u8]) -> Result<(bool, usize), ()>;
                    let d: D = match t {
                        "vec" => &|x| <Vec<u8> as Key>::deserialize_from(x).map(|(y, n)| (y == k, n)).map_err(|_| ()),
                        "string" => &|x| <String as Key>::deserialize_from(x).map(|(y, n)| (y == ks, n)).map_err(|_| ()),
                        "arrayvec" => &|x| <ArrayVec<u8, 131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *av, n)).map_err(|_| ()),
                        "arraystring" => &|x| <ArrayString<131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *asx, n)).map_err(|_| ()),
                        "hvec" => &|x| <heapless::Vec<u8, 131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *hv, n)).map_err(|_| ()),
                        "hstring" => &|x| <heapless::String<131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *hs, n)).map_err(|_| ()),
                        "h9vec" => &|x| <heapless_09::Vec<u8, 131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *h9, n)).map_err(|_| ()),
                        _ => &|x| <heapless_09::String<131074> as Key>::deserialize_from(x).map(|(y, n)| (y == *hs9, n)).map_err(|_| ()),
                    };
                    for cut in [b, len + 2, len + 1, len, 2, 1] {
                        if cut > inp.len() {
                            continue;
                        }
                        let (res, n, eq) = match guard(|| d(&inp[..cut])) {
                            None => ("panic", 0, false),
                            Some(Err(_)) => ("err", 0, false),
                            Some(Ok((eq, n))) => ("ok", n, eq),
                        };
                        ev.push(format!("{{\"op\":\"lde\",\"t\":\"{t}\",\"b\":{cut},\"res\":\"{res}\",\"n\":{n},\"same\":{eq}}}"));
                    }
                }
            }
        }
        rec.events += ev.len() as u64;
        rec.lines.push(format!("{{\"role\":\"long\",\"ty\":{{\"k\":\"pre\"}},\"v\":{len},\"ev\":[{}]}}", ev.join(",")));
    }
}

pub fn record(seed: u64, n: u64) -> (Vec<String>, u64) {
    let mut rec = Rec { lines: vec![], events: 0, rng: Rng::new(seed), n };
    // the big stack frames of `long_keys`
    let mut rec = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            long_keys(&mut rec);
            all(&mut rec);
            rec
        })
        .unwrap()
        .join()
        .unwrap();
    rec.lines.rotate_left(3);
    (rec.lines, rec.events)
}

fn all(rec: &mut Rec) {
    for i in 0..rec.n {
        let b = bits(&mut rec.rng);
        macro_rules! ints {
            ($($t:ty: $n:literal),*) => {$(
                rec.keyr(concat!(r#"{"k":"int","n":"#, $n, "}"), &(b as $t));
                val!(rec, concat!(r#"{"k":"int","n":"#, $n, "}"), $t, b as $t);
                if i % 3 == 0 {
                    val!(rec, concat!(r#"{"k":"opt","t":{"k":"int","n":"#, $n, "}}"), Option<$t>, if i % 9 == 0 { None } else { Some(b as $t) });
                    let a = [b as $t, bits(&mut rec.rng) as $t, bits(&mut rec.rng) as $t];
                    val!(rec, concat!(r#"{"k":"arr","c":3,"n":"#, $n, "}"), [$t; 3], a, |x: &[$t; 3]| Arr(x).repr());
                    val!(rec, concat!(r#"{"k":"arr","c":1,"n":"#, $n, "}"), [$t; 1], [b as $t], |x: &[$t; 1]| Arr(x).repr());
                    val!(rec, concat!(r#"{"k":"arr","c":0,"n":"#, $n, "}"), [$t; 0], [], |x: &[$t; 0]| Arr(x).repr());
                }
            )*};
        }
        ints!(u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, i8: 1, i16: 2, i32: 4, i64: 8, i128: 16);
        val!(rec, r#"{"k":"int","n":4}"#, f32, f32::from_bits(b as u32));
        val!(rec, r#"{"k":"int","n":8}"#, f64, f64::from_bits(b as u64));
        val!(rec, r#"{"k":"arr","c":2,"n":4}"#, [f32; 2], [f32::from_bits(b as u32), 1.5], |x: &[f32; 2]| Arr(x).repr());
        val!(rec, r#"{"k":"arr","c":2,"n":8}"#, [f64; 2], [f64::from_bits(b as u64), -2.5], |x: &[f64; 2]| Arr(x).repr());
        val!(rec, r#"{"k":"bool"}"#, bool, b & 1 == 1);
        val!(rec, r#"{"k":"opt","t":{"k":"bool"}}"#, Option<bool>, [None, Some(true), Some(false)][i as usize % 3]);
        val!(rec, r#"{"k":"opt","t":{"k":"opt","t":{"k":"int","n":2}}}"#, Option<Option<u16>>, [None, Some(None), Some(Some(b as u16))][i as usize % 3]);
        rec.keyr(r#"{"k":"unit"}"#, &());
        let s = bytes(&mut rec.rng, 9);
        macro_rules! raw {
            ($($n:literal),*) => {$(
                { let mut a = [0u8; $n]; for x in a.iter_mut() { *x = rec.rng.next() as u8; }
                rec.key(concat!(r#"{"k":"raw","n":"#, $n, "}"), &a, |x: &[u8; $n]| Bytes(x).repr()); }
            )*};
        }
        raw!(0, 1, 2, 5, 8, 33);
        rec.keyr(r#"{"k":"pre","cap":-1,"utf":false}"#, &s);
        let l = bytes(&mut rec.rng, 300);
        rec.keyr(r#"{"k":"pre","cap":-1,"utf":false}"#, &l);
        let t = text(&mut rec.rng, 9);
        rec.keyr(r#"{"k":"pre","cap":-1,"utf":true}"#, &t);
        val!(rec, r#"{"k":"bytes","cap":-1,"utf":false}"#, Vec<u8>, s.clone());
        val!(rec, r#"{"k":"bytes","cap":-1,"utf":true}"#, String, t.clone());
        val!(rec, r#"{"k":"opt","t":{"k":"bytes","cap":-1,"utf":false}}"#, Option<Vec<u8>>, if i % 4 == 0 { None } else { Some(s.clone()) });
        {
            let sl = l.as_slice();
            val!(rec, r#"{"k":"bytes","cap":-1,"utf":false}"#, &[u8], sl);
        }
        macro_rules! caps {
            ($($c:literal),*) => {$({
                let s = bytes(&mut rec.rng, $c);
                let t = text(&mut rec.rng, $c);
                let kb = concat!(r#"{"k":"pre","cap":"#, $c, r#","utf":false}"#);
                let ks = concat!(r#"{"k":"pre","cap":"#, $c, r#","utf":true}"#);
                let vb = concat!(r#"{"k":"bytes","cap":"#, $c, r#","utf":false}"#);
                let vs = concat!(r#"{"k":"bytes","cap":"#, $c, r#","utf":true}"#);
                let h8: heapless::Vec<u8, $c> = heapless::Vec::from_slice(&s).unwrap();
                let h9: heapless_09::Vec<u8, $c> = heapless_09::Vec::from_slice(&s).unwrap();
                let h9s: heapless_09::Vec<u8, $c, u8> = heapless_09::Vec::from_slice(&s).unwrap();
                let av: ArrayVec<u8, $c> = s.iter().copied().collect();
                let s8: heapless::String<$c> = t.parse().unwrap();
                let s9: heapless_09::String<$c> = t.as_str().try_into().unwrap();
                let sa: ArrayString<$c> = ArrayString::from(&t).unwrap();
                rec.keyr(kb, &h8);
                rec.keyr(kb, &h9);
                rec.keyr(kb, &h9s);
                rec.keyr(kb, &av);
                rec.keyr(ks, &s8);
                rec.keyr(ks, &s9);
                rec.keyr(ks, &sa);
                val!(rec, vb, heapless::Vec<u8, $c>, h8.clone());
                val!(rec, vb, heapless_09::Vec<u8, $c>, h9.clone());
                val!(rec, vb, heapless_09::Vec<u8, $c, u8>, h9s.clone());
                val!(rec, vs, heapless::String<$c>, s8.clone());
                val!(rec, vs, heapless_09::String<$c>, s9.clone());
            })*};
        }
        caps!(4, 17);
        val!(rec, PCA, PcA, PcA { a: b as u32, b: b & 2 != 0, c: (b >> 3) as u8, d: if i % 3 == 0 { None } else { Some((b >> 5) as u16) } });
        let b2 = bits(&mut rec.rng);
        val!(rec, PCB, PcB<'_>, PcB { s: &t, n: b2 as u64, v: (b as u16, (b2 >> 7) as u16) });
    }
}
