use crate::api::*;
use crate::sim::*;
use std::collections::HashMap;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn p(&mut self, prob: f64) -> bool {
        ((self.next() >> 11) as f64 / (1u64 << 53) as f64) < prob
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// index drawn by weight
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = (self.next() % t.max(1) as u64) as u32;
        for (i, a) in w.iter().enumerate() {
            if x < *a {
                return i;
            }
            x -= a;
        }
        0
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Contents -> small ids (1..); shared by all events of a trace.
#[derive(Clone, Default)]
pub struct Dict {
    map: HashMap<Vec<u8>, i64>,
    pub lens: Vec<usize>,
}
impl Dict {
    pub fn id(&mut self, b: &[u8]) -> i64 {
        if let Some(i) = self.map.get(b) {
            return *i;
        }
        self.lens.push(b.len());
        let i = self.lens.len() as i64;
        self.map.insert(b.to_vec(), i);
        i
    }
}

pub fn jarr<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
pub fn jarr2<T: std::fmt::Display>(v: &[Vec<T>]) -> String {
    jarr(&v.iter().map(|x| jarr(x)).collect::<Vec<_>>())
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Geo {
    pub g: usize,
    pub w: usize,
    pub r: usize,
    pub page: usize,
    pub word: usize,
    pub np: usize,
    pub range: (u32, u32),
    pub total: usize,
}
impl Geo {
    pub fn new(g: usize, np: usize, before: usize, after: usize) -> Self {
        let (w, r, page) = GEO[g];
        Geo {
            g,
            w,
            r,
            page,
            word: w.max(r),
            np,
            range: ((before * page) as u32, ((before + np) * page) as u32),
            total: before + np + after,
        }
    }
    pub fn blank(&self) -> Inner {
        let mut i = Inner::new(self.w, self.r, self.page, self.total, self.range);
        // content outside of the range must not matter: fill it with something that looks used
        for a in 0..i.data.len() {
            if (a as u32) < self.range.0 || a as u32 >= self.range.1 {
                i.data[a] = if a % 3 == 0 { 0 } else { 0x5A };
            }
        }
        i
    }
    pub fn hdr(&self) -> usize {
        8usize.next_multiple_of(self.word)
    }
    pub fn cap(&self) -> usize {
        self.page - 2 * self.word
    }
    /// biggest item data length
    pub fn max_item(&self) -> usize {
        self.cap() - self.hdr()
    }
    pub fn foot(&self, len: usize) -> usize {
        self.hdr() + len.next_multiple_of(self.word)
    }
}

/// Item contents with a bias to nasty patterns.
pub fn gen_bytes(rng: &mut Rng, len: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
    match rng.below(12) {
        0 => v.fill(0xFF),
        1 => v.fill(0x00),
        2 => {
            for b in v.iter_mut().skip(len / 2) {
                *b = 0xFF
            }
        }
        3 => {
            for b in v.iter_mut().take(len / 2) {
                *b = 0xFF
            }
        }
        _ => {}
    }
    v
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Collects the traces of one generator run.
#[derive(Default)]
pub struct Out {
    pub lines: Vec<String>,
    pub seen: std::collections::HashSet<u64>,
    pub events: u64,
    pub execs: u64,
    pub crash_points: u64,
    pub fault_points: u64,
    pub dup: u64,
    /// behaviours of the model that the real code followed to the same flash
    pub followed: u64,
}
impl Out {
    pub fn push(&mut self, line: String, events: u64) {
        // de-duplicate on everything but the leading id
        let key = fnv(line.split_once(",\"_\":0,").map(|x| x.1).unwrap_or(&line).as_bytes());
        if self.seen.insert(key) {
            self.lines.push(line);
            self.events += events;
        } else {
            self.dup += 1;
        }
    }
}

/// For debugging: pages as hex.
pub fn dump(i: &Inner, title: &str) {
    eprintln!("-- {title}");
    for pg in (i.range.0 as usize / i.page)..(i.range.1 as usize / i.page) {
        eprintln!("   page {}: {}", pg - i.range.0 as usize / i.page, hex(&i.data[pg * i.page..(pg + 1) * i.page]));
    }
}
pub fn debug(id: &str) -> bool {
    std::env::var("SSHB_DUMP").map(|x| x == id).unwrap_or(false)
}

/// The flash accesses of one operation: writes and erases in order as
/// [kind (0 write, 1 erase), offset, length, bytes that took effect, would raise a bit], and the
/// distinct reads as [offset, length].
pub fn flash_log(i: &mut Inner) -> String {
    let log = std::mem::take(&mut i.log);
    let mut rd = std::collections::BTreeSet::new();
    let mut fo: Vec<Vec<i64>> = vec![];
    for e in log {
        match e.kind {
            'r' => {
                rd.insert((e.off, e.len));
            }
            k => fo.push(vec![(k == 'e') as i64, e.off as i64, e.len as i64, e.eff as i64, e.raise as i64]),
        }
    }
    let rd: Vec<Vec<i64>> = rd.into_iter().map(|(a, b)| vec![a as i64, b as i64]).collect();
    format!(",\"fo\":{},\"rd\":{}", jarr2(&fo), jarr2(&rd))
}

pub const POLY: u32 = 0x82f6_3b78;
pub fn reg32(mut c: u32, d: &[u8]) -> u32 {
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ POLY } else { c >> 1 };
        }
    }
    c
}
pub fn crc32(d: &[u8]) -> u32 {
    let v = !reg32(0xEEEE_EEEE, d);
    if v == 0 {
        1
    } else if v & 0xFF == 0 || v & 0xFF == 0xFF {
        v ^ 1
    } else {
        v
    }
}
pub fn crc16(l: u16) -> u16 {
    let mut c = 0xFFFFu16;
    for b in l.to_le_bytes() {
        c ^= b as u16;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x1a2e } else { c >> 1 };
        }
    }
    if !c == 0xFFFF { 0xFFFE } else { !c }
}

/// One behaviour of an implementation-shaped specification: (operation, key, value, mutation or
/// -1, phase) per step, and the flash it leads to.
pub struct Walk {
    pub path: Vec<(String, u8, u8, i64, i64)>,
    pub shape: String,
    pub c: Vec<i64>,
}
impl Walk {
    /// "op k v m ph;op k v m ph|shape|c,c"
    pub fn parse(l: &str) -> Walk {
        let mut f = l.split('|');
        let path = f.next().unwrap().split(';').filter(|x| !x.is_empty()).map(|x| {
            let t: Vec<&str> = x.split(' ').collect();
            (t[0].to_string(), t[1].parse().unwrap(), t[2].parse().unwrap(), t[3].parse().unwrap(), t[4].parse().unwrap())
        });
        Walk {
            path: path.collect(),
            shape: f.next().unwrap().to_string(),
            c: f.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect(),
        }
    }
}

/// What the model calls the state of the flash, read back from the real one.
pub fn shape(dev: &Inner, g: &Geo, item: &dyn Fn(&str, &[u8]) -> String) -> String {
    let mut pages = vec![];
    for p in 0..g.np {
        let a = g.range.0 as usize + p * g.page;
        let d = &dev.data[a..a + g.page];
        let marked = |b: &[u8]| b[..].iter().map(|x| x.count_zeros()).sum::<u32>() >= 4;
        let st = match (marked(&d[..g.r]), marked(&d[g.page - g.r..])) {
            (true, true) => "C",
            (true, false) => "P",
            (false, true) => "X",
            _ => "O",
        };
        let mut items = vec![];
        let (mut x, end) = (g.word, g.page - g.word);
        let mut prot = 0;
        while x + g.hdr() <= end {
            let h = &d[x..x + 8];
            if h.iter().all(|b| *b == 0xFF) {
                break;
            }
            let len = u16::from_le_bytes([h[4], h[5]]) as usize;
            let nx = x + g.hdr() + len.next_multiple_of(g.word);
            if crc16(len as u16) != u16::from_le_bytes([h[6], h[7]]) || nx > end {
                if prot <= x {
                    prot = x + g.hdr();
                    items.push(item("bad", &[]));
                }
                x += g.word;
                continue;
            }
            let crc = u32::from_le_bytes([h[0], h[1], h[2], h[3]]);
            let data = &d[x + g.hdr()..x + g.hdr() + len];
            if crc == 0 {
                items.push(item("del", &[]));
            } else if crc32(data) != crc {
                items.push(item("bad", &[]));
            } else {
                items.push(item("ok", data));
            }
            x = nx;
        }
        pages.push(format!("[\"{st}\",[{}]]", items.join(",")));
    }
    format!("[{}]", pages.join(","))
}

/// Where mutation `m` (1-based) of an operation is interrupted in phase `ph`.
pub fn position(d: &Inner, calls: &[(char, usize, u64)], m: i64, ph: i64) -> Option<u64> {
    let (kind, len, start) = *calls.get(m as usize - 1)?;
    if kind == 'w' {
        let n = (len / d.gran) as u64;
        return Some(start + match ph { 9 => n, 2 => n / 4, _ => n / 2 });
    }
    let marks = d.erase_marks();
    let w = d.word();
    let at = match ph {
        1 => w,
        2 => w + (d.page / 2 / w) * w,
        _ => d.page,
    };
    Some(start + marks.iter().position(|x| *x == at)? as u64)
}
