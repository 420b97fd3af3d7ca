//! Independent reader/writer of the LASzip chunk table (arithmetic coder, adaptive symbol models,
//! integer codec), written from the format definition in spec/quint/arith.qnt and chunktable.qnt;
//! it shares no code with the crate under test.

const BITS_HIGH: u32 = 8;
const AC_MIN: u32 = 0x0100_0000;
const AC_MAX: u32 = 0xFFFF_FFFF;
const DM_SHIFT: u32 = 15;
const DM_MAX: u32 = 1 << DM_SHIFT;
const BM_SHIFT: u32 = 13;
const BM_MAX: u32 = 1 << BM_SHIFT;

#[derive(Clone)]
struct Sym {
    n: u32,
    dist: Vec<u32>,
    count: Vec<u32>,
    total: u32,
    cycle: u32,
    until: u32,
}
impl Sym {
    fn new(n: u32) -> Self {
        let mut m = Sym { n, dist: vec![0; n as usize], count: vec![1; n as usize], total: 0, cycle: n, until: 0 };
        m.update();
        m.until = (n + 6) >> 1;
        m.cycle = m.until;
        m
    }
    fn update(&mut self) {
        self.total += self.cycle;
        if self.total > DM_MAX {
            self.total = 0;
            for c in self.count.iter_mut() {
                *c = (*c + 1) >> 1;
                self.total += *c;
            }
        }
        let scale = 0x8000_0000u32 / self.total;
        let mut sum = 0u32;
        for k in 0..self.n as usize {
            self.dist[k] = (scale.wrapping_mul(sum)) >> (31 - DM_SHIFT);
            sum += self.count[k];
        }
        self.cycle = (5 * self.cycle) >> 2;
        let max = (self.n + 6) << 3;
        if self.cycle > max {
            self.cycle = max;
        }
        self.until = self.cycle;
    }
    fn hit(&mut self, s: u32) {
        self.count[s as usize] += 1;
        self.until -= 1;
        if self.until == 0 {
            self.update();
        }
    }
}
#[derive(Clone)]
struct Bit {
    cycle: u32,
    until: u32,
    p0: u32,
    c0: u32,
    total: u32,
}
impl Bit {
    fn new() -> Self {
        Bit { cycle: 4, until: 4, p0: 1 << (BM_SHIFT - 1), c0: 1, total: 2 }
    }
    fn hit(&mut self, b: u32) {
        if b == 0 {
            self.c0 += 1;
        }
        self.until -= 1;
        if self.until == 0 {
            self.total += self.cycle;
            if self.total > BM_MAX {
                self.total = (self.total + 1) >> 1;
                self.c0 = (self.c0 + 1) >> 1;
                if self.c0 == self.total {
                    self.total += 1;
                }
            }
            let scale = 0x8000_0000u32 / self.total;
            self.p0 = (self.c0.wrapping_mul(scale)) >> (31 - BM_SHIFT);
            self.cycle = (5 * self.cycle) >> 2;
            if self.cycle > 64 {
                self.cycle = 64;
            }
            self.until = self.cycle;
        }
    }
}

pub struct Dec<'a> {
    d: &'a [u8],
    pub pos: usize,
    value: u32,
    length: u32,
    pub over: bool,
}
impl<'a> Dec<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        let mut s = Dec { d, pos: 0, value: 0, length: AC_MAX, over: false };
        for _ in 0..4 {
            s.value = (s.value << 8) | s.byte();
        }
        s
    }
    fn byte(&mut self) -> u32 {
        let b = if self.pos < self.d.len() {
            self.d[self.pos] as u32
        } else {
            self.over = true;
            0
        };
        self.pos += 1;
        b
    }
    fn renorm(&mut self) {
        while self.length < AC_MIN {
            self.value = (self.value << BITS_HIGH) | self.byte();
            self.length <<= BITS_HIGH;
        }
    }
    fn sym(&mut self, m: &mut Sym) -> u32 {
        let l = self.length >> DM_SHIFT;
        let mut s = m.n - 1;
        while s > 0 && m.dist[s as usize].wrapping_mul(l) > self.value {
            s -= 1;
        }
        let x = m.dist[s as usize] * l;
        let y = if s == m.n - 1 { self.length } else { m.dist[s as usize + 1] * l };
        self.value = self.value.wrapping_sub(x);
        self.length = y.wrapping_sub(x);
        self.renorm();
        m.hit(s);
        s
    }
    fn bit(&mut self, m: &mut Bit) -> u32 {
        let x = m.p0 * (self.length >> BM_SHIFT);
        let b = (self.value >= x) as u32;
        if b == 0 {
            self.length = x;
        } else {
            self.value -= x;
            self.length -= x;
        }
        self.renorm();
        m.hit(b);
        b
    }
    fn raw(&mut self, n: u32) -> u32 {
        if n > 19 {
            let lo = self.raw(16);
            let hi = self.raw(n - 16);
            return (hi << 16) | lo;
        }
        self.length >>= n;
        let s = self.value / self.length.max(1);
        self.value -= self.length * s;
        self.renorm();
        s
    }
}

/// Integer codec with 32 bits, bits_high 8, 2 contexts (as used by the chunk table).
struct Int {
    k: Vec<Sym>,
    bit0: Bit,
    corr: Vec<Option<Sym>>,
}
impl Int {
    fn new() -> Self {
        Int { k: vec![Sym::new(33), Sym::new(33)], bit0: Bit::new(), corr: vec![None; 33] }
    }
    fn dec(&mut self, d: &mut Dec, pred: u32, ctx: usize) -> u32 {
        let k = d.sym(&mut self.k[ctx]);
        let c: i64 = if k == 0 {
            d.bit(&mut self.bit0) as i64
        } else if k < 32 {
            let m = self.corr[k as usize].get_or_insert_with(|| Sym::new(1 << k.min(8)));
            let v: i64 = if k <= 8 {
                d.sym(m) as i64
            } else {
                let hi = d.sym(m) as i64;
                (hi << (k - 8)) | d.raw(k - 8) as i64
            };
            if v >= 1i64 << (k - 1) {
                v + 1
            } else {
                v - ((1i64 << k) - 1)
            }
        } else {
            i32::MIN as i64
        };
        pred.wrapping_add(c as u32)
    }
}

/// Parses a chunk table at `at`; returns (entries, end position).
pub fn parse(data: &[u8], at: usize, with_count: bool) -> Option<(Vec<(u64, u64)>, usize)> {
    if at + 8 > data.len() {
        return None;
    }
    let ver = u32::from_le_bytes(data[at..at + 4].try_into().unwrap());
    let n = u32::from_le_bytes(data[at + 4..at + 8].try_into().unwrap());
    if ver != 0 || n as usize > 10_000_000 {
        return None;
    }
    if n == 0 {
        return Some((vec![], at + 8));
    }
    let mut d = Dec::new(&data[at + 8..]);
    let mut ic = Int::new();
    let (mut pc, mut pb) = (0u32, 0u32);
    let mut v = vec![];
    for _ in 0..n {
        if with_count {
            pc = ic.dec(&mut d, pc, 0);
        }
        pb = ic.dec(&mut d, pb, 1);
        v.push((if with_count { pc as u64 } else { 0 }, pb as u64));
        if d.over {
            return None;
        }
    }
    Some((v, at + 8 + d.pos))
}
