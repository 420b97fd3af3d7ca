//! Adversarial point data: every field follows its own strategy, which changes over time.
use crate::layout::{Layout, F};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Const,
    Walk(u32),  // random steps of up to 2^k
    Arith(i64), // constant step
    Rand,
    Toggle(u64, u64),
    Extreme,
    Sparse, // mostly constant, rarely random
    LowByte,
    HighByte,
    Copy(usize), // value of an earlier field in the record (e.g. gray RGB)
    Seqs,        // several interleaved arithmetic sequences (gps)
    Mult,        // previous step times a small multiple (gps)
    Recall,      // one of the last few distinct values
}

const EXT: [u64; 14] = [
    0, 1, u64::MAX, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
    0x7fff, 0x8000, 0xff, 0x80, 0x1_0000_0000, 0x7fc0_0000_7fc0_0000,
];

struct Chan {
    mode: Mode,
    left: u64,
    last: u64,
    step: i64,
    hist: Vec<u64>,
    seqs: Vec<(u64, i64)>,
    cur: usize,
}

fn pick_mode(r: &mut Rng, f: F, len: usize, prof: &str, earlier: usize) -> Mode {
    use Mode::*;
    match prof {
        "const" => return Const,
        "rand" => return Rand,
        "walk" => return Walk(r.below(4) as u32 + 1),
        _ => {}
    }
    let ext = matches!(f, F::Gps | F::WOff);
    loop {
        let m = match r.below(if ext { 17 } else { 13 }) {
            0 | 1 => Const,
            2 => Walk(r.below(3) as u32),
            3 => Walk(r.below(8 * len.min(8) as u64) as u32),
            4 => {
                let k = r.below((8 * len as u64).min(40));
                Arith(r.range(-(1i64 << k), 1i64 << k))
            }
            5 => Rand,
            6 => {
                let a = r.next();
                let b = r.next();
                Toggle(a, b)
            }
            7 => Extreme,
            8 => Sparse,
            9 => LowByte,
            10 => HighByte,
            11 => {
                if earlier == 0 {
                    continue;
                }
                Copy(r.below(earlier as u64) as usize)
            }
            12 => Recall,
            13 | 14 => Seqs,
            _ => Mult,
        };
        return m;
    }
}

/// `n` points of `lay`, profile `prof` in {mix, const, rand, walk, slow}.
pub fn points(lay: &Layout, n: usize, prof: &str, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    if let Some(seg) = prof.strip_prefix("layers:") {
        let mut it = seg.split(':');
        let len = it.next().and_then(|x| x.parse().ok()).unwrap_or(5);
        let masks: Option<Vec<u32>> = it.next().map(|m| m.split(',').filter_map(|x| x.parse().ok()).collect());
        return layers(lay, n, len, masks, &mut r);
    }
    if prof == "dec" || prof == "carry" {
        let mut out = crate::codec::decoded(lay, n, seed, prof == "carry");
        out.truncate(n * lay.size);
        let missing = n - out.len() / lay.size;
        out.extend_from_slice(&points(lay, missing, "mix", seed));
        return out;
    }
    let mut out = Vec::with_capacity(n * lay.size);
    // extra bytes are one channel per byte; long runs of extra bytes share channels
    let mut slots: Vec<(F, usize, usize)> = vec![];
    for (f, o, l) in &lay.fields {
        if *f == F::Extra {
            for k in 0..*l {
                slots.push((*f, o + k, 1));
            }
        } else {
            slots.push((*f, *o, *l));
        }
    }
    let mut ch: Vec<Chan> = slots
        .iter()
        .map(|_| Chan { mode: Mode::Const, left: 0, last: 0, step: 0, hist: vec![], seqs: vec![], cur: 0 })
        .collect();
    // segment length scale: short segments mix many behaviours, long ones let models adapt fully
    let scale: u64 = match prof {
        "slow" => 4000,
        _ => *r.pick(&[3u64, 10, 40, 200, 1000]),
    };
    let mut rec = vec![0u8; lay.size];
    let mut nret = 1u64;
    let mut ret = 1u64;
    let mut channel = 0u64;
    let mut ret_mode = 0u64;
    let mut ch_mode = 0u64;
    for p in 0..n {
        if p == 0 || r.chance(1, scale) {
            ret_mode = r.below(5);
            ch_mode = r.below(5);
            if prof == "const" || prof == "walk" {
                ret_mode = 0;
                ch_mode = 0;
            }
            if prof == "rand" {
                ret_mode = 4;
                ch_mode = 4;
            }
        }
        match ret_mode {
            0 => {}
            1 => {
                // well-formed pulses
                ret += 1;
                if ret > nret {
                    nret = r.range(1, 5) as u64;
                    ret = 1;
                }
            }
            2 => {
                ret = r.below(8);
                nret = r.below(8);
            }
            3 => {
                ret = (ret + 1) % 16;
                nret = 1 + r.below(2) * 14;
            }
            _ => {
                ret = r.below(16);
                nret = r.below(16);
            }
        }
        match ch_mode {
            0 => {}
            1 => channel = (channel + 1) % 4,
            2 => channel ^= 1,
            3 => {
                if r.chance(1, 20) {
                    channel = r.below(4)
                }
            }
            _ => channel = r.below(4),
        }
        for (i, (f, o, l)) in slots.iter().enumerate() {
            if ch[i].left == 0 {
                ch[i].mode = pick_mode(&mut r, *f, *l, prof, i);
                ch[i].left = 1 + r.below(2 * scale);
                if ch[i].mode == Mode::Seqs {
                    let k = r.range(2, 6);
                    ch[i].seqs.clear();
                    for _ in 0..k {
                        let base = r.next() >> r.below(20);
                        let st = r.range(-3000, 3000);
                        ch[i].seqs.push((base, st));
                    }
                }
                if ch[i].mode == Mode::Mult && ch[i].step == 0 {
                    ch[i].step = r.range(1, 100000);
                }
                if p == 0 && prof != "const" || r.chance(1, 6) {
                    let v = r.next() >> r.below(64);
                    ch[i].last = v;
                }
            }
            ch[i].left -= 1;
            let last = ch[i].last;
            let v: u64 = match ch[i].mode {
                Mode::Const => last,
                Mode::Walk(k) => {
                    let d = r.range(-(1i64 << k.min(62)), 1i64 << k.min(62));
                    last.wrapping_add(d as u64)
                }
                Mode::Arith(d) => last.wrapping_add(d as u64),
                Mode::Rand => r.next() >> (r.below(8) * r.below(8)),
                Mode::Toggle(a, b) => {
                    if r.chance(1, 2) {
                        a
                    } else {
                        b
                    }
                }
                Mode::Extreme => *r.pick(&EXT),
                Mode::Sparse => {
                    if r.chance(1, 30) {
                        r.next()
                    } else {
                        last
                    }
                }
                Mode::LowByte => (last & !0xff) | (last.wrapping_add(r.range(-3, 3) as u64) & 0xff),
                Mode::HighByte => {
                    let sh = 8 * (*l as u32 - 1).min(7);
                    (last & !(0xffu64 << sh)) | (r.below(256) << sh)
                }
                Mode::Copy(j) => ch[j].last.wrapping_add(if r.chance(1, 10) { 1 } else { 0 }),
                Mode::Seqs => {
                    let k = ch[i].seqs.len();
                    if r.chance(1, 4) {
                        ch[i].cur = r.below(k as u64) as usize;
                    }
                    let c = ch[i].cur % k;
                    let (b, s) = ch[i].seqs[c];
                    let jitter = if r.chance(1, 8) { r.range(-2, 2) } else { 0 };
                    let nb = b.wrapping_add((s + jitter) as u64);
                    ch[i].seqs[c].0 = nb;
                    nb
                }
                Mode::Mult => {
                    let m = *r.pick(&[
                        1i64, 1, 1, 1, 2, 3, 5, 9, 10, 11, 20, 49, 50, 51, 100, 499, 500, 501, 509, 510, 511, 512, 1000,
                        -1, -2, -3, -9, -10, -11, -12, 0, -100,
                    ]);
                    let st = if r.chance(1, 12) { r.range(-200000, 200000) } else { ch[i].step };
                    if r.chance(1, 12) {
                        ch[i].step = st;
                    }
                    last.wrapping_add(st.wrapping_mul(m).wrapping_add(r.range(-1, 1)) as u64)
                }
                Mode::Recall => {
                    if ch[i].hist.is_empty() || r.chance(1, 10) {
                        r.next() >> r.below(64)
                    } else {
                        let k = ch[i].hist.len() as u64;
                        ch[i].hist[r.below(k) as usize]
                    }
                }
            };
            let d = v.wrapping_sub(last) as i64;
            if d != 0 {
                if !matches!(ch[i].mode, Mode::Mult) {
                    ch[i].step = d;
                }
                let h = &mut ch[i].hist;
                if h.len() < 5 {
                    h.push(v);
                } else {
                    let k = (p + i) % 5;
                    h[k] = v;
                }
            }
            ch[i].last = v;
            let b = v.to_le_bytes();
            rec[*o..*o + *l].copy_from_slice(&b[..*l]);
            match f {
                F::Flags10 => {
                    if ret_mode != 4 {
                        // return number, number of returns; direction and edge from the strategy
                        rec[*o] = (ret & 7) as u8 | (((nret & 7) as u8) << 3) | (rec[*o] & 0xC0);
                    }
                }
                F::Ret14 => {
                    if ret_mode != 4 || r.chance(1, 2) {
                        rec[*o] = (ret & 15) as u8 | ((nret & 15) as u8) << 4;
                    }
                }
                F::Flags14 => {
                    rec[*o] = (rec[*o] & 0xCF) | ((channel as u8) << 4);
                }
                F::Gps => {
                    // zeros of both signs and other special doubles now and then
                    if prof != "const" && r.chance(1, 50) {
                        let s: u64 = *r.pick(&[
                            0u64,
                            0x8000_0000_0000_0000,
                            0x7ff0_0000_0000_0000,
                            0xfff8_0000_0000_0001,
                            0x7fff_ffff_ffff_ffff,
                            0x7ff0_0000_0000_0001,
                            1,
                        ]);
                        rec[*o..*o + 8].copy_from_slice(&s.to_le_bytes());
                    }
                }
                F::WXt | F::WYt | F::WZt | F::WRet => {
                    if prof != "const" && r.chance(1, 50) {
                        let s: u32 = *r.pick(&[0u32, 0x8000_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff]);
                        rec[*o..*o + 4].copy_from_slice(&s.to_le_bytes());
                    }
                }
                F::WOff => {
                    // the codec predicts: same offset, previous offset + previous size, small difference
                    if prof == "mix" || prof == "slow" {
                        if out.len() >= lay.size && r.chance(2, 3) {
                            let prev = &out[out.len() - lay.size..];
                            let po = u64::from_le_bytes(prev[*o..*o + 8].try_into().unwrap());
                            let ps = u32::from_le_bytes(prev[*o + 8..*o + 12].try_into().unwrap());
                            let nv = match r.below(4) {
                                0 => po,
                                1 | 2 => po.wrapping_add(ps as u64),
                                _ => po.wrapping_add(r.range(-5000, 5000) as u64),
                            };
                            rec[*o..*o + 8].copy_from_slice(&nv.to_le_bytes());
                            ch[i].last = nv;
                        }
                    }
                }
                _ => {}
            }
        }
        // now and then an exact repetition of the previous record, or of all but one field
        if (prof == "mix" || prof == "slow") && p > 0 && r.chance(1, 12) {
            let prev = out[out.len() - lay.size..].to_vec();
            rec.copy_from_slice(&prev);
            if r.chance(1, 2) {
                let (_, o, l) = *r.pick(&slots);
                let k = o + r.below(l as u64) as usize;
                rec[k] = rec[k].wrapping_add(1 + r.below(255) as u8 * r.below(2) as u8);
            }
        }
        out.extend_from_slice(&rec);
    }
    out
}

/// In each segment of `seg` points a subset of the fields varies, the others are constant: a random
/// subset, or the fields of the selection given for the segment (bit 12: the scanner channel).
fn layers(lay: &Layout, n: usize, seg: usize, masks: Option<Vec<u32>>, r: &mut Rng) -> Vec<u8> {
    let seg = seg.max(1);
    let mut out: Vec<u8> = Vec::with_capacity(n * lay.size);
    let mut base: Vec<u8> = (0..lay.size).map(|_| r.next() as u8).collect();
    let mut vary = vec![0u8; lay.size];
    for k in 0..n {
        if k % seg == 0 {
            if let Some(m) = masks.as_ref().filter(|m| !m.is_empty()) {
                let mk = m[k / seg % m.len()];
                vary = lay.mask(mk);
                if lay.layered() && mk & (1 << 12) == 0 {
                    // bit 5 and 4 of the flags: the scanner channel
                    vary[15] &= !0x30;
                }
            } else {
                let p = *r.pick(&[0u64, 1, 2, 4, 8, 9, 10]);
                for (_, o, l) in &lay.fields {
                    let on = r.chance(p, 10);
                    for b in &mut vary[*o..*o + *l] {
                        *b = if on { 0xff } else { 0 };
                    }
                }
            }
            if r.chance(2, 3) {
                base = (0..lay.size).map(|_| r.next() as u8).collect();
            }
        }
        let mut rec = base.clone();
        if k % seg != 0 || r.chance(1, 2) {
            for (b, v) in rec.iter_mut().zip(&vary) {
                let x = r.next() as u8 >> r.below(8);
                *b = (*b & !v) | (x & v);
            }
        }
        out.extend_from_slice(&rec);
    }
    out
}
