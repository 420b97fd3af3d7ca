//! Point layouts: which items a point format has, where its fields are, and raw VLR bytes.
use laz::LazVlr;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    X, Y, Z, Intensity, Flags10, Class10, Angle10, User, Psid,
    Gps,
    Red, Green, Blue, Nir,
    WIdx, WOff, WSize, WRet, WXt, WYt, WZt,
    Ret14, Flags14, Class14, User14, Angle14, Psid14,
    Extra,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub fmt: u8,
    pub ver: u16,
    pub eb: u16,
    pub size: usize,
    /// (field, offset, length)
    pub fields: Vec<(F, usize, usize)>,
    /// (item type, size, version)
    pub items: Vec<(u16, u16, u16)>,
}

pub const P10: u16 = 6;
pub const GPS: u16 = 7;
pub const RGB12: u16 = 8;
pub const WAVE13: u16 = 9;
pub const P14: u16 = 10;
pub const RGB14: u16 = 11;
pub const RGBNIR14: u16 = 12;
pub const WAVE14: u16 = 13;
pub const BYTE14: u16 = 14;

/// The items the LASzip format assigns to a point format.
pub fn items_of(fmt: u8, ver: u16, eb: u16) -> Vec<(u16, u16, u16)> {
    let mut t: Vec<(u16, u16)> = match fmt {
        0 => vec![(P10, 20)],
        1 => vec![(P10, 20), (GPS, 8)],
        2 => vec![(P10, 20), (RGB12, 6)],
        3 => vec![(P10, 20), (GPS, 8), (RGB12, 6)],
        4 => vec![(P10, 20), (GPS, 8), (WAVE13, 29)],
        5 => vec![(P10, 20), (GPS, 8), (RGB12, 6), (WAVE13, 29)],
        6 => vec![(P14, 30)],
        7 => vec![(P14, 30), (RGB14, 6)],
        8 => vec![(P14, 30), (RGBNIR14, 8)],
        9 => vec![(P14, 30), (WAVE14, 29)],
        10 => vec![(P14, 30), (RGBNIR14, 8), (WAVE14, 29)],
        _ => panic!("format"),
    };
    if eb > 0 {
        t.push((if fmt >= 6 { BYTE14 } else { 0 }, eb));
    }
    // there is no version 2 of the wave packets
    t.into_iter().map(|(a, b)| (a, b, if a == WAVE13 { 1 } else { ver })).collect()
}

impl Layout {
    pub fn new(fmt: u8, ver: u16, eb: u16) -> Self {
        let items = items_of(fmt, ver, eb);
        Self::from_items(fmt, ver, eb, items)
    }

    pub fn from_items(fmt: u8, ver: u16, eb: u16, items: Vec<(u16, u16, u16)>) -> Self {
        use F::*;
        let mut fields = vec![];
        let mut o = 0usize;
        for (ty, sz, _) in &items {
            let l: Vec<(F, usize)> = match *ty {
                0 | 14 => vec![(Extra, *sz as usize)],
                6 => vec![(X, 4), (Y, 4), (Z, 4), (Intensity, 2), (Flags10, 1), (Class10, 1), (Angle10, 1), (User, 1), (Psid, 2)],
                7 => vec![(Gps, 8)],
                8 | 11 => vec![(Red, 2), (Green, 2), (Blue, 2)],
                12 => vec![(Red, 2), (Green, 2), (Blue, 2), (Nir, 2)],
                9 | 13 => vec![(WIdx, 1), (WOff, 8), (WSize, 4), (WRet, 4), (WXt, 4), (WYt, 4), (WZt, 4)],
                10 => vec![(X, 4), (Y, 4), (Z, 4), (Intensity, 2), (Ret14, 1), (Flags14, 1), (Class14, 1), (User14, 1), (Angle14, 2), (Psid14, 2), (Gps, 8)],
                _ => vec![],
            };
            for (f, n) in l {
                fields.push((f, o, n));
                o += n;
            }
        }
        Layout { fmt, ver, eb, size: o, fields, items }
    }

    pub fn layered(&self) -> bool {
        self.items[0].2 >= 3
    }

    /// Bytes that a selective decompression with `sel` must reproduce: mask per byte.
    pub fn mask(&self, sel: u32) -> Vec<u8> {
        use F::*;
        let mut m = vec![0u8; self.size];
        let lay = self.layered();
        for (f, o, n) in &self.fields {
            let bit = |b: u32| sel & (1 << b) != 0;
            let on = !lay
                || match f {
                    X | Y | Ret14 => true,
                    Z => bit(0),
                    Class14 => bit(1),
                    Flags14 => bit(2),
                    Intensity => bit(3),
                    Angle14 => bit(4),
                    User14 => bit(5),
                    Psid14 => bit(6),
                    Gps => bit(7),
                    Red | Green | Blue => bit(8),
                    Nir => bit(9),
                    WIdx | WOff | WSize | WRet | WXt | WYt | WZt => bit(10),
                    Extra => bit(11),
                    _ => true,
                };
            for k in *o..*o + *n {
                m[k] = if on { 0xff } else { 0 };
            }
            if lay && *f == Flags14 && !on {
                m[*o] = 0x30; // the scanner channel is always decompressed
            }
        }
        m
    }

    /// The layers of a chunk in their order: selection bit (0: always decompressed) and the bytes of a point they give.
    pub fn layers(&self) -> Vec<(u32, Vec<u8>)> {
        use F::*;
        let mut v: Vec<(u32, Vec<u8>)> = vec![];
        let mut at = 0usize;
        for (ty, sz, _) in &self.items {
            let of = |l: &[F]| -> Vec<u8> {
                let mut m = vec![0u8; self.size];
                for (f, o, n) in &self.fields {
                    if *o >= at && *o < at + *sz as usize && l.contains(f) {
                        for k in *o..*o + *n {
                            m[k] = 0xff;
                        }
                    }
                }
                m
            };
            match *ty {
                10 => {
                    v.push((0, of(&[X, Y, Ret14])));
                    v.push((1, of(&[Z])));
                    v.push((2, of(&[Class14])));
                    let mut flags = of(&[Flags14]);
                    flags.iter_mut().for_each(|b| *b &= 0xcf); // the scanner channel is in the first layer
                    v.push((4, flags));
                    v.push((8, of(&[Intensity])));
                    v.push((16, of(&[Angle14])));
                    v.push((32, of(&[User14])));
                    v.push((64, of(&[Psid14])));
                    v.push((128, of(&[Gps])));
                }
                11 => v.push((256, of(&[Red, Green, Blue]))),
                12 => {
                    v.push((256, of(&[Red, Green, Blue])));
                    v.push((512, of(&[Nir])));
                }
                13 => v.push((1024, of(&[WIdx, WOff, WSize, WRet, WXt, WYt, WZt]))),
                14 => {
                    for k in 0..*sz as usize {
                        let mut m = vec![0u8; self.size];
                        m[at + k] = 0xff;
                        v.push((2048, m));
                    }
                }
                _ => {}
            }
            at += *sz as usize;
        }
        v
    }

    /// The record data of the LASzip VLR, as the format defines it.
    pub fn vlr_bytes(&self, compressor: u16, chunk_size: u32) -> Vec<u8> {
        vlr_bytes(&self.items, compressor, chunk_size)
    }

    pub fn vlr(&self, compressor: u16, chunk_size: u32) -> laz::Result<LazVlr> {
        LazVlr::from_buffer(self.vlr_bytes(compressor, chunk_size))
    }
}

pub fn vlr_bytes(items: &[(u16, u16, u16)], compressor: u16, chunk_size: u32) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&compressor.to_le_bytes());
    v.extend_from_slice(&0u16.to_le_bytes());
    v.extend_from_slice(&[2, 2, 0, 0]);
    v.extend_from_slice(&0u32.to_le_bytes());
    v.extend_from_slice(&chunk_size.to_le_bytes());
    v.extend_from_slice(&(-1i64).to_le_bytes());
    v.extend_from_slice(&(-1i64).to_le_bytes());
    v.extend_from_slice(&(items.len() as u16).to_le_bytes());
    for (t, s, ver) in items {
        v.extend_from_slice(&t.to_le_bytes());
        v.extend_from_slice(&s.to_le_bytes());
        v.extend_from_slice(&ver.to_le_bytes());
    }
    v
}
