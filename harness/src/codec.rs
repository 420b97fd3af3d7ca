//! The codec alone: chunks of points and sequences of coding operations, to be compared with the bytes of the
//! specification in spec/quint.
use crate::gen;
use crate::layout::Layout;
use crate::session::{canon_chunk, decode_chunk, guard, laz_of, panic_text};
use laz::compressors::IntegerCompressor;
use laz::decoders::ArithmeticDecoder;
use laz::decompressors::IntegerDecompressor;
use laz::encoders::ArithmeticEncoder;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::models::{ArithmeticBitModel, ArithmeticModel};
use laz::record::{LayeredPointRecordDecompressor, RecordDecompressor, SequentialPointRecordDecompressor};
use laz::*;
use serde_json::{json, Value};
use std::io::Cursor;

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}
fn n(o: &Value, k: &str) -> u64 {
    o.get(k).and_then(|x| x.as_u64()).unwrap_or(0)
}
fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

pub fn run(o: &Value) -> Value {
    match s(o, "op") {
        "chunk" => chunk(o),
        "read" => read(o),
        "code" => code(o),
        "decode" => decode(o),
        x => json!({"res":"tool","why":x}),
    }
}

fn layout(o: &Value) -> Layout {
    Layout::new(n(o, "fmt") as u8, n(o, "ver") as u16, n(o, "eb") as u16)
}
fn fnv(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// Points that some random bytes decode to: every branch of the codec is about as likely as any other.
///
/// With `carry`, only the first bytes are random and all others 0, but the last points are others: the coder's interval
/// straddles a number all along, and the carries that decide come in the end.
pub fn decoded(lay: &Layout, count: usize, seed: u64, carry: bool) -> Vec<u8> {
    let mut r = gen::Rng::new(seed);
    let mut out = vec![];
    let mut tries = 0;
    while out.len() < count * lay.size && tries < 30 {
        tries += 1;
        let bias = if carry { 5 } else { r.below(5) };
        let mut byte = |r: &mut gen::Rng, k: usize| -> u8 {
            match bias {
                5 => if k < 4 { r.next() as u8 } else { 0 },
                0 | 1 => r.next() as u8,
                2 => (r.next() & r.next()) as u8,
                3 => (r.next() | r.next()) as u8,
                _ => if r.chance(1, 3) { r.next() as u8 } else { 0 },
            }
        };
        let mut data: Vec<u8> = (0..lay.size).map(|k| byte(&mut r, k)).collect();
        if lay.layered() {
            data.extend_from_slice(&(count as u32).to_le_bytes());
            let nl = 9 + if matches!(lay.fmt, 7 | 8 | 10) { 1 } else { 0 } + if matches!(lay.fmt, 8 | 10) { 1 } else { 0 }
                + if matches!(lay.fmt, 9 | 10) { 1 } else { 0 } + lay.eb as usize;
            let sz = count * 40 + 64;
            let sizes: Vec<usize> = (0..nl).map(|k| if k >= 2 && r.chance(1, 8) { 0 } else { sz }).collect();
            for z in &sizes {
                data.extend_from_slice(&(*z as u32).to_le_bytes());
            }
            for z in &sizes {
                for k in 0..*z {
                    data.push(byte(&mut r, k));
                }
            }
        } else {
            for k in 0..count * (lay.size * 3 + 64) {
                data.push(byte(&mut r, k));
            }
        }
        let vlr = match lay.vlr(if lay.layered() { 3 } else { 2 }, count.max(1) as u32) {
            Ok(v) => v,
            Err(_) => break,
        };
        let _ = guard(|| -> laz::Result<()> {
            let mut p = vec![0u8; lay.size];
            let mut go = |d: &mut dyn RecordDecompressor<Cursor<&Vec<u8>>>| -> laz::Result<()> {
                while out.len() < count * lay.size {
                    d.decompress_next(&mut p)?;
                    out.extend_from_slice(&p);
                }
                Ok(())
            };
            if lay.layered() {
                let mut d = LayeredPointRecordDecompressor::new(Cursor::new(&data));
                d.set_fields_from(vlr.items())?;
                d.set_selection(DecompressionSelection::all());
                go(&mut d)
            } else {
                let mut d = SequentialPointRecordDecompressor::new(Cursor::new(&data));
                d.set_fields_from(vlr.items())?;
                go(&mut d)
            }
        });
    }
    if carry && out.len() > 3 * lay.size {
        let at = out.len() - 2 * lay.size;
        out.truncate(at);
        out.extend_from_slice(&gen::points(lay, 2, "rand", seed));
    }
    if out.is_empty() { gen::points(lay, count, "rand", seed) } else { out }
}

/// Compresses points (given, or generated) as one chunk.
fn chunk(o: &Value) -> Value {
    let lay = layout(o);
    let pts = if o.get("pts").is_some() { unhex(s(o, "pts")) } else if s(o, "prof") == "dec" || s(o, "prof") == "carry" {
        decoded(&lay, n(o, "n") as usize, n(o, "seed"), s(o, "prof") == "carry")
    } else { gen::points(&lay, n(o, "n") as usize, s(o, "prof"), n(o, "seed")) };
    let count = pts.len() / lay.size;
    let r = guard(|| -> laz::Result<Vec<u8>> {
        let vlr = lay.vlr(if lay.layered() { 3 } else { 2 }, count.max(1) as u32)?;
        let mut out = Cursor::new(vec![]);
        compress_buffer(&mut out, &pts, vlr)?;
        Ok(out.into_inner())
    });
    let digest = o.get("digest").is_some();
    let show = |b: &[u8]| if digest { fnv(b) } else { hex(b) };
    match r {
        Ok(Ok(b)) => {
            let at = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let c = b[8..at].to_vec();
            // another way to the same bytes: the chunk compressor alone
            let vlr = lay.vlr(if lay.layered() { 3 } else { 2 }, count.max(1) as u32).unwrap();
            let same = matches!(canon_chunk(&vlr, lay.layered(), &pts), Ok(Ok(x)) if x == c);
            let mut v = json!({"res":"ok","pts":show(&pts),"chunk":show(&c),"same":same,"len":c.len()});
            if digest {
                let mut back = vec![0u8; pts.len()];
                let d = decode_chunk(&vlr, lay.layered(), &c, &mut back);
                v["back"] = json!(matches!(d, Ok(Ok(()))) && back == pts);
            }
            v
        }
        Ok(Err(e)) => json!({"res":"err","why":e.to_string(),"pts":show(&pts)}),
        Err(p) => json!({"res":"panic","why":panic_text(p),"pts":show(&pts)}),
    }
}

/// Reads points from the bytes of a chunk, as the file has them, in three ways.
fn read(o: &Value) -> Value {
    let lay = layout(o);
    let count = n(o, "n");
    let c = unhex(s(o, "chunk"));
    let size = lay.size * count as usize;
    let vlr = match lay.vlr(if lay.layered() { 3 } else { 2 }, count.max(1) as u32) {
        Ok(v) => v,
        Err(e) => return json!({"res":"err","why":e.to_string()}),
    };
    let mut stream = vec![0u8; 8];
    stream.extend_from_slice(&c);
    let at = stream.len() as i64;
    stream[..8].copy_from_slice(&at.to_le_bytes());
    let mut t = ChunkTable::with_capacity(1);
    t.push(ChunkTableEntry { point_count: count, byte_count: c.len() as u64 });
    t.write_to(&mut stream, &vlr).unwrap();
    let mut outs = vec![];
    let mut a = vec![0u8; size];
    let r = laz_of(guard(|| -> laz::Result<()> {
        let mut d = LasZipDecompressor::new(Cursor::new(&stream), vlr.clone())?;
        d.decompress_many(&mut a)?;
        Ok(())
    }));
    outs.push(json!([r.0, r.1, hex(&a)]));
    let mut a = vec![0u8; size];
    let r = laz_of(guard(|| -> laz::Result<()> {
        let mut d = ParLasZipDecompressor::new(Cursor::new(&stream), vlr.clone())?;
        d.decompress_many(&mut a)
    }));
    outs.push(json!([r.0, r.1, hex(&a)]));
    let mut a = vec![0u8; size];
    let r = laz_of(decode_chunk(&vlr, lay.layered(), &c, &mut a));
    outs.push(json!([r.0, r.1, hex(&a)]));
    if !lay.layered() {
        // the same bytes, in a file without chunks
        let mut a = vec![0u8; size];
        let r = laz_of(guard(|| -> laz::Result<()> {
            let mut d = LasZipDecompressor::new(Cursor::new(&c), lay.vlr(1, 0)?)?;
            for p in a.chunks_exact_mut(lay.size) {
                d.decompress_one(p)?;
            }
            Ok(())
        }));
        outs.push(json!([r.0, r.1, hex(&a)]));
    }
    json!({"res":"ok","outs":outs})
}

fn comps(o: &Value) -> Vec<[u32; 4]> {
    o.get("ints")
        .and_then(|x| x.as_array())
        .map(|a| {
            a.iter()
                .map(|x| {
                    let mut r = [0; 4];
                    for k in 0..4 {
                        r[k] = x[k].as_u64().unwrap() as u32;
                    }
                    r
                })
                .collect()
        })
        .unwrap_or_default()
}
fn models(o: &Value, compress: bool) -> Vec<ArithmeticModel> {
    o.get("syms")
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| ArithmeticModel::new(x.as_u64().unwrap() as u32, compress, &[])).collect())
        .unwrap_or_default()
}

fn encode_ops(o: &Value) -> std::io::Result<Vec<u8>> {
    let mut e = ArithmeticEncoder::new(vec![]);
    let mut syms = models(o, true);
    let mut bits: Vec<ArithmeticBitModel> = (0..n(o, "bits")).map(|_| ArithmeticBitModel::new()).collect();
    let mut ints: Vec<IntegerCompressor> = comps(o)
        .iter()
        .map(|c| {
            let mut i = IntegerCompressor::new(c[0], c[1], c[2], c[3]);
            i.init();
            i
        })
        .collect();
    let u = |x: &Value| x.as_u64().unwrap();
    for x in o["ops"].as_array().unwrap() {
        match x[0].as_str().unwrap() {
            "s" => e.encode_symbol(&mut syms[u(&x[1]) as usize], u(&x[2]) as u32)?,
            "b" => e.encode_bit(&mut bits[u(&x[1]) as usize], u(&x[2]) as u32)?,
            "r" => e.write_bits(u(&x[1]) as u32, u(&x[2]) as u32)?,
            "w1" => e.write_bit(u(&x[1]) as u32)?,
            "w8" => e.write_byte(u(&x[1]) as u8)?,
            "w16" => e.write_short(u(&x[1]) as u16)?,
            "w32" => e.write_int(u(&x[1]) as u32)?,
            "w64" => e.write_int64(u(&x[1]))?,
            "i" => ints[u(&x[1]) as usize].compress(&mut e, x[3].as_i64().unwrap() as i32, x[4].as_i64().unwrap() as i32, u(&x[2]) as u32)?,
            k => panic!("tool: {k}"),
        }
    }
    e.done()?;
    Ok(e.into_inner())
}
fn decode_ops(o: &Value, data: &[u8]) -> std::io::Result<(Vec<Value>, usize)> {
    let mut cur = Cursor::new(data);
    let mut d = ArithmeticDecoder::new(&mut cur);
    d.read_init_bytes()?;
    let mut syms = models(o, false);
    let mut bits: Vec<ArithmeticBitModel> = (0..n(o, "bits")).map(|_| ArithmeticBitModel::new()).collect();
    let mut ints: Vec<IntegerDecompressor> = comps(o)
        .iter()
        .map(|c| {
            let mut i = IntegerDecompressor::new(c[0], c[1], c[2], c[3]);
            i.init();
            i
        })
        .collect();
    let u = |x: &Value| x.as_u64().unwrap();
    let mut out = vec![];
    for x in o["ops"].as_array().unwrap() {
        out.push(match x[0].as_str().unwrap() {
            "s" => json!(d.decode_symbol(&mut syms[u(&x[1]) as usize])?),
            "b" => json!(d.decode_bit(&mut bits[u(&x[1]) as usize])?),
            "r" => json!(d.read_bits(u(&x[1]) as u32)?),
            "w1" => json!(d.read_bit()?),
            "w8" => json!(d.read_bits(8)?),
            "w16" => json!(d.read_bits(16)?),
            "w32" => json!(d.read_int()?),
            "w64" => json!(d.read_int_64()?),
            "i" => json!(ints[u(&x[1]) as usize].decompress(&mut d, x[3].as_i64().unwrap() as i32, u(&x[2]) as u32)?),
            k => panic!("tool: {k}"),
        });
    }
    drop(d);
    Ok((out, cur.position() as usize))
}
fn of<T>(r: std::thread::Result<std::io::Result<T>>) -> std::result::Result<T, (String, String)> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(("err".into(), e.to_string())),
        Err(p) => Err(("panic".into(), panic_text(p))),
    }
}
/// Encodes operations.
fn code(o: &Value) -> Value {
    match of(guard(|| encode_ops(o))) {
        Ok(b) => json!({"res":"ok","bytes":hex(&b)}),
        Err((r, w)) => json!({"res":r,"why":w}),
    }
}
/// Decodes the given bytes with operations.
fn decode(o: &Value) -> Value {
    let b = unhex(s(o, "bytes"));
    match of(guard(|| decode_ops(o, &b))) {
        Ok((v, at)) => json!({"res":"ok","vals":v,"at":at}),
        Err((r, w)) => json!({"res":r,"why":w}),
    }
}
