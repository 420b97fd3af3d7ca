//! Single observations of the crate: VLRs, items, refusals, chunk tables, selections, files.
use crate::gen;
use crate::io::{Dev, Policy};
use crate::layout::{items_of, vlr_bytes, Layout};
use crate::session::{guard, io_of, laz_of, panic_text, pool, Out};
use crate::table;
use laz::las::file::{read_header_and_vlrs, QuickHeader, SimpleReader};
use laz::las::*;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::*;
use serde_json::{json, Value};
use std::io::{Cursor, Read, Result as IoResult, Seek, SeekFrom};

fn u(v: &Value, k: &str, d: u64) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(d)
}
fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}
fn st<'a>(v: &'a Value, k: &str, d: &'a str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or(d)
}
fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
fn bytes(v: &Value, k: &str) -> Vec<u8> {
    v.get(k).and_then(|x| x.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
fn triples(v: &Value, k: &str) -> Vec<(u16, u16, u16)> {
    v.get(k)
        .and_then(|x| x.as_array())
        .map(|a| {
            a.iter()
                .map(|x| {
                    let q: Vec<u64> = x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap()).collect();
                    (q[0] as u16, q[1] as u16, q[2] as u16)
                })
                .collect()
        })
        .unwrap_or_default()
}
fn jitems(v: &[LazItem]) -> Value {
    Value::Array(v.iter().map(|x| json!([u16::from(x.item_type()), x.size(), x.version()])).collect())
}

pub fn run(o: &Value) -> Value {
    let mut v = match st(o, "op", "") {
        "vlr" => vlr(o),
        "items" => items(o),
        "build" => build(o),
        "refuse" => refuse(o),
        "ct" => ct(o),
        "ctread" => ctread(o),
        "file" => file(o),
        "selops" => selops(o),
        "pair" => pair(o),
        x => json!({"op":"tool","why":x}),
    };
    // the scenario is part of the observation
    for (k, x) in o.as_object().unwrap() {
        if v.get(k).is_none() {
            v[k] = x.clone();
        }
    }
    v
}

// ------------------------------------------------------------------ VLR
fn vlr(o: &Value) -> Value {
    let inp = bytes(o, "bytes");
    let r = guard(|| LazVlr::from_buffer(&inp));
    let none: Vec<u8> = vec![];
    match r {
        Err(p) => json!({"res":"panic","why":panic_text(p),"out":none,"var":false,"cs":none,"items":[],"psz":0,"again":false}),
        Ok(Err(e)) => json!({"res":"err","why":e.to_string(),"out":none,"var":false,"cs":none,"items":[],"psz":0,"again":false}),
        Ok(Ok(v)) => {
            let mut out = vec![];
            let w = io_of(guard(|| v.write_to(&mut out)));
            let again = matches!(LazVlr::read_from(&out[..]), Ok(x) if x == v);
            json!({"res": if w.0 == "ok" {"ok"} else {"panic"}, "why": w.1, "out": out, "var": v.uses_variable_size_chunks(),
                "cs": v.chunk_size().to_le_bytes().to_vec(), "items": jitems(v.items()), "psz": v.items_size(), "again": again})
        }
    }
}

fn items_by(fmt: u8, ver: u64, eb: u16) -> Option<Vec<LazItem>> {
    use LazItemRecordBuilder as B;
    Some(match (ver, fmt) {
        (1, 0) => B::version_1_of::<Point0>(eb),
        (1, 1) => B::version_1_of::<Point1>(eb),
        (1, 2) => B::version_1_of::<Point2>(eb),
        (1, 3) => B::version_1_of::<Point3>(eb),
        (1, 4) => B::version_1_of::<Point4>(eb),
        (1, 5) => B::version_1_of::<Point5>(eb),
        (2, 0) => B::version_2_of::<Point0>(eb),
        (2, 1) => B::version_2_of::<Point1>(eb),
        (2, 2) => B::version_2_of::<Point2>(eb),
        (2, 3) => B::version_2_of::<Point3>(eb),
        (2, 4) => B::version_2_of::<Point4>(eb),
        (2, 5) => B::version_2_of::<Point5>(eb),
        (3, 6) => B::version_3_of::<Point6>(eb),
        (3, 7) => B::version_3_of::<Point7>(eb),
        (3, 8) => B::version_3_of::<Point8>(eb),
        (3, 9) => B::version_3_of::<Point9>(eb),
        (3, 10) => B::version_3_of::<Point10>(eb),
        (4, 6) => B::version_4_of::<Point6>(eb),
        (4, 7) => B::version_4_of::<Point7>(eb),
        (4, 8) => B::version_4_of::<Point8>(eb),
        (4, 9) => B::version_4_of::<Point9>(eb),
        (4, 10) => B::version_4_of::<Point10>(eb),
        (5, 0) => B::default_version_of::<Point0>(eb),
        (5, 1) => B::default_version_of::<Point1>(eb),
        (5, 2) => B::default_version_of::<Point2>(eb),
        (5, 3) => B::default_version_of::<Point3>(eb),
        (5, 4) => B::default_version_of::<Point4>(eb),
        (5, 5) => B::default_version_of::<Point5>(eb),
        (5, 6) => B::default_version_of::<Point6>(eb),
        (5, 7) => B::default_version_of::<Point7>(eb),
        (5, 8) => B::default_version_of::<Point8>(eb),
        (5, 9) => B::default_version_of::<Point9>(eb),
        (5, 10) => B::default_version_of::<Point10>(eb),
        _ => return None,
    })
}

/// ver: 0 by format id, 1..4 that version, 5 the default version of the type, 6 the item builder
fn items(o: &Value) -> Value {
    let (fmt, ver, eb) = (u(o, "fmt", 0) as u8, u(o, "ver", 0), u(o, "eb", 0) as u16);
    let r = guard(|| -> laz::Result<Vec<LazItem>> {
        if ver == 0 {
            LazItemRecordBuilder::default_for_point_format_id(fmt, eb)
        } else if ver == 6 {
            let mut bld = LazItemRecordBuilder::new();
            for (t, _, _) in items_of(fmt, 2, eb) {
                bld.add_item(item_type(t, eb));
            }
            Ok(bld.build())
        } else {
            items_by(fmt, ver, eb).ok_or(LasZipError::UnsupportedPointFormat(fmt))
        }
    });
    match r {
        Err(p) => json!({"res":"panic","why":panic_text(p),"items":[]}),
        Ok(Err(e)) => json!({"res":"err","why":e.to_string(),"items":[]}),
        Ok(Ok(v)) => json!({"res":"ok","items":jitems(&v)}),
    }
}
fn item_type(t: u16, n: u16) -> LazItemType {
    match t {
        0 => LazItemType::Byte(n),
        6 => LazItemType::Point10,
        7 => LazItemType::GpsTime,
        8 => LazItemType::RGB12,
        9 => LazItemType::WavePacket13,
        10 => LazItemType::Point14,
        11 => LazItemType::RGB14,
        12 => LazItemType::RGBNIR14,
        13 => LazItemType::WavePacket14,
        _ => LazItemType::Byte14(n),
    }
}

/// how: 0 with_point_format, 1 with_laz_items, 2 new, 3 from_laz_items (chunk size stays the default)
#[allow(deprecated)]
fn build(o: &Value) -> Value {
    let (fmt, ver, eb, how) = (u(o, "fmt", 0) as u8, u(o, "ver", 2), u(o, "eb", 0) as u16, u(o, "how", 0));
    let ch = bytes(o, "chunk");
    let var = b(o, "mark");
    let r = guard(|| -> laz::Result<LazVlr> {
        let its = items_by(fmt, ver, eb).ok_or(LasZipError::UnsupportedPointFormat(fmt))?;
        let bld = match how {
            0 => LazVlrBuilder::default().with_point_format(fmt, eb)?,
            1 => LazVlrBuilder::default().with_laz_items(its),
            2 => LazVlrBuilder::new(its),
            _ => return Ok(LazVlr::from_laz_items(its)),
        };
        let bld = if var {
            bld.with_variable_chunk_size()
        } else if ch.len() == 4 {
            let n = u32::from_le_bytes([ch[0], ch[1], ch[2], ch[3]]);
            if how == 2 { bld.with_chunk_size(n) } else { bld.with_fixed_chunk_size(n) }
        } else {
            bld
        };
        Ok(bld.build())
    });
    let none: Vec<u8> = vec![];
    match r {
        Err(p) => json!({"res":"panic","why":panic_text(p),"out":none,"var":false,"psz":0,"again":false}),
        Ok(Err(e)) => json!({"res":"err","why":e.to_string(),"out":none,"var":false,"psz":0,"again":false}),
        Ok(Ok(v)) => {
            let mut out = vec![];
            let _ = v.write_to(&mut out);
            let again = matches!(LazVlr::read_from(&out[..]), Ok(x) if x == v);
            json!({"res":"ok","out":out,"var":v.uses_variable_size_chunks(),"psz":v.items_size(),"again":again})
        }
    }
}

// ------------------------------------------------------------------ refusals
/// Tries one entry point with a VLR. Outcome: "vlr" (refused when read), "err", "panic", "right", "wrong".
fn refuse(o: &Value) -> Value {
    let its = triples(o, "items");
    let comp = u(o, "comp", 2) as u16;
    let var = b(o, "var");
    let entry = st(o, "entry", "wseq").to_string();
    let n = u(o, "n", 5) as usize;
    let cs = if var { u(o, "mark", 0) as u32 } else { u(o, "cs", 2) as u32 };
    let vb = vlr_bytes(&its, comp, cs);
    let v = match guard(|| LazVlr::from_buffer(&vb)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return json!({"out":"vlr","why":e.to_string()}),
        Err(p) => return json!({"out":"panic","why":panic_text(p)}),
    };
    let psz = its.iter().map(|x| x.1 as usize).sum::<usize>();
    let mut r = gen::Rng::new(u(o, "seed", 1));
    let pts: Vec<u8> = (0..n * psz).map(|_| r.next() as u8).collect();
    // the same items with the type of compressor they belong to
    let proper = its.first().map(|x| if x.2 >= 3 { 3 } else { 2 }).unwrap_or(2);
    // (an unchunked stream is made of one chunk)
    let (wvar, wcs) = if comp == 1 { (false, 1000) } else { (var, cs) };
    let pv = LazVlr::from_buffer(vlr_bytes(&its, proper, wcs));
    let stream_of = |var: bool, v: LazVlr, pts: &[u8], psz: usize| -> Option<Vec<u8>> {
        let mut cur = Cursor::new(vec![]);
        let q = guard(|| -> laz::Result<()> {
            let mut c = LasZipCompressor::new(&mut cur, v)?;
            for (k, p) in pts.chunks_exact(psz.max(1)).enumerate() {
                if var && k == 2 {
                    c.finish_current_chunk()?;
                }
                c.compress_one(p)?;
            }
            c.done()?;
            Ok(())
        });
        match q {
            Ok(Ok(())) => Some(cur.into_inner()),
            _ => None,
        }
    };
    let fallback = || {
        let lay = Layout::new(0, 2, 0);
        let p = vec![7u8; n * 20];
        stream_of(wvar, LazVlr::from_buffer(lay.vlr_bytes(2, wcs)).unwrap(), &p, 20).unwrap()
    };
    let mut stream = pv.ok().and_then(|v| stream_of(wvar, v, &pts, psz)).unwrap_or_else(fallback);
    if comp == 1 {
        // the unchunked layout
        let off = i64::from_le_bytes(stream[..8].try_into().unwrap()) as usize;
        stream = stream[8..off].to_vec();
    }
    let decode = |data: &[u8]| -> bool {
        // by the VLR the items belong to
        let Ok(pv) = LazVlr::from_buffer(vlr_bytes(&its, proper, cs)) else { return false };
        let mut buf = vec![0u8; pts.len()];
        let q = guard(|| -> laz::Result<()> {
            let mut d = LasZipDecompressor::new(Cursor::new(data), pv)?;
            d.decompress_many(&mut buf)?;
            Ok(())
        });
        matches!(q, Ok(Ok(()))) && buf == pts
    };
    let split = 2.min(n) * psz;
    let mut good = false;
    let pl = pool(2);
    let q: Out = match entry.as_str() {
        "wseq" => {
            let mut cur = Cursor::new(vec![]);
            let q = laz_of(guard(|| -> laz::Result<()> {
                let mut c = LasZipCompressor::new(&mut cur, v)?;
                c.compress_many(&pts[..split])?;
                if var {
                    c.finish_current_chunk()?;
                }
                c.compress_many(&pts[split..])?;
                c.done()?;
                Ok(())
            }));
            good = q.0 == "ok" && decode(&cur.into_inner());
            q
        }
        "wpar" => {
            let mut cur = Cursor::new(vec![]);
            let q = laz_of(guard(|| pl.install(|| -> laz::Result<()> {
                let mut c = ParLasZipCompressor::new(&mut cur, v)?;
                if var {
                    c.compress_chunks([&pts[..split], &pts[split..]])?;
                } else {
                    c.compress_many(&pts[..split])?;
                    c.compress_many(&pts[split..])?;
                }
                c.done()?;
                Ok(())
            })));
            good = q.0 == "ok" && decode(&cur.into_inner());
            q
        }
        "aseq" | "apar" => {
            let mut cur = Cursor::new(stream);
            let keep = 3.min(n);
            let rest = &pts[keep * psz..];
            let q = laz_of(guard(|| pl.install(|| -> laz::Result<()> {
                if entry == "aseq" {
                    let mut c = LasZipAppender::new(&mut cur, v, keep as u64)?;
                    c.compress_many(rest)?;
                    c.done()?;
                } else {
                    let mut c = ParLasZipAppender::new(&mut cur, v, keep as u64)?;
                    if var {
                        c.compress_chunks([rest])?;
                    } else {
                        c.compress_many(rest)?;
                    }
                    c.done()?;
                }
                Ok(())
            })));
            good = q.0 == "ok" && decode(&cur.into_inner());
            q
        }
        "rseq" | "rpar" => {
            let mut buf = vec![0u8; pts.len()];
            let q = laz_of(guard(|| pl.install(|| -> laz::Result<()> {
                if entry == "rseq" {
                    let mut d = LasZipDecompressor::new(Cursor::new(&stream), v)?;
                    d.decompress_many(&mut buf)?;
                } else {
                    let mut d = ParLasZipDecompressor::new(Cursor::new(&stream), v)?;
                    d.decompress_many(&mut buf)?;
                }
                Ok(())
            })));
            good = buf == pts;
            q
        }
        "cbuf" | "pcbuf" => {
            let mut cur = Cursor::new(vec![]);
            let q = laz_of(guard(|| pl.install(|| if entry == "cbuf" {
                compress_buffer(&mut cur, &pts, v)
            } else {
                par_compress_buffer(&mut cur, &pts, &v)
            })));
            good = q.0 == "ok" && decode(&cur.into_inner());
            q
        }
        "pc" => {
            let mut out = vec![];
            let q = laz_of(guard(|| pl.install(|| -> laz::Result<()> {
                let t = laz::laszip::parallel::par_compress(&mut out, &pts, &v)?;
                // made into a stream
                let mut s = (8 + out.len() as i64).to_le_bytes().to_vec();
                s.extend_from_slice(&out);
                t.write_to(&mut s, &v)?;
                out = s;
                Ok(())
            })));
            good = q.0 == "ok" && decode(&out);
            q
        }
        "dbuf" | "pdbuf" => {
            let mut buf = vec![0u8; pts.len()];
            let q = laz_of(guard(|| pl.install(|| if entry == "dbuf" {
                decompress_buffer(&stream, &mut buf, v)
            } else {
                par_decompress_buffer(&stream, &mut buf, &v)
            })));
            good = buf == pts;
            q
        }
        _ => {
            let mut buf = vec![0u8; pts.len()];
            // "pd": the caller's own chunk table and point bytes
            let (ent, off) = if comp == 1 {
                (vec![(n as u64, stream.len() as u64)], stream.len())
            } else {
                let off = i64::from_le_bytes(stream[..8].try_into().unwrap()) as usize;
                let (e, _) = table::parse(&stream, off, var).unwrap();
                (e, off)
            };
            let ent: Vec<ChunkTableEntry> = ent
                .iter()
                .map(|e| ChunkTableEntry { point_count: if var || comp == 1 { e.0 } else { cs as u64 }, byte_count: e.1 })
                .collect();
            let d = if comp == 1 { &stream[..] } else { &stream[8..off] };
            let q = laz_of(guard(|| pl.install(|| par_decompress(d, &mut buf, &v, &ent))));
            good = buf == pts;
            q
        }
    };
    let out = match q.0 {
        "ok" => if good { "right" } else { "wrong" },
        x => x,
    };
    json!({"out":out,"why":q.1})
}

// ------------------------------------------------------------------ chunk tables
fn entry_of(v: &Value) -> ChunkTableEntry {
    let a = v.as_array().unwrap();
    let n = |x: &Value| x.as_str().unwrap().parse::<u64>().unwrap();
    ChunkTableEntry { point_count: n(&a[0]), byte_count: n(&a[1]) }
}
fn jentries<'a>(v: impl Iterator<Item = &'a ChunkTableEntry>) -> Value {
    Value::Array(v.map(|e| json!([e.point_count.to_string(), e.byte_count.to_string()])).collect())
}
fn table_vlr(var: bool, cs: u32) -> LazVlr {
    LazVlr::from_buffer(vlr_bytes(&items_of(0, 2, 0), 2, if var { 0 } else { cs })).unwrap()
}

/// Operations on a table, then writing it and reading it back.
fn ct(o: &Value) -> Value {
    let var = b(o, "var");
    let cs = u(o, "cs", 50_000) as u32;
    let r = guard(|| -> IoResult<Value> {
        let mut t = ChunkTable::with_capacity(u(o, "cap", 0) as usize);
        let mut popped = vec![];
        for x in o["ops"].as_array().unwrap() {
            match st(x, "o", "") {
                "push" => t.push(entry_of(&x["e"])),
                "pop" => popped.push(match t.pop() {
                    None => json!([]),
                    Some(e) => json!([e.point_count.to_string(), e.byte_count.to_string()]),
                }),
                "trunc" => t.truncate(u(x, "n", 0) as usize),
                _ => {
                    let mut q = ChunkTable::default();
                    for e in x["es"].as_array().unwrap() {
                        q.push(entry_of(e));
                    }
                    t.extend(&q);
                }
            }
        }
        let mem = jentries(t.as_ref().iter());
        let it = jentries((&t).into_iter());
        let same = it == mem && t.len() == t.as_ref().len() && t.is_empty() == (t.len() == 0)
            && (0..t.len()).all(|k| t[k].byte_count == t.as_ref()[k].byte_count);
        // written somewhere in the middle of other bytes
        let mut out = vec![0xEEu8; 5];
        t.write_to(&mut out, &table_vlr(var, cs))?;
        let len = out.len() as u64;
        let parsed = table::parse(&out, 5, var).map(|(e, end)| {
            (e.iter().map(|e| json!([e.0.to_string(), e.1.to_string()])).collect::<Vec<_>>(), end as u64)
        });
        out.extend_from_slice(&[0x5A; 9]);
        let mut cur = Cursor::new(&out);
        cur.set_position(5);
        let back = ChunkTable::read(&mut cur, var)?;
        Ok(json!({"res":"ok","mem":mem,"same":same,"popped":popped,"ind": parsed.is_some(),
            "parsed": parsed.clone().map(|p| Value::Array(p.0)).unwrap_or(json!([])),
            "indend": parsed.map(|p| p.1 <= len).unwrap_or(false),
            "back": jentries(back.as_ref().iter()), "backend": cur.position() <= len}))
    });
    let e = |res: &str, why: String| {
        json!({"res":res,"why":why,"mem":[],"same":false,"popped":[],"ind":false,"parsed":[],"indend":false,"back":[],"backend":false})
    };
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(x)) => e("err", x.to_string()),
        Err(p) => e("panic", panic_text(p)),
    }
}

/// A source of which only some ranges are kept; the rest reads as a filler byte.
struct Sparse {
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(buf.len() as u64) as usize;
        for k in 0..n {
            let p = self.pos + k as u64;
            buf[k] = 0xC3;
            for (s, d) in &self.parts {
                if p >= *s && p < *s + d.len() as u64 {
                    buf[k] = d[(p - *s) as usize];
                }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        let np = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// Reading the table of a stream that starts at `start` and has these entries.
/// where: "head" offset at the start; "tail" offset at the end, `mark` at the start; "none": nowhere.
/// gap: bytes between the last chunk and the table. junk: bytes after the table.
fn ctread(o: &Value) -> Value {
    let var = b(o, "var");
    let cs = u(o, "cs", 7) as u32;
    let start: u64 = st(o, "start", "0").parse().unwrap();
    let ent: Vec<ChunkTableEntry> = o["es"].as_array().unwrap().iter().map(entry_of).collect();
    let wher = st(o, "where", "head");
    let total: u64 = ent.iter().map(|e| e.byte_count).sum();
    let at = start + 8 + total + u(o, "gap", 0);
    let mut t = ChunkTable::default();
    for e in &ent {
        t.push(*e);
    }
    let mut tb = vec![];
    let v = table_vlr(var, cs);
    if t.write_to(&mut tb, &v).is_err() {
        return json!({"op":"broke","why":"table not written"});
    }
    tb.extend(std::iter::repeat(0x11).take(u(o, "junk", 0) as usize));
    let mark = match st(o, "mark", "neg") {
        "neg" => -1i64,
        "self" => start as i64,
        "zero" => 0,
        _ => i64::MIN,
    };
    let head = if wher == "head" { at as i64 } else { mark };
    match wher {
        "tail" => tb.extend_from_slice(&(at as i64).to_le_bytes()),
        "none" => tb.extend_from_slice(&mark.to_le_bytes()),
        _ => {}
    }
    let len = at + tb.len() as u64;
    let mut src = Sparse { parts: vec![(start, head.to_le_bytes().to_vec()), (at, tb)], len, pos: start };
    let r = guard(|| -> laz::Result<(ChunkTable, u64)> {
        let t = ChunkTable::read_from(&mut src, &v)?;
        let p = src.stream_position()?;
        Ok((t, p))
    });
    match r {
        Ok(Ok((t, p))) => json!({"res":"ok","back":jentries(t.as_ref().iter()),"atdata": p == start + 8,"css":cs.to_string()}),
        Ok(Err(e)) => json!({"res":"err","why":e.to_string(),"back":[],"atdata":false,"css":cs.to_string()}),
        Err(p) => json!({"res":"panic","why":panic_text(p),"back":[],"atdata":false,"css":cs.to_string()}),
    }
}

// ------------------------------------------------------------------ selections
macro_rules! fields {
    ($m:ident) => {
        $m!(
            "z", decompress_z, skip_z, should_decompress_z;
            "classification", decompress_classification, skip_classification, should_decompress_classification;
            "flags", decompress_flags, skip_flags, should_decompress_flags;
            "intensity", decompress_intensity, skip_intensity, should_decompress_intensity;
            "scan_angle", decompress_scan_angle, skip_scan_angle, should_decompress_scan_angle;
            "user_data", decompress_user_data, skip_user_data, should_decompress_user_data;
            "point_source_id", decompress_point_source_id, skip_point_source_id, should_decompress_point_source_id;
            "gps_time", decompress_gps_time, skip_gps_time, should_decompress_gps_time;
            "rgb", decompress_rgb, skip_rgb, should_decompress_rgb;
            "nir", decompress_nir, skip_nir, should_decompress_nir;
            "wavepacket", decompress_wavepacket, skip_wavepacket, should_decompress_wavepacket;
            "extra_bytes", decompress_extra_bytes, skip_extra_bytes, should_decompress_extra_bytes;
        )
    };
}
fn selops(o: &Value) -> Value {
    let mut s = match st(o, "base", "all") {
        "all" => DecompressionSelection::all(),
        "base" => DecompressionSelection::base(),
        _ => DecompressionSelection::xy_returns_channel(),
    };
    for c in o["calls"].as_array().unwrap() {
        let a = c.as_array().unwrap();
        let (what, f) = (a[0].as_str().unwrap(), a[1].as_str().unwrap());
        macro_rules! apply {
            ($($n:expr, $d:ident, $s:ident, $q:ident;)*) => {
                match f { $($n => s = if what == "take" { s.$d() } else { s.$s() },)* _ => {} }
            };
        }
        fields!(apply);
    }
    let mut on = vec![];
    macro_rules! query {
        ($($n:expr, $d:ident, $s:ident, $q:ident;)*) => { $(if s.$q() { on.push($n); })* };
    }
    fields!(query);
    // and which bytes of a point the crate then gives
    let lay = Layout::new(10, if b(o, "v4") { 4 } else { 3 }, 2);
    let n = 40;
    let pts = gen::points(&lay, n, "rand", u(o, "seed", 1));
    let v = lay.vlr(3, 15).unwrap();
    let mut cur = Cursor::new(vec![]);
    let mut right: Vec<&str> = vec![];
    let q = guard(|| -> laz::Result<()> {
        compress_buffer(&mut cur, &pts, v.clone())?;
        let mut d = LasZipDecompressor::selective(Cursor::new(cur.get_ref()), v.clone(), s)?;
        let mut buf = vec![0u8; pts.len()];
        d.decompress_many(&mut buf)?;
        let names = ["z", "classification", "flags", "intensity", "scan_angle", "user_data", "point_source_id", "gps_time", "rgb", "nir",
            "wavepacket", "extra_bytes"];
        let m0 = lay.mask(0);
        for (k, nm) in names.iter().enumerate() {
            let m = lay.mask(1 << k);
            let ok = buf.chunks(lay.size).zip(pts.chunks(lay.size)).all(|(a, p)| (0..lay.size).all(|x| (a[x] ^ p[x]) & (m[x] & !m0[x]) == 0));
            if ok {
                right.push(nm);
            }
        }
        if buf.chunks(lay.size).zip(pts.chunks(lay.size)).all(|(a, p)| (0..lay.size).all(|x| (a[x] ^ p[x]) & m0[x] == 0)) {
            right.push("base");
        }
        Ok(())
    });
    let q = laz_of(q);
    json!({"res":q.0,"why":q.1,"on":on,"right":right})
}

// ------------------------------------------------------------------ files
/// A LAS or LAZ file made from the LAS specification, read with SimpleReader.
fn file(o: &Value) -> Value {
    let minor = u(o, "minor", 2) as u8;
    let fmt = u(o, "fmt", 0) as u8;
    let eb = u(o, "eb", 0) as u16;
    let ver = u(o, "ver", if fmt >= 6 { 3 } else { 2 }) as u16;
    let n = u(o, "n", 5) as usize;
    let count = u(o, "count", n as u64);
    let laz = b(o, "laz");
    let cs = u(o, "cs", 3) as u32;
    let var = b(o, "var");
    let lay = Layout::new(fmt, ver, eb);
    let pts = gen::points(&lay, n, st(o, "prof", "mix"), u(o, "seed", 1));
    let mut r = gen::Rng::new(u(o, "seed", 1) ^ 0x77);
    let hs = match minor {
        0..=2 => 227usize,
        3 => 235,
        _ => 375,
    } + u(o, "hextra", 0) as usize;
    let mut h: Vec<u8> = (0..hs).map(|_| r.next() as u8).collect();
    let (before, after): (Vec<u64>, Vec<u64>) = {
        let f = |k: &str| o.get(k).and_then(|x| x.as_array()).map(|a| a.iter().map(|y| y.as_u64().unwrap()).collect()).unwrap_or_default();
        (f("before"), f("after"))
    };
    let mut vl: Vec<u8> = vec![];
    let mut nv = 0u32;
    let other = |vl: &mut Vec<u8>, r: &mut gen::Rng, len: u64| {
        vl.extend_from_slice(&(r.next() as u16).to_le_bytes());
        // half of them look like the laszip VLR, but are not
        let mut id = [0u8; 16];
        let k = r.below(4);
        let (name, rid): (&[u8], u16) = match k {
            0 => (b"LASF_Projection", 22204),
            1 => (b"laszip encoded", 22203),
            2 => (b"laszip", 22204),
            _ => (b"LASF_Spec", 4),
        };
        id[..name.len()].copy_from_slice(name);
        vl.extend_from_slice(&id);
        vl.extend_from_slice(&rid.to_le_bytes());
        vl.extend_from_slice(&(len as u16).to_le_bytes());
        vl.extend_from_slice(&[0x20; 32]);
        for _ in 0..len {
            vl.push(r.next() as u8);
        }
    };
    for l in &before {
        other(&mut vl, &mut r, *l);
        nv += 1;
    }
    let comp = if lay.layered() { 3 } else if b(o, "pw1") { 1 } else { 2 };
    if laz {
        let d = lay.vlr_bytes(comp, if var { 0 } else { cs });
        vl.extend_from_slice(&[0, 0]);
        let mut id = [0u8; 16];
        id[..14].copy_from_slice(b"laszip encoded");
        vl.extend_from_slice(&id);
        vl.extend_from_slice(&22204u16.to_le_bytes());
        vl.extend_from_slice(&(d.len() as u16).to_le_bytes());
        vl.extend_from_slice(&[0; 32]);
        vl.extend_from_slice(&d);
        nv += 1;
    }
    for l in &after {
        other(&mut vl, &mut r, *l);
        nv += 1;
    }
    let gap = u(o, "gap", 0) as usize;
    let off = hs + vl.len() + gap;
    let psz = lay.size;
    h[..4].copy_from_slice(b"LASF");
    h[24] = 1;
    h[25] = minor;
    h[94..96].copy_from_slice(&(hs as u16).to_le_bytes());
    h[96..100].copy_from_slice(&(off as u32).to_le_bytes());
    h[100..104].copy_from_slice(&nv.to_le_bytes());
    h[104] = fmt | if laz { 0x80 } else { 0 };
    h[105..107].copy_from_slice(&(psz as u16).to_le_bytes());
    if minor >= 4 {
        let legacy = if fmt >= 6 { 0 } else { count as u32 };
        h[107..111].copy_from_slice(&legacy.to_le_bytes());
        h[247..255].copy_from_slice(&count.to_le_bytes());
    } else {
        h[107..111].copy_from_slice(&(count as u32).to_le_bytes());
    }
    let mut f = h;
    f.extend_from_slice(&vl);
    for _ in 0..gap {
        f.push(r.next() as u8);
    }
    assert_eq!(f.len(), off);
    if laz {
        let mut cur = Cursor::new(f);
        cur.seek(SeekFrom::End(0)).unwrap();
        let wv = lay.vlr(if comp == 1 { 2 } else { comp }, if var { 0 } else if comp == 1 { n.max(1) as u32 } else { cs }).unwrap();
        let ok = guard(|| -> laz::Result<()> {
            let mut c = LasZipCompressor::new(&mut cur, wv)?;
            for (k, p) in pts.chunks_exact(psz).enumerate() {
                if var && k > 0 && k % cs as usize == 0 {
                    c.finish_current_chunk()?;
                }
                c.compress_one(p)?;
            }
            c.done()?;
            Ok(())
        });
        if !matches!(ok, Ok(Ok(()))) {
            return json!({"open":"panic","why":"not written","got":0,"right":false,"end":"none","later":[],"hdr":false,"rhv":"none","full":0,"have":0,"cap":n,"psz":psz,"count":count.min(1 << 28),"n":n});
        }
        f = cur.into_inner();
        if comp == 1 {
            let t = i64::from_le_bytes(f[off..off + 8].try_into().unwrap()) as usize;
            let body = f[off + 8..t].to_vec();
            f.truncate(off);
            f.extend_from_slice(&body);
        }
    } else {
        f.extend_from_slice(&pts);
    }
    let full = (f.len() - off) as u64;
    if let Some(c) = o.get("cut").and_then(|x| x.as_u64()) {
        // what is left of the points' bytes (negative: cuts the header)
        f.truncate(off + (c as usize).min(full as usize));
    }
    if let Some(c) = o.get("hcut").and_then(|x| x.as_u64()) {
        f.truncate((c as usize).min(off));
    }
    let have = f.len() as i64 - off as i64;
    for _ in 0..u(o, "tail", 0) {
        f.push(r.next() as u8);
    }
    let dev = Dev::new(f, r.below(50), 0);
    if let Some(p) = o.get("dev") {
        dev.lock().pol = Policy { short: u(p, "short", 0), intr: u(p, "intr", 0), seekable: true, ..Default::default() };
    }
    // observed
    let mut later = vec![];
    let mut got = 0u64;
    let mut right = true;
    let mut end = "none".to_string();
    let mut hdr = false;
    // the header and the VLRs on their own leave the source at the points
    let mut d1 = dev.clone();
    let rhv = match guard(|| read_header_and_vlrs(&mut d1)) {
        Err(_) => "panic",
        Ok(Err(_)) => "err",
        Ok(Ok((q, v))) => {
            let same = match &v {
                Some(v) => laz && v.items_size() as usize == psz && v.uses_variable_size_chunks() == (var && comp != 1),
                None => !laz,
            };
            let at = dev.lock().pos;
            if same && q.offset_to_points == off as u32 && q.num_points == count && at == off as u64
                && q.point_format_id == (fmt | if laz { 0x80 } else { 0 }) && guard(|| q.num_extra_bytes()).ok() == Some(eb)
            {
                "right"
            } else {
                "wrong"
            }
        }
    };
    dev.lock().pos = 0;
    let d2 = dev.clone();
    let rd = guard(|| SimpleReader::new(d2));
    let (open, why): (&str, String) = match rd {
        Err(p) => ("panic", panic_text(p)),
        Ok(Err(e)) => ("err", e.to_string()),
        Ok(Ok(mut x)) => {
            hdr = {
                let q: &QuickHeader = &x.header;
                q.major == 1 && q.minor == minor && q.offset_to_points == off as u32 && q.num_vlrs == nv && q.point_format_id == fmt
                    && q.point_size as usize == psz && q.num_points == count && q.header_size as usize == hs
                    && guard(|| q.num_extra_bytes()).ok() == Some(eb)
            };
            if b(o, "all") {
                let mut buf = vec![];
                match guard(|| x.read_to_end(&mut buf)) {
                    Ok(Ok(k)) => {
                        got = k as u64;
                        let l = buf.len().min(pts.len());
                        right = buf.len() == k * psz && buf[..l] == pts[..l];
                    }
                    Ok(Err(_)) => end = "err".into(),
                    Err(_) => end = "panic".into(),
                }
            } else {
                for k in 0..count.min(n as u64 + 200_000) + 1 {
                    let want = if (k as usize) < n { Some(pts[k as usize * psz..(k as usize + 1) * psz].to_vec()) } else { None };
                    let q = guard(|| x.read_next().map(|y| y.map(|p| want.as_deref() == Some(p))));
                    match q {
                        Ok(Some(Ok(ok))) => {
                            got += 1;
                            right = right && (ok || k >= n as u64);
                        }
                        Ok(Some(Err(_))) => {
                            end = "err".into();
                            break;
                        }
                        Ok(None) => {
                            end = "none".into();
                            break;
                        }
                        Err(_) => {
                            end = "panic".into();
                            break;
                        }
                    }
                }
            }
            for _ in 0..3 {
                later.push(match guard(|| x.read_next().map(|y| y.is_ok())) {
                    Ok(None) => "none",
                    Ok(Some(true)) => "ok",
                    Ok(Some(false)) => "err",
                    Err(_) => "panic",
                });
            }
            ("ok", String::new())
        }
    };
    let _ = i(o, "x", 0);
    // how many points the chunks can hold
    let cap = if !laz || var && comp != 1 { n as u64 } else if comp == 1 { 1 << 28 } else { (n as u64 + cs as u64 - 1) / cs as u64 * cs as u64 };
    json!({"cap":cap,"open":open,"why":why,"got":got,"right":right,"end":end,"later":later,"hdr":hdr,"rhv":rhv,"full":full,"have":have,"psz":psz,"count":count.min(1 << 28),"n":n})
}

/// A LAZ file written by another program and the LAS file it was made from.
fn pair(o: &Value) -> Value {
    let las = std::fs::read(st(o, "las", "")).unwrap_or_default();
    let laz = std::fs::read(st(o, "laz", "")).unwrap_or_default();
    let at = |k: usize| u32::from_le_bytes(las[k..k + 4].try_into().unwrap()) as usize;
    let (off, n, psz) = (at(96), at(107), u16::from_le_bytes(las[105..107].try_into().unwrap()) as usize);
    let n = if las[25] >= 4 { u64::from_le_bytes(las[247..255].try_into().unwrap()) as usize } else { n };
    let all = |d: &[u8]| guard(|| -> IoResult<(Vec<u8>, u64)> {
        let mut r = SimpleReader::new(Cursor::new(d))?;
        let mut v = vec![];
        let k = r.read_to_end(&mut v)?;
        Ok((v, k as u64))
    });
    let want = las[off..off + n * psz].to_vec();
    let right = |x: std::thread::Result<IoResult<(Vec<u8>, u64)>>| match x {
        Err(_) => "panic",
        Ok(Err(_)) => "err",
        Ok(Ok((v, k))) => if v == want && k == n as u64 { "right" } else { "wrong" },
    };
    json!({"n":n,"fromlas":right(all(&las)),"fromlaz":right(all(&laz))})
}
