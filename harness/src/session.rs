//! Executes one scripted session against the real crate and records what was observed.
use crate::gen;
use crate::io::Dev;
use crate::layout::Layout;
use crate::table;
use laz::laszip::ChunkTable;
use laz::record::{
    LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor, RecordDecompressor,
    SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
};
use laz::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: OnceLock<Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let m = POOLS.get_or_init(|| Mutex::new(HashMap::new()));
    let mut g = m.lock().unwrap();
    g.entry(n)
        .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone()
}

enum W {
    Seq(LasZipCompressor<'static, Dev>),
    Par(ParLasZipCompressor<Dev>),
    ASeq(LasZipAppender<'static, Dev>),
    APar(ParLasZipAppender<Dev>),
}
enum R {
    Seq(LasZipDecompressor<'static, Dev>),
    Par(ParLasZipDecompressor<Dev>),
}

/// A chunk handed to compress_chunks whose first access waits for its turn.
struct Item {
    data: Vec<u8>,
    turn_of: usize,
    seen: AtomicBool,
    gate: Option<Arc<(Mutex<usize>, Condvar)>>,
}
impl AsRef<[u8]> for Item {
    fn as_ref(&self) -> &[u8] {
        if let Some(g) = &self.gate {
            if !self.seen.swap(true, Ordering::SeqCst) {
                let deadline = Instant::now() + Duration::from_millis(25);
                let mut t = g.0.lock().unwrap();
                while *t < self.turn_of {
                    let left = deadline.saturating_duration_since(Instant::now());
                    if left.is_zero() {
                        break;
                    }
                    t = g.1.wait_timeout(t, left).unwrap().0;
                }
                *t += 1;
                g.1.notify_all();
            }
        }
        &self.data
    }
}

pub struct Ctx {
    /// chunk size stated in the VLR of an unchunked stream
    vcs: u32,
    pub lay: Layout,
    pub comp: u16,
    pub var: bool,
    pub cs: u32,
    pub start: u64,
    pub abs: u64, // absolute position of the first byte kept (the stream is at abs + start)
    pub tail: usize,
    pub pts: Vec<u8>,
    pub n: usize,
    index: HashMap<Vec<u8>, usize>,
    index_mask: Vec<u8>,
    mask: Vec<u8>,
    next: usize,        // next pool point to write
    content: Vec<usize>, // what has been written, as pool ids (a hint for naming what is read)
    chunks: Vec<usize>, // sizes of groups closed so far (a hint for the byte comparison)
    open_group: usize,
    cursor: usize,
    th: usize,
    prefix: Vec<u8>,
    suffix: Vec<u8>,
    log: Vec<(u64, Vec<u8>)>,
    base: Vec<u8>,
    wpos: u64,
    over: Vec<u8>,
    /// bytes of a point that were damaged layers' fields, and their selection bits
    hurt_mask: Vec<u8>,
    hurt_bits: u32,
}

fn err_kind(e: &LasZipError) -> String {
    match e {
        LasZipError::IoError(e) => format!("io:{:?}", e.kind()),
        LasZipError::MissingChunkTable => "missing-table".into(),
        LasZipError::UnknownLazItem(_) => "unknown-item".into(),
        LasZipError::UnsupportedLazItemVersion(..) => "unsupported-version".into(),
        LasZipError::UnknownCompressorType(_) => "unknown-compressor".into(),
        LasZipError::UnsupportedCompressorType(_) => "unsupported-compressor".into(),
        LasZipError::UnsupportedPointFormat(_) => "unsupported-format".into(),
        _ => "other".into(),
    }
}

pub type Out = (&'static str, String);
pub fn io_of(r: std::thread::Result<std::io::Result<()>>) -> Out {
    match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("io:{:?}", e.kind())),
        Err(p) => ("panic", panic_text(p)),
    }
}
pub fn laz_of(r: std::thread::Result<laz::Result<()>>) -> Out {
    match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", err_kind(&e)),
        Err(p) => ("panic", panic_text(p)),
    }
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.chars().take(120).collect()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.chars().take(120).collect()
    } else {
        "panic".into()
    }
}
pub fn guard<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f))
}

/// The canonical bytes of one chunk: a fresh record compressor over exactly these points.
pub fn canon_chunk(vlr: &LazVlr, layered: bool, pts: &[u8]) -> std::thread::Result<laz::Result<Vec<u8>>> {
    guard(|| {
        let mut out = Cursor::new(Vec::new());
        if layered {
            let mut c = LayeredPointRecordCompressor::new(&mut out);
            c.set_fields_from(vlr.items())?;
            c.compress_many(pts)?;
            c.done()?;
        } else {
            let mut c = SequentialPointRecordCompressor::new(&mut out);
            c.set_fields_from(vlr.items())?;
            c.compress_many(pts)?;
            c.done()?;
        }
        Ok(out.into_inner())
    })
}
pub fn decode_chunk(vlr: &LazVlr, layered: bool, data: &[u8], out: &mut [u8]) -> std::thread::Result<laz::Result<()>> {
    guard(|| {
        if layered {
            let mut d = LayeredPointRecordDecompressor::new(Cursor::new(data));
            d.set_fields_from(vlr.items())?;
            d.set_selection(DecompressionSelection::all());
            d.decompress_many(out)?;
        } else {
            let mut d = SequentialPointRecordDecompressor::new(Cursor::new(data));
            d.set_fields_from(vlr.items())?;
            d.decompress_many(out)?;
        }
        Ok(())
    })
}

impl Ctx {
    fn psz(&self) -> usize {
        self.lay.size
    }
    fn vlr(&self) -> LazVlr {
        self.lay
            .vlr(self.comp, if self.comp == 1 { self.vcs } else if self.var { 0 } else { self.cs })
            .expect("harness VLR is valid")
    }
    fn set_mask(&mut self, sel: u32) {
        self.mask = self.lay.mask(sel);
        for (m, h) in self.mask.iter_mut().zip(&self.hurt_mask) {
            *m &= !h;
        }
    }
    fn name(&mut self, p: &[u8], hint: Option<usize>) -> i64 {
        let psz = self.psz();
        if let Some(h) = hint {
            if h < self.n {
                let q = &self.pts[h * psz..(h + 1) * psz];
                if p.iter().zip(q).zip(&self.mask).all(|((a, b), m)| (a ^ b) & m == 0) {
                    return h as i64;
                }
            }
        }
        if self.index_mask != self.mask || self.index.is_empty() {
            self.index.clear();
            self.index_mask = self.mask.clone();
            for i in (0..self.n).rev() {
                let k: Vec<u8> = self.pts[i * psz..(i + 1) * psz].iter().zip(&self.mask).map(|(a, m)| a & m).collect();
                self.index.insert(k, i);
            }
        }
        let k: Vec<u8> = p.iter().zip(&self.mask).map(|(a, m)| a & m).collect();
        self.index.get(&k).map(|x| *x as i64).unwrap_or(-1)
    }
    /// Where the fields that are not selected change from one decoded point to the next.
    fn changes(&self, buf: &[u8]) -> Vec<usize> {
        let psz = self.psz();
        let ch = |a: &[u8], b: &[u8]| a.iter().zip(b).zip(&self.mask).any(|((x, y), m)| (x ^ y) & !m != 0);
        (1..buf.len() / psz).filter(|k| ch(&buf[(k - 1) * psz..k * psz], &buf[k * psz..(k + 1) * psz])).take(1000).collect()
    }
    /// Which of the points, read from place `at` on, are not those of their places: intervals.
    fn diff(&self, buf: &[u8], at: usize) -> Vec<(usize, usize)> {
        let psz = self.psz();
        let mut v: Vec<(usize, usize)> = vec![];
        for (k, p) in buf.chunks_exact(psz).enumerate() {
            let same = self.content.get(at + k).is_some_and(|h| {
                let q = &self.pts[h * psz..(h + 1) * psz];
                p.iter().zip(q).zip(&self.mask).all(|((a, b), m)| (a ^ b) & m == 0)
            });
            if !same {
                match v.last_mut() {
                    Some(l) if l.1 == k => l.1 = k + 1,
                    _ => v.push((k, k + 1)),
                }
            }
        }
        v.truncate(400);
        v
    }
    /// Names decoded points as runs of pool ids; -1 is "not a point of the pool".
    fn runs(&mut self, buf: &[u8], at: usize) -> Vec<(i64, i64)> {
        let psz = self.psz();
        let mut v: Vec<(i64, i64)> = vec![];
        for (k, p) in buf.chunks_exact(psz).enumerate() {
            let hint = self.content.get(at + k).copied();
            let id = self.name(p, hint);
            match v.last_mut() {
                Some(l) if id >= 0 && l.1 >= 0 && id == l.1 + 1 => l.1 = id,
                Some(l) if id == -1 && l.1 == -1 => {}
                _ => v.push((id, id)),
            }
        }
        v
    }
}

/// Points that are those of the stream are a few runs, so many of them can only be wrong ones
fn jr(v: &[(i64, i64)]) -> Value {
    let mut l: Vec<Value> = v.iter().take(400).map(|(a, b)| json!([a, b])).collect();
    if v.len() > 400 {
        l.push(json!([-9, -9]));
    }
    Value::Array(l)
}

fn g_u(v: &Value, k: &str, d: u64) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(d)
}
fn g_s<'a>(v: &'a Value, k: &str, d: &'a str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or(d)
}
fn g_b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}

pub fn run(s: &Value) -> Value {
    let lay = Layout::new(g_u(s, "fmt", 0) as u8, g_u(s, "ver", 2) as u16, g_u(s, "eb", 0) as u16);
    let var = g_b(s, "var");
    let pw1 = g_b(s, "pw1");
    let cs = g_u(s, "cs", 50_000) as u32;
    let n = g_u(s, "n", 10) as usize;
    let start = g_u(s, "start", 0);
    let abs = g_u(s, "abs", 0);
    let tail = g_u(s, "tail", 0) as usize;
    let seed = g_u(s, "seed", 1);
    let comp = if lay.layered() {
        3
    } else {
        2
    };
    let pts = gen::points(&lay, n, g_s(s, "prof", "mix"), seed);
    let mut rr = gen::Rng::new(seed ^ 0x55);
    let prefix: Vec<u8> = (0..start).map(|_| rr.next() as u8).collect();
    let suffix: Vec<u8> = (0..tail).map(|_| rr.next() as u8).collect();
    let mask = lay.mask(u32::MAX);
    let mut c = Ctx {
        comp,
        vcs: cs,
        var,
        cs,
        start,
        abs,
        tail,
        n,
        pts,
        index: HashMap::new(),
        index_mask: vec![],
        mask,
        next: 0,
        content: vec![],
        chunks: vec![],
        open_group: 0,
        cursor: 0,
        th: 2,
        suffix,
        log: vec![],
        base: vec![],
        wpos: 0,
        over: vec![],
        hurt_mask: vec![],
        hurt_bits: 0,
        prefix: prefix.clone(),
        lay,
    };
    let mut dev = Dev::new(prefix, start, abs);
    // what lies after the position where the stream is written (a destination that already has data)
    let pre_tail = g_u(s, "over", 0) as usize;
    if pre_tail > 0 {
        let extra: Vec<u8> = (0..pre_tail).map(|_| rr.next() as u8).collect();
        dev.lock().data.extend_from_slice(&extra);
        c.over = extra;
    }
    let mut w: Option<W> = None;
    let mut r: Option<R> = None;
    let mut ev: Vec<Value> = vec![];
    let empty = vec![];
    let ops = s.get("ops").and_then(|x| x.as_array()).unwrap_or(&empty);
    exec(&mut c, &mut dev, &mut w, &mut r, ops, &mut ev);
    // writers and readers run their destructors (nothing must panic there either)
    let _ = guard(|| drop(w.take()));
    let _ = guard(|| drop(r.take()));
    json!({
        "id": s.get("id").cloned().unwrap_or(json!(0)),
        "fmt": c.lay.fmt, "ver": c.lay.ver, "eb": c.lay.eb,
        "lay": c.lay.layered(), "var": var, "pw1": pw1, "cs": small(cs as u64), "start": start,
        "over": pre_tail > 0,
        "ev": ev
    })
}

/// Runs a list of operations; the "…all" operations repeat a block for every stopping point.
fn exec(c: &mut Ctx, dev: &mut Dev, w: &mut Option<W>, r: &mut Option<R>, ops: &[Value], ev: &mut Vec<Value>) {
    for o in ops {
        let block: Vec<Value> = o.get("do").and_then(|x| x.as_array()).cloned().unwrap_or_default();
        let max = g_u(o, "max", 400) as usize;
        match g_s(o, "o", "") {
            "crashall" => {
                // the writer stopped after each of its writes, and inside them
                let lens: Vec<usize> = c.log.iter().map(|(_, b)| b.len()).collect();
                let mut at: Vec<(usize, Option<usize>)> = vec![];
                for (i, l) in lens.iter().enumerate() {
                    at.push((i, None));
                    // the 8-byte offset field counts as written at once
                    if *l > 1 && *l != 8 {
                        at.push((i + 1, Some(1)));
                        at.push((i + 1, Some(l / 2)));
                        at.push((i + 1, Some(l - 1)));
                    }
                }
                at.push((lens.len(), None));
                at.dedup();
                let step = at.len().div_ceil(max).max(1);
                let mut k = g_u(o, "from", 0) as usize % step;
                while k < at.len() {
                    let (a, p) = at[k];
                    let op = match p {
                        Some(p) => json!({"o":"crash","at":a,"part":p}),
                        None => json!({"o":"crash","at":a}),
                    };
                    exec(c, dev, w, r, &[op], ev);
                    exec(c, dev, w, r, &block, ev);
                    k += step;
                }
            }
            "truncall" => {
                let full = dev.lock().data.len() as u64 - c.start;
                let step = (full / max as u64).max(1);
                let mut l = full.saturating_sub(1 + g_u(o, "from", 0) % step);
                loop {
                    exec(c, dev, w, r, &[json!({"o":"trunc","len":l})], ev);
                    exec(c, dev, w, r, &block, ev);
                    // every length near the two ends, then in steps
                    let d = if l < 24 || full - l < 48 { 1 } else { step };
                    if l < d {
                        break;
                    }
                    l -= d;
                }
            }
            "faultall" => {
                // a device failure at each operation of the block
                let keep = g_b(o, "keep");
                let save = dev.image();
                let mut saved: Option<(Vec<usize>, usize, Vec<usize>, usize, u64)> = None;
                if keep {
                    ev.push(json!({"op":"mark"}));
                    saved = Some((c.content.clone(), c.next, c.chunks.clone(), c.open_group, c.wpos));
                }
                let pre = g_u(o, "from", 0) as usize;
                let mut k: i64 = -1;
                let mut n = 0usize;
                let mut step = 1usize;
                loop {
                    // each time from the same stream
                    let _ = guard(|| drop(w.take()));
                    let _ = guard(|| drop(r.take()));
                    if keep {
                        *dev = Dev::new(save.clone(), c.start, c.abs);
                        let (a, b, d, e, f) = saved.clone().unwrap();
                        c.content = a;
                        c.next = b;
                        c.chunks = d;
                        c.open_group = e;
                        c.wpos = f;
                        ev.push(json!({"op":"reset","keep":true}));
                    } else {
                        *dev = Dev::new(c.prefix.clone(), c.start, c.abs);
                        ev.push(json!({"op":"reset","keep":false}));
                    }
                    let mut a = o.clone();
                    if k >= 0 {
                        a["fault"] = json!(k);
                    } else {
                        a.as_object_mut().unwrap().remove("fault");
                    }
                    arm(dev, &a);
                    ev.push(json!({"op":"dev","noseek":g_b(o,"noseek"),"fault":k}));
                    exec(c, dev, w, r, &block, ev);
                    if k < 0 {
                        n = dev.lock().ops as usize;
                        step = n.div_ceil(max).max(1);
                        k = (pre % step) as i64;
                    } else {
                        k += step as i64;
                    }
                    if k as usize >= n {
                        break;
                    }
                }
            }
            "repeat" => {
                for _ in 0..g_u(o, "k", 1) {
                    exec(c, dev, w, r, &block, ev);
                }
            }
            _ => {
                let e = match guard(|| step(c, dev, w, r, o)) {
                    Ok(v) => v,
                    Err(p) => json!({"op":"broke","why":panic_text(p)}),
                };
                if !e.is_null() {
                    ev.push(e);
                }
            }
        }
    }
}

fn arm(dev: &Dev, o: &Value) {
    let mut s = dev.lock();
    s.pol.short = g_u(o, "short", 0);
    s.pol.intr = g_u(o, "intr", 0);
    s.rng = 0x9E3779B97F4A7C15 ^ g_u(o, "seed", 1).wrapping_mul(77777);
    if s.rng == 0 {
        s.rng = 1;
    }
    s.pol.fault_at = o.get("fault").and_then(|x| x.as_u64());
    s.pol.fault_len = g_u(o, "flen", 1);
    s.pol.fkind = g_u(o, "fkind", 0);
    s.pol.seekable = !g_b(o, "noseek");
    s.ops = 0;
    s.fault_hit = false;
}

fn take_fault(dev: &Dev) -> bool {
    let mut s = dev.lock();
    let f = s.fault_hit;
    s.fault_hit = false;
    f
}

fn step(c: &mut Ctx, dev: &mut Dev, w: &mut Option<W>, r: &mut Option<R>, o: &Value) -> Value {
    let psz = c.psz();
    let op = g_s(o, "o", "");
    // the same call through the traits of the crate
    let by_trait = g_b(o, "t");
    match op {
        "dev" => {
            arm(dev, o);
            json!({"op":"dev","noseek":g_b(o,"noseek")})
        }
        "log" => {
            let mut s = dev.lock();
            c.base = s.data.clone();
            s.log = Some(vec![]);
            Value::Null
        }
        "nops" => {
            let n = dev.lock().ops;
            json!({"op":"nops","n":n})
        }
        "wopen" => {
            let k = g_s(o, "k", "seq");
            c.th = g_u(o, "th", 2) as usize;
            dev.lock().pos = c.start;
            let d = dev.clone();
            let vlr = c.vlr();
            c.next = 0;
            c.content.clear();
            c.chunks.clear();
            c.open_group = 0;
            let res = guard(|| -> laz::Result<W> {
                Ok(if k == "seq" {
                    W::Seq(LasZipCompressor::new(d, vlr)?)
                } else {
                    W::Par(ParLasZipCompressor::new(d, vlr)?)
                })
            });
            let out = match res {
                Ok(Ok(x)) => {
                    *w = Some(x);
                    ("ok", String::new())
                }
                Ok(Err(e)) => ("err", err_kind(&e)),
                Err(p) => ("panic", panic_text(p)),
            };
            json!({"op":"wopen","k":k,"res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "res" => {
            let out = match w.as_mut() {
                Some(W::Seq(x)) if by_trait => laz_of(guard(|| LazCompressor::reserve_offset_to_chunk_table(x))),
                Some(W::Par(x)) if by_trait => laz_of(guard(|| LazCompressor::reserve_offset_to_chunk_table(x))),
                Some(W::Seq(x)) => io_of(guard(|| x.reserve_offset_to_chunk_table())),
                Some(W::Par(x)) => io_of(guard(|| x.reserve_offset_to_chunk_table())),
                _ => return Value::Null,
            };
            json!({"op":"res","res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "w" => {
            let n = (g_u(o, "n", 1) as usize).min(c.n - c.next);
            let lo = c.next;
            let one = g_s(o, "m", "many") == "one";
            let tr = g_s(o, "m", "many") == "trait";
            let buf = c.pts[lo * psz..(lo + n) * psz].to_vec();
            c.next += n;
            let th = c.th;
            let out = match w.as_mut() {
                Some(W::Seq(x)) => io_of(guard(|| {
                    if tr {
                        for p in buf.chunks_exact(psz) {
                            LazCompressor::compress_one(x, p).map_err(to_io)?;
                        }
                        Ok(())
                    } else if one {
                        for p in buf.chunks_exact(psz) {
                            x.compress_one(p)?;
                        }
                        Ok(())
                    } else if by_trait {
                        LazCompressor::compress_many(x, &buf).map_err(to_io)
                    } else {
                        x.compress_many(&buf)
                    }
                })),
                Some(W::ASeq(x)) => io_of(guard(|| {
                    if one {
                        for p in buf.chunks_exact(psz) {
                            x.compress_one(p)?;
                        }
                        Ok(())
                    } else {
                        x.compress_many(&buf)
                    }
                })),
                Some(W::Par(x)) => {
                    let p = pool(th);
                    io_of(guard(|| {
                        p.install(|| {
                            if one || tr {
                                for q in buf.chunks_exact(psz) {
                                    if tr {
                                        LazCompressor::compress_one(x, q).map_err(to_io)?;
                                    } else {
                                        x.compress_many(q)?;
                                    }
                                }
                                Ok(())
                            } else if by_trait {
                                LazCompressor::compress_many(x, &buf).map_err(to_io)
                            } else {
                                x.compress_many(&buf)
                            }
                        })
                    }))
                }
                Some(W::APar(x)) => {
                    let p = pool(th);
                    io_of(guard(|| {
                        p.install(|| {
                            if one {
                                for q in buf.chunks_exact(psz) {
                                    x.compress_many(q)?;
                                }
                                Ok(())
                            } else {
                                x.compress_many(&buf)
                            }
                        })
                    }))
                }
                None => return Value::Null,
            };
            c.content.extend(lo..lo + n);
            c.open_group += n;
            json!({"op":"w","lo":lo,"n":n,"res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "fin" => {
            let out = match w.as_mut() {
                Some(W::Seq(x)) => io_of(guard(|| x.finish_current_chunk())),
                Some(W::ASeq(x)) => io_of(guard(|| x.finish_current_chunk())),
                _ => return Value::Null,
            };
            c.chunks.push(c.open_group);
            c.open_group = 0;
            json!({"op":"fin","res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "chunks" => {
            let lo = c.next;
            let mut sizes: Vec<usize> = vec![];
            let gate = o.get("gate").and_then(|g| g.as_array()).cloned();
            let g = gate.as_ref().map(|_| Arc::new((Mutex::new(0usize), Condvar::new())));
            let mut items: Vec<Item> = vec![];
            for (i, x) in o["s"].as_array().unwrap().iter().enumerate() {
                let n = (x.as_u64().unwrap() as usize).min(c.n - c.next);
                sizes.push(n);
                let turn_of = gate
                    .as_ref()
                    .and_then(|v| v.iter().position(|y| y.as_u64() == Some(i as u64)))
                    .unwrap_or(0);
                items.push(Item {
                    data: c.pts[c.next * psz..(c.next + n) * psz].to_vec(),
                    turn_of,
                    seen: AtomicBool::new(false),
                    gate: g.clone(),
                });
                c.next += n;
            }
            let th = c.th;
            let out = match w.as_mut() {
                Some(W::Seq(x)) => io_of(guard(|| x.compress_chunks(items.iter().map(|i| &i.data)))),
                Some(W::ASeq(x)) => io_of(guard(|| x.compress_chunks(items.iter().map(|i| &i.data)))),
                Some(W::Par(x)) => {
                    let p = pool(th);
                    io_of(guard(|| p.install(|| x.compress_chunks(items))))
                }
                Some(W::APar(x)) => {
                    let p = pool(th);
                    io_of(guard(|| p.install(|| x.compress_chunks(items))))
                }
                None => return Value::Null,
            };
            c.content.extend(lo..c.next);
            for (i, n) in sizes.iter().enumerate() {
                c.chunks.push(if i == 0 { c.open_group + n } else { *n });
            }
            if !sizes.is_empty() {
                c.open_group = 0;
            }
            json!({"op":"chunks","lo":lo,"s":sizes,"res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "done" => {
            let th = c.th;
            let out = match w.as_mut() {
                Some(W::Seq(x)) if by_trait => laz_of(guard(|| LazCompressor::done(x))),
                Some(W::Par(x)) if by_trait => laz_of(guard(|| pool(th).install(|| LazCompressor::done(x)))),
                Some(W::Seq(x)) => io_of(guard(|| x.done())),
                Some(W::Par(x)) => laz_of(guard(|| pool(th).install(|| x.done()))),
                Some(W::ASeq(x)) => laz_of(guard(|| x.done())),
                Some(W::APar(x)) => laz_of(guard(|| pool(th).install(|| x.done()))),
                None => return Value::Null,
            };
            let flt = take_fault(dev);
            let _ = guard(|| drop(w.take()));
            {
                let mut s = dev.lock();
                c.wpos = s.pos;
                if let Some(l) = s.log.take() {
                    c.log = l;
                }
                if out.0 == "ok" && c.tail > 0 {
                    // e.g. extended VLRs after the stream
                    let p = s.pos as usize;
                    s.data.truncate(p);
                    let sfx = c.suffix.clone();
                    s.data.extend_from_slice(&sfx);
                }
            }
            if c.open_group > 0 {
                c.chunks.push(c.open_group);
                c.open_group = 0;
            }
            json!({"op":"done","res":out.0,"why":out.1,"flt":flt})
        }
        "wdrop" => {
            let _ = guard(|| drop(w.take()));
            let mut s = dev.lock();
            if let Some(l) = s.log.take() {
                c.log = l;
            }
            json!({"op":"wdrop"})
        }
        "cbuf" => {
            // whole-buffer helper
            let k = g_s(o, "k", "seq");
            let th = g_u(o, "th", 2) as usize;
            dev.lock().pos = c.start;
            let lo = c.next;
            let n = (g_u(o, "n", c.n as u64) as usize).min(c.n - c.next);
            let buf = c.pts[lo * psz..(lo + n) * psz].to_vec();
            let vlr = c.vlr();
            let mut d = dev.clone();
            let out = if k == "seq" {
                laz_of(guard(|| compress_buffer(&mut d, &buf, vlr)))
            } else {
                laz_of(guard(|| pool(th).install(|| par_compress_buffer(&mut d, &buf, &vlr))))
            };
            c.next += n;
            c.content.extend(lo..lo + n);
            let flt = take_fault(dev);
            {
                let mut s = dev.lock();
                c.wpos = s.pos;
                if out.0 == "ok" && c.tail > 0 {
                    let p = s.pos as usize;
                    s.data.truncate(p);
                    let sfx = c.suffix.clone();
                    s.data.extend_from_slice(&sfx);
                }
            }
            json!({"op":"cbuf","k":k,"lo":lo,"n":n,"res":out.0,"why":out.1,"flt":flt})
        }
        "aopen" => {
            let k = g_s(o, "k", "seq");
            c.th = g_u(o, "th", 2) as usize;
            let pc = g_u(o, "pc", 0);
            {
                let mut s = dev.lock();
                s.pos = c.start;
                if c.tail > 0 {
                    let e = c.wpos as usize;
                    s.data.truncate(e);
                }
            }
            let d = dev.clone();
            let vlr = c.vlr();
            let th = c.th;
            let res = guard(|| -> laz::Result<W> {
                Ok(if k == "seq" {
                    W::ASeq(LasZipAppender::new(d, vlr, pc)?)
                } else {
                    W::APar(pool(th).install(|| ParLasZipAppender::new(d, vlr, pc))?)
                })
            });
            let out = match res {
                Ok(Ok(x)) => {
                    *w = Some(x);
                    ("ok", String::new())
                }
                Ok(Err(e)) => ("err", err_kind(&e)),
                Err(p) => ("panic", panic_text(p)),
            };
            if out.0 == "ok" {
                c.content.truncate(pc as usize);
            }
            json!({"op":"aopen","k":k,"pc":pc,"res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "look" => look(c, dev),
        "cmp" => {
            // the same points and groups through a plain sequential compressor, one call per point
            let region = {
                let d = dev.image();
                let e = (c.wpos as usize).min(d.len());
                d[c.start as usize..e].to_vec()
            };
            let vlr = c.vlr();
            let start = c.start;
            let (content, chunks, pts) = (&c.content, &c.chunks, &c.pts);
            let var = c.var;
            let abs = c.abs;
            let res = guard(|| -> laz::Result<Vec<u8>> {
                let mut cur = Dev::new(vec![0u8; start as usize], start, abs);
                let mut z = LasZipCompressor::new(&mut cur, vlr)?;
                if var {
                    let mut it = content.iter();
                    for (k, n) in chunks.iter().enumerate() {
                        for _ in 0..*n {
                            let id = *it.next().unwrap();
                            z.compress_one(&pts[id * psz..(id + 1) * psz])?;
                        }
                        if *n > 0 && chunks[k + 1..].iter().any(|m| *m > 0) {
                            z.finish_current_chunk()?;
                        }
                    }
                } else {
                    for id in content {
                        z.compress_one(&pts[id * psz..(id + 1) * psz])?;
                    }
                }
                z.done()?;
                drop(z);
                Ok(cur.image()[start as usize..].to_vec())
            });
            match res {
                Ok(Ok(v)) => json!({"op":"cmp","res":"ok","eq": v == region}),
                Ok(Err(e)) => json!({"op":"cmp","res":"err","eq":false,"why":err_kind(&e)}),
                Err(p) => json!({"op":"cmp","res":"panic","eq":false,"why":panic_text(p)}),
            }
        }
        "ropen" => {
            let k = g_s(o, "k", "seq");
            let sel = g_u(o, "sel", u32::MAX as u64) as u32;
            c.th = g_u(o, "th", 2) as usize;
            c.set_mask(sel);
            {
                let mut s = dev.lock();
                s.pos = c.start;
            }
            let d = dev.clone();
            let vlr = c.vlr();
            let all = sel == u32::MAX;
            let res = guard(|| -> laz::Result<R> {
                Ok(if k == "seq" {
                    if all {
                        R::Seq(LasZipDecompressor::new(d, vlr)?)
                    } else {
                        R::Seq(LasZipDecompressor::selective(d, vlr, DecompressionSelection(sel))?)
                    }
                } else if all {
                    R::Par(ParLasZipDecompressor::new(d, vlr)?)
                } else {
                    R::Par(ParLasZipDecompressor::selective(d, vlr, DecompressionSelection(sel))?)
                })
            });
            c.cursor = 0;
            let out = match res {
                Ok(Ok(x)) => {
                    *r = Some(x);
                    ("ok", String::new())
                }
                Ok(Err(e)) => {
                    *r = None;
                    ("err", err_kind(&e))
                }
                Err(p) => {
                    *r = None;
                    ("panic", panic_text(p))
                }
            };
            json!({"op":"ropen","k":k,"res":out.0,"why":out.1,"flt":take_fault(dev),"aff":c.hurt_bits & sel != 0})
        }
        "r" => {
            let n = g_u(o, "n", 1) as usize;
            let m = g_s(o, "m", "many");
            let mut buf = vec![0xA5u8; n * psz];
            let th = c.th;
            let mut got = 0usize;
            let out = match r.as_mut() {
                None => return Value::Null,
                Some(R::Seq(x)) => {
                    if m == "many" {
                        let q = if by_trait {
                            laz_of(guard(|| LazDecompressor::decompress_many(x, &mut buf)))
                        } else {
                            io_of(guard(|| x.decompress_many(&mut buf)))
                        };
                        if q.0 == "ok" {
                            got = n;
                        }
                        q
                    } else {
                        let mut q: Out = ("ok", String::new());
                        for p in buf.chunks_exact_mut(psz) {
                            q = if m == "trait" {
                                laz_of(guard(|| LazDecompressor::decompress_one(x, p)))
                            } else {
                                io_of(guard(|| x.decompress_one(p)))
                            };
                            if q.0 != "ok" {
                                break;
                            }
                            got += 1;
                        }
                        q
                    }
                }
                Some(R::Par(x)) => {
                    let pl = pool(th);
                    if m == "many" {
                        let q = laz_of(guard(|| {
                            pl.install(|| {
                                if by_trait {
                                    LazDecompressor::decompress_many(x, &mut buf)
                                } else {
                                    x.decompress_many(&mut buf)
                                }
                            })
                        }));
                        if q.0 == "ok" {
                            got = n;
                        }
                        q
                    } else {
                        let mut q: Out = ("ok", String::new());
                        for p in buf.chunks_exact_mut(psz) {
                            q = if m == "trait" {
                                laz_of(guard(|| pl.install(|| LazDecompressor::decompress_one(x, p))))
                            } else {
                                laz_of(guard(|| pl.install(|| x.decompress_many(p))))
                            };
                            if q.0 != "ok" {
                                break;
                            }
                            got += 1;
                        }
                        q
                    }
                }
            };
            let at = c.cursor;
            let runs = c.runs(&buf[..got * psz], at);
            c.cursor += got;
            json!({"op":"r","n":n,"m":m,"res":out.0,"why":out.1,"got":got,"runs":jr(&runs),"chg":c.changes(&buf[..got * psz]),"diff":c.diff(&buf[..got * psz], at),"flt":take_fault(dev)})
        }
        "seek" => {
            let i = g_u(o, "i", 0);
            let out = match r.as_mut() {
                None => return Value::Null,
                Some(R::Seq(x)) if by_trait => laz_of(guard(|| LazDecompressor::seek(x, i))),
                Some(R::Par(x)) if by_trait => laz_of(guard(|| LazDecompressor::seek(x, i))),
                Some(R::Seq(x)) => laz_of(guard(|| x.seek(i))),
                Some(R::Par(x)) => laz_of(guard(|| x.seek(i))),
            };
            if out.0 == "ok" {
                c.cursor = i as usize;
            }
            json!({"op":"seek","i":small(i),"res":out.0,"why":out.1,"flt":take_fault(dev)})
        }
        "dbuf" => {
            let k = g_s(o, "k", "seq");
            let n = g_u(o, "n", 1) as usize;
            let sel = g_u(o, "sel", u32::MAX as u64) as u32;
            let th = g_u(o, "th", 2) as usize;
            c.set_mask(sel);
            let data = dev.image()[c.start as usize..].to_vec();
            let vlr = c.vlr();
            let mut buf = vec![0xA5u8; n * psz];
            let (start, wpos) = (c.start, c.wpos);
            let out = match k {
                "seq" => laz_of(guard(|| decompress_buffer(&data, &mut buf, vlr))),
                "par" => laz_of(guard(|| pool(th).install(|| par_decompress_buffer(&data, &mut buf, &vlr)))),
                _ => {
                    // chunk-level helper: caller supplies table and point bytes
                    laz_of(guard(|| {
                        let mut cur = Cursor::new(&data[..]);
                        let t = ChunkTable::read_from(&mut cur, &vlr)?;
                        let tb: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
                        let pb = &data[8..8 + tb as usize];
                        let _ = (start, wpos);
                        pool(th).install(|| {
                            if sel == u32::MAX {
                                par_decompress(pb, &mut buf, &vlr, t.as_ref())
                            } else {
                                par_decompress_selective(pb, &mut buf, &vlr, t.as_ref(), DecompressionSelection(sel))
                            }
                        })
                    }))
                }
            };
            let got = if out.0 == "ok" { n } else { 0 };
            let runs = c.runs(&buf[..got * psz], 0);
            json!({"op":"dbuf","k":k,"n":n,"res":out.0,"why":out.1,"got":got,"runs":jr(&runs),"chg":c.changes(&buf[..got * psz]),"diff":c.diff(&buf[..got * psz], 0),"aff":c.hurt_bits & if k == "chunk" { sel } else { u32::MAX } != 0})
        }
        "trunc" => {
            let len = g_u(o, "len", 0);
            let mut s = dev.lock();
            let l = (c.start + len) as usize;
            if l < s.data.len() {
                s.data.truncate(l);
            }
            *r = None;
            json!({"op":"trunc","len":len,"amb":ambiguous(&s.data, c.start, c.abs)})
        }
        "crash" => {
            // the destination as it was after the first `at` writes, the last one cut to `part` bytes
            let at = (g_u(o, "at", 0) as usize).min(c.log.len());
            let part = o.get("part").and_then(|x| x.as_u64());
            let mut d = c.base.clone();
            for (i, (p, b)) in c.log[..at].iter().enumerate() {
                let b: &[u8] = if i + 1 == at {
                    match part {
                        Some(k) => &b[..(k as usize).min(b.len())],
                        None => b,
                    }
                } else {
                    b
                };
                let e = *p as usize + b.len();
                if d.len() < e {
                    d.resize(e, 0);
                }
                d[*p as usize..e].copy_from_slice(b);
            }
            let total = c.log.len();
            let len = d.len() as u64 - c.start.min(d.len() as u64);
            let full = at == total && part.is_none();
            let amb = ambiguous(&d, c.start, c.abs);
            *dev = Dev::new(d, c.start, c.abs);
            *r = None;
            json!({"op":"crash","at":at,"of":total,"len":len,"full":full,"amb":amb})
        }
        "trailoff" => {
            // a writer on a non-seekable destination: offset unknown at the start, stored at the end
            let mut s = dev.lock();
            let st = c.start as usize;
            let off: Vec<u8> = s.data[st..st + 8].to_vec();
            let neg = (-1i64).to_le_bytes();
            s.data[st..st + 8].copy_from_slice(&neg);
            s.data.extend_from_slice(&off);
            c.wpos = s.data.len() as u64;
            json!({"op":"trailoff"})
        }
        "hurt" => hurt(c, dev, o),
        "strip" => {
            // removes the 8 offset bytes and the chunk table: the unchunked legacy layout
            let mut s = dev.lock();
            let st = c.start as usize;
            let off = i64::from_le_bytes(s.data[st..st + 8].try_into().unwrap()) as usize - c.abs as usize;
            let body = s.data[st + 8..off].to_vec();
            s.data.truncate(st);
            s.data.extend_from_slice(&body);
            c.wpos = s.data.len() as u64;
            let sfx = c.suffix.clone();
            s.data.extend_from_slice(&sfx);
            if g_b(o, "like") {
                // the last bytes read as the position of something
                let v = (c.abs + c.start + 1 + g_u(o, "v", 0) % (s.data.len() as u64 - c.start)) as i64;
                s.data.extend_from_slice(&v.to_le_bytes());
            }
            c.comp = 1;
            // the chunk size has no meaning then
            c.vcs = g_u(o, "vcs", c.cs as u64) as u32;
            json!({"op":"strip"})
        }
        "table" => {
            // what the crate's own table reader says, and where it leaves the source
            let vlr = c.vlr();
            let mut d = dev.clone();
            d.lock().pos = c.start;
            let abs = c.abs;
            let res = guard(|| -> laz::Result<(Vec<(u64, u64)>, u64)> {
                let t = ChunkTable::read_from(&mut d, &vlr)?;
                let p = d.stream_position()? - abs;
                Ok((t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect(), p))
            });
            match res {
                Ok(Ok((t, _))) if t.iter().any(|e| e.1 > ABSURD || c.var && e.0 > ABSURD) =>
                    json!({"op":"table","res":"absurd","pts":[],"bytes":[],"pos":0,"flt":take_fault(dev)}),
                Ok(Ok((t, p))) => json!({"op":"table","res":"ok","pts":t.iter().map(|e| small(e.0)).collect::<Vec<_>>(),
                    "bytes":t.iter().map(|e| e.1).collect::<Vec<_>>(),"pos":p as i64 - c.start as i64,"flt":take_fault(dev)}),
                Ok(Err(e)) => json!({"op":"table","res":"err","why":err_kind(&e),"pts":[],"bytes":[],"pos":0,"flt":take_fault(dev)}),
                Err(p) => json!({"op":"table","res":"panic","why":panic_text(p),"pts":[],"bytes":[],"pos":0,"flt":take_fault(dev)}),
            }
        }
        "region" => {
            // the file ends where the stream ends: a reader must not need what lies past it
            let _ = guard(|| drop(r.take()));
            let end = c.wpos as usize;
            let mut s = dev.lock();
            let cut = s.data.len().saturating_sub(end);
            s.data.truncate(end);
            json!({"op":"region","cut": cut})
        }
        "close" => {
            let _ = guard(|| drop(r.take()));
            json!({"op":"close"})
        }
        _ => json!({"op":"tool","why":op}),
    }
}

/// No offset at the start of the stream, and the last 8 bytes happen to read as one.
fn ambiguous(d: &[u8], start: u64, abs: u64) -> bool {
    let st = start as usize;
    if d.len() < st + 8 {
        return false;
    }
    let off = i64::from_le_bytes(d[st..st + 8].try_into().unwrap());
    let last = i64::from_le_bytes(d[d.len() - 8..].try_into().unwrap());
    let (start, end) = ((abs + start) as i64, abs as i64 + d.len() as i64);
    off <= start && last > start && last <= end
}

/// More than any chunk of a session has of points or bytes.
const ABSURD: u64 = 1 << 26;

/// TLC's integers have 32 bits; no number of points comes near this one.
fn small(x: u64) -> u64 {
    x.min(1 << 28)
}

fn to_io(e: LasZipError) -> std::io::Error {
    match e {
        LasZipError::IoError(e) => e,
        e => std::io::Error::new(std::io::ErrorKind::Other, e),
    }
}

/// Looks at the raw stream with the independent chunk table parser.
fn look(c: &mut Ctx, dev: &Dev) -> Value {
    let d = dev.image();
    let st = c.start as usize;
    let bad = |why: &str| json!({"op":"look","res":"bad","why":why});
    if d.len() < st + 8 {
        return bad("no offset field");
    }
    let prefix = d[..st] == c.prefix[..];
    let off = i64::from_le_bytes(d[st..st + 8].try_into().unwrap()).wrapping_sub(c.abs as i64);
    if off < st as i64 + 8 || off as usize > d.len() {
        return bad("offset outside the stream");
    }
    let end = (c.wpos as usize).min(d.len());
    let Some((ent, tab_end)) = table::parse(&d[..end], off as usize, c.var) else {
        return bad("unreadable chunk table");
    };
    if ent.iter().any(|e| e.1 > ABSURD || e.0 > ABSURD) || ent.iter().map(|e| e.1).sum::<u64>() > d.len() as u64 {
        return bad("entries of the chunk table out of range");
    }
    let vlr = c.vlr();
    let mut pos = st + 8;
    let mut counts: Vec<u64> = vec![];
    let mut canon = vec![];
    let mut cont: Vec<Value> = vec![];
    let mut done = 0usize;
    let total = c.content.len();
    let full = c.lay.mask(u32::MAX);
    c.mask = full;
    for (i, (p, b)) in ent.iter().enumerate() {
        let e = pos + *b as usize;
        if e > off as usize {
            canon.push(false);
            counts.push(0);
            cont.push(jr(&[(-2, -2)]));
            continue;
        }
        let n = if c.var {
            *p as usize
        } else if i + 1 == ent.len() {
            total.saturating_sub(done).min(c.cs as usize)
        } else {
            (c.cs as usize).min(total.saturating_sub(done))
        };
        if c.lay.layered() && *b as usize >= c.psz() + 4 {
            let at = pos + c.psz();
            counts.push(u32::from_le_bytes(d[at..at + 4].try_into().unwrap()).min(ABSURD as u32) as u64);
        } else {
            counts.push(0);
        }
        if n > 4 * c.n + 16 {
            canon.push(false);
            cont.push(jr(&[(-3, -3)]));
            continue;
        }
        let mut out = vec![0u8; n * c.psz()];
        let ok = n == 0 || matches!(decode_chunk(&vlr, c.lay.layered(), &d[pos..e], &mut out), Ok(Ok(())));
        if ok {
            let rs = c.runs(&out, done);
            cont.push(jr(&rs));
            let cb = if n == 0 { Some(d[pos..e].to_vec()) } else {
                match canon_chunk(&vlr, c.lay.layered(), &out) {
                    Ok(Ok(v)) => Some(v),
                    _ => None,
                }
            };
            canon.push(cb.map(|v| v == d[pos..e]).unwrap_or(false));
        } else {
            canon.push(false);
            cont.push(jr(&[(-1, -1)]));
        }
        done += n;
        pos = e;
    }
    // data that was already there after the end of the stream
    let e = (c.wpos as usize - st.min(c.wpos as usize)).min(c.over.len());
    let after = c.tail > 0 || d[(st + e).min(d.len())..].starts_with(&c.over[e..]);
    json!({
        "op":"look","res":"ok","prefix":prefix,"after":after,
        "off": off - st as i64, "tabend": tab_end as i64 - st as i64,
        "wpos": c.wpos as i64 - st as i64,
        "len": d.len() as i64 - st as i64 - c.tail as i64,
        "pts": ent.iter().map(|e| e.0).collect::<Vec<_>>(),
        "bytes": ent.iter().map(|e| e.1).collect::<Vec<_>>(),
        "canon": canon, "content": cont, "counts": counts,
    })
}

/// Changes bytes of a finished stream: inside a chunk, inside one layer of a chunk, in the table, the offset, or anywhere.
/// Says which points are concerned (lo..hi), if only some of their fields are ("soft"), or if nothing is certain any more ("wild").
fn hurt(c: &mut Ctx, dev: &Dev, o: &Value) -> Value {
    let mut rr = gen::Rng::new(g_u(o, "v", 1) ^ 0x4855_5254);
    let st = c.start as usize;
    let mut s = dev.lock();
    let end = (c.wpos as usize).min(s.data.len());
    let nothing = json!({"op":"hurt","lo":0,"hi":0,"soft":false,"wild":false});
    if end < st + 8 {
        return nothing;
    }
    let off = (i64::from_le_bytes(s.data[st..st + 8].try_into().unwrap()).wrapping_sub(c.abs as i64)) as usize;
    if off < st + 8 || off > end {
        return nothing;
    }
    let at = g_s(o, "at", "chunk").to_string();
    let mut places: Vec<(usize, usize)> = vec![];
    let (mut lo, mut hi, mut soft, mut wild) = (0usize, 0usize, false, false);
    match at.as_str() {
        "table" => places.push((off, end)),
        "count" => places.push((off + 4, off + 8)),
        "offset" => places.push((st, st + 8)),
        "any" => places.push((st, end)),
        _ => {
            let Some((ent, _)) = table::parse(&s.data[..end], off, c.var) else { return nothing };
            if ent.is_empty() {
                return nothing;
            }
            let k = g_u(o, "k", 0) as usize % ent.len();
            let a = st + 8 + ent[..k].iter().map(|e| e.1 as usize).sum::<usize>();
            let b = a + ent[k].1 as usize;
            let total = c.content.len();
            if c.var {
                lo = ent[..k].iter().map(|e| e.0 as usize).sum();
                hi = lo + ent[k].0 as usize;
            } else {
                lo = (k * c.cs as usize).min(total);
                hi = (lo + c.cs as usize).min(total);
            }
            if b > off || a >= b {
                return nothing;
            }
            let psz = c.lay.size;
            let layers = c.lay.layers();
            if c.lay.layered() && at != "chunk" && b - a >= psz + 4 + 4 * layers.len() {
                let sizes: Vec<usize> = (0..layers.len())
                    .map(|l| {
                        let p = a + psz + 4 + 4 * l;
                        u32::from_le_bytes(s.data[p..p + 4].try_into().unwrap()) as usize
                    })
                    .collect();
                let mut p = a + psz + 4 + 4 * layers.len();
                let mut cand = vec![];
                for (l, z) in sizes.iter().enumerate() {
                    if *z > 0 && p + z <= b {
                        cand.push((l, p, p + z));
                    }
                    p += z;
                }
                match at.as_str() {
                    "layer" => {
                        // the first layer says which fields change at all: the others depend on it
                        cand.retain(|x| x.0 != 0);
                        if cand.is_empty() {
                            return nothing;
                        }
                        let (l, p, q) = cand[g_u(o, "f", 0) as usize % cand.len()];
                        soft = true;
                        let (bit, bytes) = &layers[l];
                        c.hurt_bits |= bit;
                        if c.hurt_mask.is_empty() {
                            c.hurt_mask = vec![0; psz];
                        }
                        for (h, m) in c.hurt_mask.iter_mut().zip(bytes) {
                            *h |= m;
                        }
                        places.push((p, q));
                    }
                    "first" => places.push((a, a + psz)),
                    "sizes" => places.push((a + psz + 4, a + psz + 4 + 4 * layers.len())),
                    _ => places.push((a + psz, a + psz + 4)),
                }
            } else {
                places.push((a, b));
            }
        }
    }
    wild |= matches!(at.as_str(), "table" | "count" | "offset" | "any");
    for (a, b) in places {
        if a >= b {
            continue;
        }
        let n = b - a;
        let (p, q) = match rr.next() % 4 {
            0 => (a, b),
            1 => {
                let p = a + rr.next() as usize % n;
                (p, p + 1)
            }
            _ => {
                let p = a + rr.next() as usize % n;
                (p, (p + 1 + rr.next() as usize % 8).min(b))
            }
        };
        let how = rr.next() % 6;
        let mut same = true;
        for x in &mut s.data[p..q] {
            let was = *x;
            *x = match how {
                0 => 0,
                1 => 0xff,
                2 => was ^ (1 << (rr.next() % 8)),
                3 => was.wrapping_add(1),
                _ => rr.next() as u8,
            };
            same &= *x == was;
        }
        if same {
            s.data[p] ^= 1 << (rr.next() % 8);
        }
    }
    drop(s);
    json!({"op":"hurt","at":at,"lo":lo,"hi":hi,"soft":soft,"wild":wild})
}

#[allow(dead_code)]
fn _unused(mut d: Dev) {
    let mut b = [0u8; 1];
    let _ = d.read(&mut b);
    let _ = d.write(&b);
}
