//! An in-memory device whose transfers can be short, interrupted or failing, and which logs writes.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Default, Clone, Debug)]
pub struct Policy {
    /// 0 = off; otherwise transfers are cut to 1..=short bytes (pseudo-random)
    pub short: u64,
    /// every `intr`-th operation reports Interrupted (0 = off)
    pub intr: u64,
    /// hard error at this operation number (counted from arming), None = off
    pub fault_at: Option<u64>,
    /// how many consecutive operations fail from there on
    pub fault_len: u64,
    pub seekable: bool,
    /// which error: 0 Other, 1 UnexpectedEof, 2 BrokenPipe, 3 WouldBlock, 4 a write that takes nothing
    pub fkind: u64,
}

pub struct State {
    pub data: Vec<u8>,
    pub pos: u64,
    pub pol: Policy,
    pub rng: u64,
    pub ops: u64,
    pub intr_ctr: u64,
    pub intr_pending: bool,
    /// a hard fault was delivered since this was last cleared
    pub fault_hit: bool,
    pub log: Option<Vec<(u64, Vec<u8>)>>,
    /// absolute position of data[0]: everything before is not kept
    pub base: u64,
}

#[derive(Clone)]
pub struct Dev(pub Arc<Mutex<State>>);

impl Dev {
    pub fn new(data: Vec<u8>, pos: u64, base: u64) -> Self {
        Dev(Arc::new(Mutex::new(State {
            data,
            pos,
            pol: Policy { seekable: true, ..Default::default() },
            rng: 0x9E3779B97F4A7C15,
            ops: 0,
            intr_ctr: 0,
            intr_pending: false,
            fault_hit: false,
            log: None,
            base,
        })))
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn image(&self) -> Vec<u8> {
        self.lock().data.clone()
    }
}

impl State {
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// Hard fault or interruption for this operation?
    fn gate(&mut self, may_interrupt: bool) -> Result<()> {
        let n = self.ops;
        self.ops += 1;
        if let Some(k) = self.pol.fault_at {
            if n >= k && n < k + self.pol.fault_len.max(1) {
                self.fault_hit = true;
                let k = match self.pol.fkind {
                    1 => ErrorKind::UnexpectedEof,
                    2 => ErrorKind::BrokenPipe,
                    3 => ErrorKind::WouldBlock,
                    4 => ErrorKind::WriteZero,
                    _ => ErrorKind::Other,
                };
                return Err(Error::new(k, "injected device failure"));
            }
        }
        if may_interrupt && self.pol.intr > 0 {
            self.intr_ctr += 1;
            if self.intr_ctr % self.pol.intr == 0 && !self.intr_pending {
                self.intr_pending = true; // never twice in a row: a retry makes progress
                return Err(Error::new(ErrorKind::Interrupted, "injected interruption"));
            }
            self.intr_pending = false;
        }
        Ok(())
    }
    fn cut(&mut self, n: usize) -> usize {
        if self.pol.short == 0 || n <= 1 {
            return n;
        }
        let m = 1 + (self.rnd() % self.pol.short) as usize;
        n.min(m)
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.lock();
        s.gate(true)?;
        let len = s.data.len() as u64;
        let avail = if s.pos >= len { 0 } else { (len - s.pos) as usize };
        let n = buf.len().min(avail);
        let n = s.cut(n);
        let p = s.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&s.data[p..p + n]);
        }
        s.pos += n as u64;
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.lock();
        match s.gate(true) {
            Err(e) if e.kind() == ErrorKind::WriteZero => return Ok(0),
            r => r?,
        }
        let n = s.cut(buf.len());
        let p = s.pos as usize;
        if s.data.len() < p + n {
            s.data.resize(p + n, 0);
        }
        s.data[p..p + n].copy_from_slice(&buf[..n]);
        s.pos += n as u64;
        if let Some(l) = s.log.as_mut() {
            l.push((p as u64, buf[..n].to_vec()));
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.lock().gate(true)
    }
}

impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let mut s = self.lock();
        if !s.pol.seekable {
            return Err(Error::new(ErrorKind::Unsupported, "not seekable"));
        }
        s.gate(false)?;
        let np = match to {
            SeekFrom::Start(p) => p as i128 - s.base as i128,
            SeekFrom::End(d) => s.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => s.pos as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before start"));
        }
        s.pos = np as u64;
        Ok(s.pos + s.base)
    }
}
