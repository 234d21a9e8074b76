//! Instrumented in-memory device: chunked transfers, interruptions, faults, operation budget, log.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Default, Debug)]
pub struct Dev {
    pub data: Vec<u8>,
    pub pos: u64,
    /// Transfer size limits, used in turn (empty: unlimited).
    pub chunks: Vec<usize>,
    pub ci: usize,
    /// Every n-th transfer first reports `Interrupted` (0: never).
    pub interrupt_every: u64,
    just_interrupted: bool,
    /// Fail the transfer/seek/flush with this number (counted over all calls).
    pub fail_at: Option<u64>,
    /// Keep failing after `fail_at`.
    pub fail_sticky: bool,
    pub ops: u64,
    pub max_ops: Option<u64>,
    pub over_budget: bool,
    pub failed: bool,
    pub writes: Vec<(u64, usize)>,
    pub read_bytes: u64,
    pub max_read_end: u64,
    pub max_len: u64,
    pub flushes: u64,
    pub unflushed: bool,
}

#[derive(Clone, Debug)]
pub struct Shared(pub Rc<RefCell<Dev>>);

impl Shared {
    pub fn new(data: Vec<u8>) -> Self {
        Shared(Rc::new(RefCell::new(Dev { data, max_len: 1 << 28, ..Dev::default() })))
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Dev) -> T) -> T {
        f(&mut self.0.borrow_mut())
    }
}

impl Dev {
    fn gate(&mut self) -> Result<()> {
        self.ops += 1;
        if let Some(m) = self.max_ops {
            if self.ops > m {
                self.over_budget = true;
                return Err(Error::other("operation budget exceeded"));
            }
        }
        if let Some(f) = self.fail_at {
            if self.ops == f || (self.fail_sticky && self.ops > f) {
                self.failed = true;
                return Err(Error::other("injected fault"));
            }
        }
        Ok(())
    }
    fn limit(&mut self, n: usize) -> Result<usize> {
        if self.interrupt_every > 0 && !self.just_interrupted && self.ops % self.interrupt_every == 0 {
            self.just_interrupted = true;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.just_interrupted = false;
        if self.chunks.is_empty() {
            return Ok(n);
        }
        let c = self.chunks[self.ci % self.chunks.len()].max(1);
        self.ci += 1;
        Ok(n.min(c))
    }
}

impl Read for Shared {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut d = self.0.borrow_mut();
        d.gate()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = d.limit(buf.len())?;
        let len = d.data.len() as u64;
        let start = d.pos.min(len) as usize;
        let n = n.min(d.data.len() - start);
        buf[..n].copy_from_slice(&d.data[start..start + n]);
        d.pos += n as u64;
        d.read_bytes += n as u64;
        let p = d.pos;
        d.max_read_end = d.max_read_end.max(p);
        Ok(n)
    }
}

impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut d = self.0.borrow_mut();
        d.gate()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = d.limit(buf.len())?;
        let end = d.pos + n as u64;
        if end > d.max_len {
            d.over_budget = true;
            return Err(Error::other("device full"));
        }
        if (d.data.len() as u64) < end {
            d.data.resize(end as usize, 0);
        }
        let p = d.pos as usize;
        d.data[p..p + n].copy_from_slice(&buf[..n]);
        d.writes.push((p as u64, n));
        d.pos = end;
        d.unflushed = true;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut d = self.0.borrow_mut();
        d.gate()?;
        d.flushes += 1;
        d.unflushed = false;
        Ok(())
    }
}

impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut d = self.0.borrow_mut();
        d.gate()?;
        let t: i128 = match p {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::Current(x) => i128::from(d.pos) + i128::from(x),
            SeekFrom::End(x) => d.data.len() as i128 + i128::from(x),
        };
        if t < 0 || t > i128::from(i64::MAX) {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        d.pos = t as u64;
        Ok(d.pos)
    }
}

/// A file of any size that is zero nearly everywhere.
#[derive(Default, Debug)]
pub struct Holes {
    chunks: BTreeMap<u64, Vec<u8>>,
    pub len: u64,
    pos: u64,
    pub writes: u64,
}

const CHUNK: u64 = 1 << 16;

#[derive(Clone, Debug, Default)]
pub struct Sparse(pub Rc<RefCell<Holes>>);

impl Sparse {
    pub fn put(&self, at: u64, bytes: &[u8]) {
        let mut h = self.0.borrow_mut();
        h.put(at, bytes);
    }
    pub fn rewind(&self) {
        self.0.borrow_mut().pos = 0;
    }
    pub fn set_len(&self, len: u64) {
        self.0.borrow_mut().len = len;
    }
    pub fn bytes(&self, at: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.0.borrow().get(at, &mut v);
        v
    }
    /// The parts that are not all zero.
    pub fn used(&self) -> Vec<(u64, u64)> {
        let h = self.0.borrow();
        h.chunks.iter().filter(|(_, c)| c.iter().any(|b| *b != 0)).map(|(k, _)| (k * CHUNK, (k + 1) * CHUNK)).collect()
    }
}

impl Holes {
    fn put(&mut self, at: u64, mut bytes: &[u8]) {
        let mut at = at;
        self.len = self.len.max(at + bytes.len() as u64);
        while !bytes.is_empty() {
            let o = (at % CHUNK) as usize;
            let n = bytes.len().min(CHUNK as usize - o);
            let c = self.chunks.entry(at / CHUNK).or_insert_with(|| vec![0; CHUNK as usize]);
            c[o..o + n].copy_from_slice(&bytes[..n]);
            at += n as u64;
            bytes = &bytes[n..];
        }
    }
    fn get(&self, at: u64, out: &mut [u8]) {
        let mut done = 0;
        while done < out.len() {
            let p = at + done as u64;
            let o = (p % CHUNK) as usize;
            let n = (out.len() - done).min(CHUNK as usize - o);
            match self.chunks.get(&(p / CHUNK)) {
                Some(c) => out[done..done + n].copy_from_slice(&c[o..o + n]),
                None => out[done..done + n].fill(0),
            }
            done += n;
        }
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut h = self.0.borrow_mut();
        let n = (buf.len() as u64).min(h.len.saturating_sub(h.pos)) as usize;
        h.get(h.pos, &mut buf[..n]);
        h.pos += n as u64;
        Ok(n)
    }
}

impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut h = self.0.borrow_mut();
        let p = h.pos;
        if h.chunks.len() > 4096 {
            return Err(Error::other("device full"));
        }
        h.put(p, buf);
        h.writes += 1;
        h.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut h = self.0.borrow_mut();
        let t: i128 = match p {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::Current(x) => i128::from(h.pos) + i128::from(x),
            SeekFrom::End(x) => i128::from(h.len) + i128::from(x),
        };
        if t < 0 || t > i128::from(i64::MAX) {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        h.pos = t as u64;
        Ok(h.pos)
    }
}
