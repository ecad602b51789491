//! Scripted sinks and readers.
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};

use crate::rng::Rng;

/// How a stream is cut into pieces
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk { All, One, Fixed(usize), Random(u64), Small(u64), Prime }

pub fn chunks(rng: &mut Rng) -> Chunk {
    match rng.below(6) {
        0 => Chunk::All,
        1 => Chunk::One,
        2 => Chunk::Fixed(rng.range(1, 100) as usize),
        3 => Chunk::Random(rng.next()),
        4 => Chunk::Small(rng.next()),
        _ => Chunk::Prime,
    }
}

#[derive(Clone, Debug)]
pub struct Cutter { c: Chunk, rng: Rng }
impl Cutter {
    pub fn new(c: Chunk) -> Cutter {
        let s = match c { Chunk::Random(s) | Chunk::Small(s) => s, _ => 1 };
        Cutter { c, rng: Rng::new(s) }
    }
    /// 1..=max
    pub fn cut(&mut self, max: usize) -> usize {
        if max == 0 { return 0; }
        match self.c {
            Chunk::All => max,
            Chunk::One => 1,
            Chunk::Fixed(n) => n.max(1).min(max),
            Chunk::Random(_) => 1 + self.rng.us(max),
            Chunk::Small(_) => (1 + self.rng.us(5)).min(max),
            Chunk::Prime => 37.min(max),
        }
    }
}

pub const MARK: &str = "vh-injected-error";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault { None, Error(ErrorKind), Zero }

/// Collects what it accepts; fails once `at` bytes were accepted
pub struct Sink {
    pub data: Vec<u8>,
    pub cut: Cutter,
    pub fault: Fault,
    pub at: usize,
    /// every n-th call is interrupted (0 = never)
    pub intr: u64,
    pub calls: u64,
    pub failed: u64,
    /// writes accepted after the first failure
    pub after: u64,
    pub flushes: u64,
    /// more failures than this are an endless loop
    pub budget: u64,
    /// work again after this many failures
    pub transient: u64,
}

impl Sink {
    pub fn new(c: Chunk) -> Sink {
        Sink { data: Vec::new(), cut: Cutter::new(c), fault: Fault::None, at: usize::MAX, intr: 0,
               calls: 0, failed: 0, after: 0, flushes: 0, budget: 1_000_000, transient: u64::MAX }
    }
    pub fn plain() -> Sink { Sink::new(Chunk::All) }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _by = crate::shim::Bypass::new();
        self.calls += 1;
        if buf.is_empty() { return Ok(0); }
        if self.intr != 0 && self.calls % self.intr == 1 {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let room = self.at.saturating_sub(self.data.len());
        if self.failed >= self.transient { self.fault = Fault::None; }
        if room == 0 && self.fault != Fault::None {
            self.failed += 1;
            if self.failed > self.budget { panic!("VH-LOGICAL: the sink was called {} times after it failed", self.failed); }
            return match self.fault {
                Fault::Error(k) => Err(io::Error::new(k, MARK)),
                _ => Ok(0),
            };
        }
        let n = self.cut.cut(buf.len()).min(if self.fault != Fault::None { room } else { usize::MAX });
        self.data.extend_from_slice(&buf[..n]);
        if self.failed > 0 { self.after += 1; }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; Ok(()) }
}

/// Wrapper that keeps only counters, for big outputs
pub struct Counter { pub n: u64 }
impl Write for Counter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.n += buf.len() as u64; Ok(buf.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// A reader with scripted chunking, interruptions and faults.
/// Implements Read, BufRead and Seek.
pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    cut: Cutter,
    /// end of the window given out by fill_buf
    win: usize,
    /// every n-th call is interrupted (0 = never)
    pub intr: u64,
    pub calls: u64,
    /// fail when the position reaches this offset
    pub fail_at: Option<(usize, ErrorKind)>,
    /// bound on calls: more is an endless loop
    pub limit: u64,
    pub faults: u64,
    pub interrupts: u64,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], c: Chunk) -> Src<'a> {
        Src { data, pos: 0, cut: Cutter::new(c), win: 0, intr: 0, calls: 0, fail_at: None,
              limit: 4 * data.len() as u64 + 100_000, faults: 0, interrupts: 0 }
    }
    fn gate(&mut self) -> io::Result<()> {
        self.calls += 1;
        if self.calls > self.limit { panic!("VH-LOGICAL: the reader was called {} times for {} bytes", self.calls, self.data.len()); }
        if self.intr != 0 && self.calls % self.intr == 1 {
            self.interrupts += 1;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if let Some((at, k)) = self.fail_at {
            if self.pos >= at {
                self.faults += 1;
                return Err(io::Error::new(k, MARK));
            }
        }
        Ok(())
    }
    fn end(&self) -> usize {
        match self.fail_at { Some((at, _)) => at.min(self.data.len()).max(self.pos.min(self.data.len())), None => self.data.len() }
    }
}

impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        self.gate()?;
        let avail = self.end().saturating_sub(self.pos);
        if avail == 0 { return Ok(0); }
        let n = self.cut.cut(avail.min(buf.len()));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if self.win < self.pos { self.win = self.pos; }
        Ok(n)
    }
}

impl<'a> BufRead for Src<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.win <= self.pos {
            self.gate()?;
            let avail = self.end().saturating_sub(self.pos);
            self.win = self.pos + self.cut.cut(avail);
        }
        Ok(&self.data[self.pos.min(self.data.len())..self.win.min(self.data.len())])
    }
    fn consume(&mut self, n: usize) { self.pos += n; }
}

impl<'a> Seek for Src<'a> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n,
        };
        if n < 0 { return Err(io::Error::new(ErrorKind::InvalidInput, "seek before the start")); }
        self.pos = n as usize;
        self.win = self.pos;
        Ok(n as u64)
    }
}
