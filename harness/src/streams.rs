//! Sources and sinks that follow a schedule: how much each call transfers, which calls are
//! interrupted, which operation fails.
use std::io::{self, Read, Seek, SeekFrom, Write};

#[derive(Clone, Default)]
pub struct Plan {
    /// bytes per call, cycled; empty = everything
    pub chunks: Vec<usize>,
    /// every n-th call returns Interrupted first (0 = never)
    pub interrupt: usize,
    /// operation (0-based) that fails
    pub fail_op: Option<usize>,
    /// the stream takes or gives at most this many bytes, then fails
    pub limit: Option<usize>,
    /// at the limit: Ok(0) instead of an error
    pub zero: bool,
    /// answers to the calls from number `at` on: n bytes at most, 0 nothing, -1 interrupted, -2 failed
    pub script: Vec<i64>,
    pub at: usize,
}

pub const FAR: [u64; 3] = [0, 1 << 31, 1 << 32];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Io,
    Seek,
    Flush,
}

pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
    pub plan: Plan,
    pub ops: Vec<Kind>,
    /// an answer of the script that loses data was given
    pub hurt: bool,
    pub interrupted: bool,
    /// what lies before the data in the stream
    base: u64,
    /// calls that asked for data
    pub asked: usize,
    calls: usize,
    done: usize,
    pending: bool,
}

fn boom() -> io::Error {
    io::Error::other("injected failure")
}

impl Stream {
    pub fn new(data: Vec<u8>, pos: usize, plan: Plan) -> Self {
        Stream { data, pos, plan, ops: vec![], hurt: false, interrupted: false, base: 0, asked: 0, calls: 0, done: 0, pending: false }
    }
    /// the data lies far out in a large stream: `at` 2^31 or 2^32 is somewhere within it
    pub fn far(mut self, at: u64) -> Self {
        self.base = at.saturating_sub(self.pos as u64 + (self.data.len() - self.pos).max(100) as u64 / 2);
        self
    }
    fn op(&mut self, k: Kind) -> io::Result<()> {
        let n = self.ops.len();
        self.ops.push(k);
        if self.plan.fail_op == Some(n) { Err(boom()) } else { Ok(()) }
    }
    fn quota(&mut self, want: usize, left: usize) -> io::Result<usize> {
        let nth = self.asked;
        self.asked += 1;
        if nth >= self.plan.at && nth - self.plan.at < self.plan.script.len() && want > 0 {
            return match self.plan.script[nth - self.plan.at] {
                -1 => {
                    self.interrupted = true;
                    Err(io::ErrorKind::Interrupted.into())
                }
                -2 => {
                    self.hurt = true;
                    Err(boom())
                }
                0 => {
                    self.hurt |= left > 4;
                    Ok(0)
                }
                n => Ok(want.min(n as usize)),
            };
        }
        if self.plan.interrupt > 0 && !self.pending {
            self.calls += 1;
            if self.calls % self.plan.interrupt == 0 {
                self.pending = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        self.pending = false;
        self.op(Kind::Io)?;
        let mut n = want;
        if !self.plan.chunks.is_empty() {
            n = n.min(self.plan.chunks[self.ops.len() % self.plan.chunks.len()]);
        }
        if let Some(l) = self.plan.limit {
            if want > 0 && self.done >= l {
                return if self.plan.zero { Ok(0) } else { Err(boom()) };
            }
            n = n.min(l - self.done.min(l));
        }
        Ok(n)
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let avail = self.data.len().saturating_sub(self.pos);
        let n = self.quota(buf.len(), avail)?;
        let n = n.min(avail);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.done += n;
        Ok(n)
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.quota(buf.len(), usize::MAX)?;
        if self.data.len() < self.pos + n {
            self.data.resize(self.pos + n, 0);
        }
        self.data[self.pos..self.pos + n].copy_from_slice(&buf[..n]);
        self.pos += n;
        self.done += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op(Kind::Flush)
    }
}

impl Seek for Stream {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.op(Kind::Seek)?;
        let p = match to {
            SeekFrom::Start(p) => p as i64 - self.base as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64 + self.base)
    }
}
