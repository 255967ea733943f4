//! Readers and writers whose chunking, interruptions and faults come from the tape.
use crate::core::Src;
use std::io::{Error, ErrorKind, Read, Result, Write};

const FOREVER: u64 = 200_000;

/// hands out `data` in generated chunk sizes
pub struct ChunkReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub i: usize,
    /// which calls are interrupted, repeating (empty: none)
    pub intr: Vec<bool>,
    pub calls: u64,
    /// a hard error once this offset is reached
    pub fail_at: Option<usize>,
    /// of this kind
    pub kind: ErrorKind,
    /// only once: the data goes on behind it
    pub transient: bool,
    pub eof_reads: u64,
    pub failed: bool,
}
/// never Interrupted, which asks for another try
const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::WriteZero,
    ErrorKind::Other,
    ErrorKind::OutOfMemory,
];
fn gen_intr(s: &mut Src) -> Vec<bool> {
    if !s.chance(1, 4) {
        return vec![];
    }
    let mut v = match s.below(3) {
        // every n-th call
        0 => {
            let n = s.range(2, 5) as usize;
            let mut v = vec![false; n];
            v[n - 1] = true;
            v
        }
        // several in a row
        1 => {
            let n = s.range(1, 12) as usize;
            let mut v = vec![true; n];
            v.extend(vec![false; s.range(1, 3) as usize]);
            v
        }
        _ => (0..s.range(2, 8)).map(|_| s.bool()).collect(),
    };
    v.push(false);
    v
}
impl ChunkReader {
    pub fn plain(data: Vec<u8>) -> Self {
        ChunkReader { data, pos: 0, sizes: vec![usize::MAX], i: 0, intr: vec![], calls: 0, fail_at: None, kind: ErrorKind::ConnectionReset, transient: false, eof_reads: 0, failed: false }
    }
    pub fn gen(s: &mut Src, data: Vec<u8>) -> Self {
        let mut r = Self::plain(data);
        r.sizes = gen_sizes(s);
        r.intr = gen_intr(s);
        r
    }
    pub fn fault(&mut self, s: &mut Src, at: usize) {
        self.fail_at = Some(at);
        self.kind = *s.pick(KINDS);
        self.transient = s.bool();
    }
}
pub fn gen_sizes(s: &mut Src) -> Vec<usize> {
    match s.below(5) {
        0 => vec![usize::MAX],
        1 => vec![1],
        2 => vec![s.range(1, 16) as usize],
        3 => {
            let n = s.range(1, 6);
            (0..n).map(|_| s.range(1, 9) as usize).collect()
        }
        _ => {
            let n = s.range(1, 4);
            (0..n).map(|_| s.int(1, 20000) as usize).collect()
        }
    }
}
impl Read for ChunkReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if !self.intr.is_empty() && self.intr[(self.calls - 1) as usize % self.intr.len()] {
            return Err(Error::new(ErrorKind::Interrupted, "generated interruption"));
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.failed = true;
                self.eof_reads += 1;
                if self.eof_reads > FOREVER {
                    panic!("reader is polled forever after an error");
                }
                if self.transient {
                    self.fail_at = None;
                }
                return Err(Error::new(self.kind, "generated fault"));
            }
        }
        let left = self.data.len() - self.pos;
        if left == 0 {
            self.eof_reads += 1;
            if self.eof_reads > FOREVER {
                panic!("reader is polled forever after its end");
            }
            return Ok(0);
        }
        let mut n = self.sizes[self.i % self.sizes.len()].max(1).min(left).min(buf.len());
        self.i += 1;
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct ChunkWriter {
    pub out: Vec<u8>,
    pub sizes: Vec<usize>,
    pub i: usize,
    pub intr: Vec<bool>,
    pub calls: u64,
    pub fail_at: Option<usize>,
    /// None: the writer takes no more bytes without an error of its own
    pub kind: Option<ErrorKind>,
    pub transient: bool,
    pub failed: bool,
}
impl ChunkWriter {
    pub fn gen(s: &mut Src) -> Self {
        ChunkWriter { out: vec![], sizes: gen_sizes(s), i: 0, intr: gen_intr(s), calls: 0, fail_at: None, kind: Some(ErrorKind::BrokenPipe), transient: false, failed: false }
    }
    pub fn fault(&mut self, s: &mut Src, at: usize) {
        self.fail_at = Some(at);
        self.kind = if s.chance(1, 6) { None } else { Some(*s.pick(KINDS)) };
        self.transient = s.bool();
    }
}
impl Write for ChunkWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.calls > 50_000_000 {
            panic!("writer is called forever");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if !self.intr.is_empty() && self.intr[(self.calls - 1) as usize % self.intr.len()] {
            return Err(Error::new(ErrorKind::Interrupted, "generated interruption"));
        }
        let mut n = self.sizes[self.i % self.sizes.len()].max(1).min(buf.len());
        self.i += 1;
        if let Some(f) = self.fail_at {
            if self.out.len() >= f {
                self.failed = true;
                if self.transient {
                    self.fail_at = None;
                }
                return match self.kind {
                    Some(k) => Err(Error::new(k, "generated fault")),
                    None => Ok(0),
                };
            }
            n = n.min(f - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
