//! Readers and writers that transfer data in generated pieces and fail where told.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom, Write};

/// How a stream delivers its bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Chunks {
    /// transfer sizes, used cyclically; 0 means an interrupted call; empty: unlimited
    pub sizes: Vec<usize>,
    /// bytes of something else before the filter
    pub prefix: usize,
}

pub fn chunks() -> BoxedStrategy<Chunks> {
    let size = prop_oneof![
        3 => 1usize..=9,
        2 => 1usize..=200,
        2 => 4090usize..=4100,
        2 => 8185usize..=8200,
        1 => 1usize..=70_000,
        1 => Just(0usize),
    ];
    let prefix = prop_oneof![3 => Just(0usize), 2 => 1usize..=64, 1 => 4000usize..=9000];
    (prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(size, 1..6)], prefix)
        .prop_map(|(mut sizes, prefix)| {
            if !sizes.is_empty() && sizes.iter().all(|&s| s == 0) {
                sizes.push(1);
            }
            // tiny pieces only would make large files slow
            if sizes.iter().all(|&s| s < 16) && !sizes.is_empty() {
                sizes.push(5000);
            }
            Chunks { sizes, prefix }
        })
        .boxed()
}

#[derive(Clone, Debug)]
pub struct ChunkReader<'a> {
    data: &'a [u8],
    prefix: usize,
    pos: usize,
    sizes: &'a [usize],
    turn: usize,
    /// reading this byte fails
    pub bad: Option<usize>,
    pub kind: io::ErrorKind,
    pub seek_fails: bool,
    /// the failure happens once only
    pub once: bool,
    failures: usize,
}

impl<'a> ChunkReader<'a> {
    /// positioned at the start of data, which is preceded by prefix other bytes
    pub fn new(data: &'a [u8], c: &'a Chunks) -> Self {
        ChunkReader {
            data,
            prefix: c.prefix,
            pos: c.prefix,
            sizes: &c.sizes,
            turn: 0,
            bad: None,
            kind: io::ErrorKind::Other,
            seek_fails: false,
            once: false,
            failures: 0,
        }
    }
}

impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let total = self.prefix + self.data.len();
        if buf.is_empty() || self.pos >= total {
            return Ok(0);
        }
        let mut n = buf.len().min(total - self.pos);
        if !self.sizes.is_empty() {
            let s = self.sizes[self.turn % self.sizes.len()];
            self.turn += 1;
            if s == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            n = n.min(s);
        }
        if let Some(bad) = self.bad {
            let bad = bad + self.prefix;
            if bad == self.pos {
                self.failures += 1;
                assert!(self.failures < 1000, "the failure of the reader is ignored for ever");
                if self.once {
                    self.bad = None;
                }
                return Err(io::Error::new(self.kind, "injected read failure"));
            }
            if bad > self.pos {
                n = n.min(bad - self.pos);
            }
        }
        for b in buf[..n].iter_mut() {
            *b = if self.pos < self.prefix { 0xA5 } else { self.data[self.pos - self.prefix] };
            self.pos += 1;
        }
        Ok(n)
    }
}

impl Seek for ChunkReader<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        if self.seek_fails {
            return Err(io::Error::new(self.kind, "injected seek failure"));
        }
        let total = (self.prefix + self.data.len()) as i128;
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => total + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > usize::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum WFault {
    None,
    /// the writer returns an error once this many bytes were accepted
    Err(usize),
    /// the writer accepts no more bytes (returns 0)
    Zero(usize),
    /// accepting bytes works, flushing fails
    Flush,
    /// the disk-full kind: short write, then error
    Full(usize),
    /// one error at this place, then everything works
    Once(usize),
}

#[derive(Clone, Debug)]
pub struct ChunkWriter<'a> {
    pub out: Vec<u8>,
    sizes: &'a [usize],
    turn: usize,
    pub fault: WFault,
    pub kind: io::ErrorKind,
    failures: usize,
}

impl<'a> ChunkWriter<'a> {
    pub fn new(c: &'a Chunks, fault: WFault) -> Self {
        ChunkWriter { out: vec![], sizes: &c.sizes, turn: 0, fault, kind: io::ErrorKind::Other, failures: 0 }
    }
}

impl Write for ChunkWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.sizes.is_empty() {
            let s = self.sizes[self.turn % self.sizes.len()];
            self.turn += 1;
            if s == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            n = n.min(s);
        }
        if self.failures > 1000 {
            panic!("the failure of the writer is ignored for ever");
        }
        self.failures += 1;
        let room = |at: usize| at.saturating_sub(self.out.len());
        match self.fault {
            WFault::Err(at) => {
                if room(at) < n {
                    // all or nothing
                    return Err(io::Error::new(self.kind, "injected write failure"));
                }
            }
            WFault::Full(at) => {
                n = n.min(room(at));
                if n == 0 {
                    return Err(io::Error::new(self.kind, "injected write failure"));
                }
            }
            WFault::Once(at) => {
                n = n.min(room(at));
                if n == 0 {
                    self.fault = WFault::None;
                    return Err(io::Error::new(self.kind, "injected write failure"));
                }
            }
            WFault::Zero(at) => {
                n = n.min(room(at));
                if n == 0 {
                    return Ok(0);
                }
            }
            _ => {}
        }
        self.failures = 0;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fault == WFault::Flush {
            return Err(io::Error::new(self.kind, "injected flush failure"));
        }
        Ok(())
    }
}
