//! Metadata and partial loads.

use super::c05::{read_via, same_meta};
use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom};

/// what a filter says of itself against its serialized form
fn true_meta(f: &BloomFilter, p: &Parsed) -> Verdict {
    macro_rules! same {
        ($what:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{} is reported as {:?} but is {:?}", $what, $a, $b));
            }
        };
    }
    same!("version", f.version(), p.version);
    same!("capacity", f.capacity() as u64, p.cap);
    same!("probability", f.fpp().to_bits(), p.fpp_bits);
    same!("count", f.count_estimate(), p.count);
    same!("length of data", f.data().len(), p.data.len());
    if f.data() != p.data {
        return Err("the attached data differs".into());
    }
    same!("size in bytes", f.size_in_bytes(), p.body.len() + p.cache.len());
    match f {
        BloomFilter::V1(b) => {
            same!("v1 capacity", b.capacity() as u64, p.cap);
            same!("v1 probability", b.fpp().to_bits(), p.fpp_bits);
            same!("v1 count", b.count_estimate(), p.count);
            same!("v1 number of bits", b.n_bits(), p.m);
            same!("v1 number of hashes", b.n_hash_fn(), p.k);
            same!("v1 size in bytes", b.size_in_bytes(), p.body.len());
            same!("v1 size in u64", b.size_in_u64(), p.body.len() / 8);
        }
        BloomFilter::V2(b) => {
            same!("v2 capacity", b.capacity() as u64, p.cap);
            same!("v2 probability", b.fpp().to_bits(), p.fpp_bits);
            same!("v2 count", b.count_estimate(), p.count);
            same!("v2 size in bytes", b.size_in_bytes(), p.body.len() + p.cache.len());
        }
    }
    Ok(())
}

fn loads(bytes: &[u8], io: &Chunks, via: u8) -> Result<(BloomFilter, BloomFilter), String> {
    let f = read_via(ChunkReader::new(bytes, io), bytes[0], via).map_err(|e| format!("a full load failed: {e}"))?;
    let p = BloomFilter::partial_from_reader(ChunkReader::new(bytes, io)).map_err(|e| format!("a partial load failed where a full load works: {e}"))?;
    Ok((f, p))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    before: History,
    data: Option<Blob>,
    io: Chunks,
    via: u8,
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let Some(mut w) = run(&c.before, &mut Plain, ctx)? else { return Ok(()) };
    let spec = &c.before.spec;
    if let Some(d) = &c.data {
        set_data(&mut w[0], d.bytes());
        if w[0].data() != d.bytes() {
            return Err("the attached data is not reported back".into());
        }
    }
    let f = &w[0];
    if f.version() != spec.version || f.capacity() as u64 != spec.cap || f.fpp().to_bits() != spec.fpp.to_bits() {
        return Err(format!("created with {spec:?}, reports version {} capacity {} probability {:?}", f.version(), f.capacity(), f.fpp()));
    }
    let bytes = dump(f);
    if let Ok(p) = parse(&bytes) {
        true_meta(f, &p).map_err(|e| format!("in memory: {e}"))?;
    } else {
        ctx.label("layout not recognised");
    }
    let (full, part) = match loads(&bytes, &c.io, c.via) {
        Ok(x) => x,
        Err(e) if e.starts_with("a full") => {
            ctx.label("full load refused");
            return Ok(());
        }
        Err(e) => return Err(e),
    };
    same_meta(f, &full).map_err(|e| format!("full load: {e}"))?;
    same_meta(f, &part).map_err(|e| format!("partial load: {e}"))?;
    if let Ok(p) = parse(&bytes) {
        true_meta(&full, &p).map_err(|e| format!("full load: {e}"))?;
        true_meta(&part, &p).map_err(|e| format!("partial load: {e}"))?;
    }
    ctx.nontrivial = f.count_estimate() > 0 || !f.data().is_empty();
    Ok(())
}

/// files nobody's creation would make: any geometry, count, data
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crafted {
    pub version: u8,
    pub opt: u8,
    pub cap: u64,
    #[serde(with = "f64s")]
    pub fpp: f64,
    pub k: u64,
    pub count: u64,
    /// bits of v1, cache bits (a power of two or 0) and buckets of v2
    pub m: u64,
    pub cache: u64,
    pub buckets: u64,
    pub data: Blob,
    pub io: Chunks,
    pub via: u8,
}

pub fn crafted() -> BoxedStrategy<Crafted> {
    let num = || prop_oneof![2 => 0u64..100, 2 => any::<u64>(), 1 => (0u32..64).prop_map(|e| 1 << e), 1 => Just(u64::MAX)];
    (
        (1u8..=2, 0u8..=3, num(), fpp(), num(), num()),
        (prop_oneof![0u64..300, 0u64..60_000], prop_oneof![2 => Just(0u64), 3 => (0u32..16).prop_map(|e| 1u64 << e), 1 => 0u64..3000], 0u64..12),
        blob(),
        chunks(),
        any::<u8>(),
    )
        .prop_map(|((version, opt, cap, fpp, k, count), (m, cache, buckets), data, io, via)| Crafted {
            version,
            opt: if version == 1 { 0 } else { opt },
            cap,
            fpp,
            k,
            count,
            m,
            cache,
            buckets,
            data,
            io,
            via,
        })
        .boxed()
}

pub fn crafted_head(c: &Crafted) -> Vec<u8> {
    let mut b = vec![c.version, c.opt, 0, 0, 0, 0, 0, 0];
    b.extend(c.cap.to_le_bytes());
    b.extend(c.fpp.to_le_bytes());
    b.extend(c.k.to_le_bytes());
    if c.version == 1 {
        b.extend(c.m.to_le_bytes());
        b.extend(c.count.to_le_bytes());
    } else {
        b.extend(c.count.to_le_bytes());
        b.extend(c.cache.to_le_bytes());
    }
    b
}

fn check_crafted(c: &Crafted, ctx: &mut Ctx) -> Verdict {
    let mut b = crafted_head(c);
    if c.version == 1 {
        b.extend(gen_bytes(Style::Random, c.m.div_ceil(64) as usize * 8, c.count));
    } else {
        b.extend(gen_bytes(Style::Random, c.cache.div_ceil(8) as usize, c.count));
        b.extend(c.buckets.to_le_bytes());
        b.extend(gen_bytes(Style::Random, c.buckets as usize * BUCKET, c.k));
    }
    b.extend(c.data.bytes());
    let p = parse(&b)?;
    match loads(&b, &c.io, c.via) {
        Err(e) if e.starts_with("a full") => ctx.label("full load refused"),
        Err(e) => return Err(e),
        Ok((full, part)) => {
            true_meta(&full, &p).map_err(|e| format!("full load: {e}"))?;
            true_meta(&part, &p).map_err(|e| format!("partial load: {e}"))?;
            same_meta(&full, &part).map_err(|e| format!("full against partial load: {e}"))?;
            ctx.label(format!("crafted v{}", c.version));
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

/// A file of several GB that is not really there: zeros between two known parts.
struct Sparse {
    parts: Vec<(u64, Vec<u8>)>,
    len: u64,
    pos: u64,
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        buf[..n].fill(0);
        for (at, p) in &self.parts {
            let (s, e) = ((*at).max(self.pos), (at + p.len() as u64).min(self.pos + n as u64));
            if s < e {
                buf[(s - self.pos) as usize..(e - self.pos) as usize].copy_from_slice(&p[(s - at) as usize..(e - at) as usize]);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

fn check_giant(c: &Crafted, ctx: &mut Ctx) -> Verdict {
    let h = crafted_head(c);
    let data = c.data.bytes();
    let mut parts = vec![(0, h.clone())];
    let (size, end) = if c.version == 1 {
        let s = c.m.div_ceil(64) * 8;
        (s, 48 + s)
    } else {
        let s = c.cache.div_ceil(8);
        parts.push((48 + s, c.buckets.to_le_bytes().to_vec()));
        (s + c.buckets * BUCKET as u64, 56 + s + c.buckets * BUCKET as u64)
    };
    parts.push((end, data.clone()));
    let r = Sparse { len: end + data.len() as u64, parts, pos: 0 };
    let f = BloomFilter::partial_from_reader(r).map_err(|e| format!("partial load of a file with {size} bytes of bits failed: {e}"))?;
    if f.size_in_bytes() as u64 != size {
        return Err(format!("size in bytes is reported as {} but is {size}", f.size_in_bytes()));
    }
    if f.data() != data {
        return Err(format!("data of {} bytes after {size} bytes of bits is reported as {} other bytes", data.len(), f.data().len()));
    }
    if f.capacity() as u64 != c.cap || f.count_estimate() != c.count || f.version() != c.version || f.fpp().to_bits() != c.fpp.to_bits() {
        return Err(format!("metadata of a large file is wrong: capacity {} count {} version {} probability {:?}", f.capacity(), f.count_estimate(), f.version(), f.fpp()));
    }
    ctx.nontrivial = size > 1 << 30;
    ctx.label(if size > u32::MAX as u64 { "more than 4 GB of bits" } else { "up to 4 GB of bits" });
    Ok(())
}

fn giant() -> BoxedStrategy<Crafted> {
    (crafted(), prop_oneof![(1u64 << 28)..(5u64 << 30), (0u64..100).prop_map(|d| (1u64 << 32) - 50 + d), (0u64..100).prop_map(|d| (1u64 << 31) - 50 + d), (32.0f64..44.0).prop_map(|e| e.exp2() as u64)], prop_oneof![4 => 20u32..36, 1 => 36u32..44])
        .prop_map(|(mut c, size, e)| {
            c.m = size * 8 - size % 64;
            c.cache = if c.opt < 2 { 0 } else { 1 << e };
            c.buckets = size / BUCKET as u64 + 1;
            c
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "filters out of histories, some with up to 50 MB of data, files crafted with any geometry, count and data, and virtual files with up to 16 TB of bits (partial loads only); all getters against the requested parameters and the serialized form, partial against full loads, from random stream positions and through random chunkings. Non-trivial: the filter holds elements or data, a crafted file was loaded, or the bits take more than 1 GB",
        suites: || {
            vec![
                suite(
                    "histories",
                    30_000,
                    500_000,
                    |_| {
                        (history(prop_oneof![3 => spec(40_000.0), 1 => small_spec()].boxed(), ALL, 8), prop::option::of(blob()), chunks(), any::<u8>())
                            .prop_map(|(before, data, io, via)| Case { before, data, io, via })
                            .boxed()
                    },
                    check,
                ),
                suite_fixed(
                    "large data",
                    160,
                    1_200,
                    |_| {
                        (history(spec(20_000.0), ALL, 4), big_blob(), chunks(), any::<u8>())
                            .prop_map(|(before, data, mut io, via)| {
                                if !io.sizes.is_empty() {
                                    io.sizes.push(60_000);
                                }
                                Case { before, data: Some(data), io, via }
                            })
                            .boxed()
                    },
                    check,
                ),
                suite("crafted files", 20_000, 300_000, |_| crafted(), check_crafted),
                suite("giant files", 1_000, 5_000, |_| giant(), check_giant),
            ]
        },
        processes: false,
    }
}
