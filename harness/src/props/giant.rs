//! Filters beyond 2^31 and 2^32 bits, compared with the models without copying them around.

use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::io::{self, Read, Seek, SeekFrom, Write};

/// what the suite decides
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    NoFalseNegatives,
    Capacity,
    Count,
    RoundTrip,
    FormatV1,
    FormatV2,
    Union,
    Common,
    Clear,
    Create,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Giant {
    spec: Spec,
    a: KeySet,
    b: KeySet,
    via: u8,
    data: Blob,
}

/// the file a model describes, in pieces
struct Image<'a> {
    parts: Vec<Cow<'a, [u8]>>,
    pos: usize,
    diff: Option<usize>,
}

impl<'a> Image<'a> {
    fn new(r: &'a Ref) -> Self {
        let parts = match r {
            Ref::V1(r) => {
                let mut h = vec![];
                for x in [1u64, r.cap, r.fpp.to_bits(), r.k, r.m, r.n] {
                    h.extend(x.to_le_bytes());
                }
                // little endian machines only, like the sandbox
                let w = unsafe { std::slice::from_raw_parts(r.words.as_ptr() as *const u8, r.words.len() * 8) };
                vec![Cow::Owned(h), Cow::Borrowed(w), Cow::Borrowed(&r.data[..])]
            }
            Ref::V2(r) => {
                let mut h = vec![2, r.opt, 0, 0, 0, 0, 0, 0];
                for x in [r.cap, r.fpp.to_bits(), r.k, r.n, r.cache.len() as u64 * 8] {
                    h.extend(x.to_le_bytes());
                }
                vec![
                    Cow::Owned(h),
                    Cow::Borrowed(&r.cache[..]),
                    Cow::Owned(r.n_buckets().to_le_bytes().to_vec()),
                    Cow::Borrowed(&r.buckets[..]),
                    Cow::Borrowed(&r.data[..]),
                ]
            }
        };
        Image { parts, pos: 0, diff: None }
    }
    fn len(&self) -> usize {
        self.parts.iter().map(|p| p.len()).sum()
    }
    /// the rest of the part the position is in
    fn here(&self) -> &[u8] {
        let mut at = self.pos;
        for p in &self.parts {
            if at < p.len() {
                return &p[at..];
            }
            at -= p.len();
        }
        &[]
    }
}

impl Read for Image<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.len() {
            return Ok(0);
        }
        let h = self.here();
        let n = h.len().min(buf.len());
        buf[..n].copy_from_slice(&h[..n]);
        self.pos += n;
        Ok(n)
    }
}

impl Seek for Image<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

/// writing compares
impl Write for Image<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.diff.is_some() {
            return Ok(buf.len());
        }
        let h = if self.pos < self.len() { self.here() } else { &[] };
        let n = h.len().min(buf.len());
        if n == 0 && !buf.is_empty() {
            self.diff = Some(self.pos);
            return Ok(buf.len());
        }
        if h[..n] != buf[..n] {
            let at = h[..n].iter().zip(buf).position(|(a, b)| a != b).unwrap_or(0);
            self.diff = Some(self.pos + at);
            return Ok(buf.len());
        }
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// is this filter saved as the model says
fn same(f: &BloomFilter, r: &Ref, when: &str) -> Verdict {
    let mut i = Image::new(r);
    let len = i.len();
    f.write(&mut i).map_err(|e| format!("saving {when} failed: {e}"))?;
    match i.diff {
        Some(at) => Err(format!("the filter of {len} bytes is saved differently {when}: from byte {at} on")),
        None if i.pos != len => Err(format!("only {} of {len} bytes are saved {when}", i.pos)),
        None => Ok(()),
    }
}

fn set_count(r: &mut Ref, n: u64) {
    match r {
        Ref::V1(r) => r.n = n,
        Ref::V2(r) => r.n = n,
    }
}

fn ones(r: &Ref) -> u64 {
    match r {
        Ref::V1(r) => r.words.iter().map(|w| w.count_ones() as u64).sum(),
        Ref::V2(r) => r.buckets.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()).count_ones() as u64).sum(),
    }
}

fn k(r: &Ref) -> u64 {
    match r {
        Ref::V1(r) => r.k,
        Ref::V2(r) => r.k,
    }
}

fn or(a: &mut Ref, b: &Ref) {
    match (a, b) {
        (Ref::V1(a), Ref::V1(b)) => a.words.iter_mut().zip(&b.words).for_each(|(x, y)| {
            if *y != 0 {
                *x |= y
            }
        }),
        (Ref::V2(a), Ref::V2(b)) => {
            for (a, b) in [(&mut a.cache, &b.cache), (&mut a.buckets, &b.buckets)] {
                a.iter_mut().zip(b).for_each(|(x, y)| {
                    if *y != 0 {
                        *x |= y
                    }
                });
            }
        }
        _ => {}
    }
}

fn and(a: &mut Ref, b: &Ref) {
    match (a, b) {
        (Ref::V1(a), Ref::V1(b)) => a.words.iter_mut().zip(&b.words).for_each(|(x, y)| {
            if *x != 0 {
                *x &= y
            }
        }),
        (Ref::V2(a), Ref::V2(b)) => {
            for (a, b) in [(&mut a.cache, &b.cache), (&mut a.buckets, &b.buckets)] {
                a.iter_mut().zip(b).for_each(|(x, y)| {
                    if *x != 0 {
                        *x &= y
                    }
                });
            }
        }
        _ => {}
    }
}

/// with so few bits set every element has its own: the estimate is ones / k, rounded once per
/// partition that holds something
fn count_ok(what: &str, r: &Ref, n: u64, entries: usize) -> Verdict {
    let est = ones(r) as f64 / k(r).max(1) as f64;
    let slack = match r {
        Ref::V1(_) => 1.0 + est * 1e-4,
        Ref::V2(_) => 1.0 + entries as f64,
    };
    if (n as f64) < est - slack || (n as f64) > est + slack {
        return Err(format!("{what} is {n}, the bits imply {est:.2}"));
    }
    Ok(())
}

fn insert(f: &mut BloomFilter, r: &mut Ref, set: &KeySet, via: u8, what: What) -> Verdict {
    for (i, v) in set.iter().enumerate() {
        let before = f.count_estimate();
        let had = f.contains_bytes(&v);
        let got = insert_via(f, &v, via.wrapping_add(i as u8));
        let _ = r.insert(&v);
        if what == What::Capacity && got.is_err() {
            return Err(format!("insertion of {} failed with count {before} and capacity {}: {:?}", short(&v), f.capacity(), got.err().map(|e| e.to_string())));
        }
        if what == What::Count {
            let new = got.as_ref().is_ok_and(|x| *x);
            if got.is_ok() && (new == had || f.count_estimate() != before + new as u64) {
                return Err(format!("insertion of {} returned {new}, it was contained before: {had}, count {before} then {}", short(&v), f.count_estimate()));
            }
        }
        if what == What::NoFalseNegatives && got.is_ok() && !contains_via(f, &v, i as u8) {
            return Err(format!("{} was inserted but is not contained right after its insertion", short(&v)));
        }
    }
    Ok(())
}

/// memory the machine can still give, in bytes
fn available() -> u64 {
    std::fs::read_to_string("/proc/meminfo")
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("MemAvailable")).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok()))
        .map_or(u64::MAX, |kb| kb * 1024)
}

fn check(g: &Giant, what: What, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &g.spec);
    if available() < 6 << 30 {
        ctx.label("skipped: not enough memory");
        return Ok(());
    }
    let s = &g.spec;
    let mut f = match s.create() {
        Ok(f) => f,
        Err(e) if what == What::Create => return Err(e),
        Err(_) => return Ok(()),
    };
    if what == What::Create {
        if f.version() != s.version || f.capacity() as u64 != s.cap || f.fpp() != s.fpp || f.count_estimate() != 0 || f.is_full() {
            return Err(format!("asked for {s:?}, got version {} capacity {} probability {} count {}", f.version(), f.capacity(), f.fpp(), f.count_estimate()));
        }
        for v in g.a.iter() {
            if f.contains_bytes(&v) {
                return Err(format!("the new filter contains {}", short(&v)));
            }
        }
        let n = match &f {
            BloomFilter::V1(b) => b.count_ones(),
            BloomFilter::V2(b) => b.count_ones(),
        };
        if n != 0 {
            return Err(format!("the new filter has {n} bits set"));
        }
        ctx.nontrivial = true;
        return Ok(());
    }
    let format = matches!(what, What::FormatV1 | What::FormatV2);
    let mut r = None;
    let mut why = String::new();
    for c in Ref::candidates(s.version, s.opt, s.cap, s.fpp) {
        match same(&f, &c, "as created") {
            Ok(()) => {
                r = Some(c);
                break;
            }
            Err(e) => why = e,
        }
    }
    let Some(mut r) = r else {
        return if format { Err(why) } else { Ok(()) };
    };
    ctx.count("bits", f.size_in_bytes() as u64 * 8);
    ctx.nontrivial = true;
    insert(&mut f, &mut r, &g.a, g.via, what)?;
    if what == What::Count || what == What::Capacity {
        return Ok(());
    }
    let d = g.data.bytes();
    set_data(&mut f, d.clone());
    r.set_data(d);
    if what == What::NoFalseNegatives {
        for (i, v) in g.a.iter().enumerate() {
            if !contains_via(&f, &v, i as u8) {
                return Err(format!("{} was inserted but is not contained", short(&v)));
            }
        }
    }
    if format {
        same(&f, &r, "after insertions")?;
        for v in g.b.iter() {
            if f.contains_bytes(&v) != r.contains(&v) {
                return Err(format!("contains({}) is {}, by the format it is {}", short(&v), f.contains_bytes(&v), r.contains(&v)));
            }
        }
    }
    if what == What::RoundTrip || what == What::NoFalseNegatives || format {
        // the other properties go on with the saved file only if it is what the model says
        let matches = same(&f, &r, "after insertions").is_ok();
        if matches {
            let g2 = BloomFilter::from_reader(Image::new(&r)).map_err(|e| format!("loading a saved filter of {} bytes failed: {e}", Image::new(&r).len()))?;
            for (i, v) in g.a.iter().chain(g.b.iter()).enumerate() {
                let (x, y) = (contains_via(&f, &v, i as u8), contains_via(&g2, &v, i as u8));
                if x != y {
                    return Err(format!("contains({}) is {x} for the original and {y} for the loaded filter", short(&v)));
                }
            }
            if f.count_estimate() != g2.count_estimate() || f.data() != g2.data() || f.size_in_bytes() != g2.size_in_bytes() {
                return Err("count, size or data changed by saving and loading".into());
            }
            same(&g2, &r, "after loading")?;
        }
    }
    match what {
        What::Clear => {
            f.clear();
            for v in g.a.iter() {
                if f.contains_bytes(&v) {
                    return Err(format!("the cleared filter contains {}", short(&v)));
                }
            }
            if f.count_estimate() != 0 {
                return Err(format!("the count after clear is {}", f.count_estimate()));
            }
            let mut empty = match &r {
                Ref::V1(x) => Ref::V1(RefV1::with_geometry(x.cap, x.fpp, x.m, x.k)),
                Ref::V2(x) => Ref::V2(RefV2::with_geometry(x.cap, x.fpp, x.opt, (x.k, x.cache.len() as u64, x.n_buckets()))),
            };
            empty.set_data(f.data().to_vec());
            same(&f, &empty, "after clear")?;
        }
        What::Union | What::Common => {
            let Ok(mut h) = s.create() else { return Ok(()) };
            let mut rh = match &r {
                Ref::V1(x) => Ref::V1(RefV1::with_geometry(x.cap, x.fpp, x.m, x.k)),
                Ref::V2(x) => Ref::V2(RefV2::with_geometry(x.cap, x.fpp, x.opt, (x.k, x.cache.len() as u64, x.n_buckets()))),
            };
            insert(&mut h, &mut rh, &g.b, g.via, what)?;
            // half of the first set is in both
            let half = KeySet { n: g.a.n / 2, ..g.a.clone() };
            insert(&mut h, &mut rh, &half, g.via, what)?;
            let fail = |e: poppy_filters::Error| format!("filters with the same parameters refused: {e}");
            if same(&f, &r, "after insertions").is_err() || same(&h, &rh, "after insertions").is_err() {
                return Ok(()); // C06 and C07 say what is wrong
            }
            let entries = g.a.n + g.b.n;
            if what == What::Union {
                f.union_merge(&h).map_err(fail)?;
                or(&mut r, &rh);
                count_ok("the count of the union", &r, f.count_estimate(), entries)?;
                set_count(&mut r, f.count_estimate());
                same(&f, &r, "after a union")?;
                for v in g.a.iter().chain(g.b.iter()) {
                    if !f.contains_bytes(&v) {
                        return Err(format!("{} was in one of the merged filters but is not in the union", short(&v)));
                    }
                }
            } else {
                let n = f.count_common_entries(&h).map_err(fail)?;
                and(&mut r, &rh);
                count_ok("the number of common entries", &r, n as u64, entries)?;
                if let (BloomFilter::V2(x), BloomFilter::V2(y)) = (&mut f, &h) {
                    x.intersection_merge(y).map_err(fail)?;
                    count_ok("the count of the intersection", &r, f.count_estimate(), entries)?;
                    set_count(&mut r, f.count_estimate());
                    same(&f, &r, "after an intersection")?;
                    for v in half.iter() {
                        if !f.contains_bytes(&v) {
                            return Err(format!("{} was inserted in both filters but is not in the intersection", short(&v)));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn giant(what: What) -> BoxedStrategy<Giant> {
    let vo = match what {
        What::FormatV1 => Just((1u8, 0u8)).boxed(),
        What::FormatV2 => v2_opt(),
        _ => prop_oneof![1 => Just((1u8, 0u8)), 1 => v2_opt()].boxed(),
    };
    let set = || {
        (prop_oneof![Just(Style::Random), Just(Style::Ascii)], 9usize..=40, any::<u64>(), 50usize..=3000)
            .prop_map(|(style, len, seed, n)| KeySet { style, len, spread: 7, seed, n })
    };
    // just above 2^32 bits, just above 2^31 bits
    (vo, prop_oneof![3 => 900_000_000u64..=940_000_000, 1 => 449_000_000u64..=470_000_000], set(), set(), any::<u8>(), (0usize..5000, any::<u64>()))
        .prop_map(|((version, opt), cap, a, b, via, (len, seed))| {
            // the faster level rounds the number of buckets up to a power of two
            let cap = if opt == 2 { cap.min(895_000_000) } else { cap };
            Giant { spec: Spec { version, opt, cap, fpp: 0.1 }, a, b, via, data: Blob::Gen { len, seed } }
        })
        .boxed()
}

pub fn suite(what: What) -> Suite {
    suite_fixed("beyond 32 bits", 8, 40, move |_| giant(what), move |g: &Giant, ctx: &mut Ctx| check(g, what, ctx))
}
